"""A local HTTPS server that answers for every host name (the monitor directs all
connections of the program to it) and records every request."""
import hashlib, os, socket, ssl, threading, time

from . import build

DIR = os.path.join(build.VERIF, "tls")
CA = os.path.join(DIR, "ca.pem")
ENV = {"SSL_CERT_FILE": CA, "SSL_CERT_DIR": "/nonexistent"}


class Reply:
    def __init__(self, body=b"", status=200, headers=(), short=None, reset=False, chunked=False, stall=None, trickle=False):
        """stall: go silent after so many bytes of the answer. trickle: send it ever so slowly."""
        self.body, self.status, self.headers, self.short, self.reset, self.chunked = body, status, list(headers), short, reset, chunked
        self.stall, self.trickle = stall, trickle


class Server:
    """lookup(host, path, headers) -> bytes, Reply or None (404)."""

    def __init__(self, lookup, cert="good"):
        self.lookup, self.cert, self.certs = lookup, cert, {}
        self.requests = []          # (host asked for, path, headers)
        self.log = []               # (certificate shown or "plain", host, path) of each request
        self.handshakes = []        # SNI of each started handshake
        self.failed = 0
        self.once = False           # one request per connection, and every handshake shows the certificate
        self.ctxs = {}
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.stop = False
        self.base = self._ctx("good", fresh=True)
        self.base.sni_callback = self._sni
        self.thread = threading.Thread(target=self._loop, daemon=True)
        self.thread.start()

    def _ctx(self, cert, fresh=False):
        if fresh or cert not in self.ctxs:
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            c.load_cert_chain(os.path.join(DIR, cert + ".pem"))
            c.options |= ssl.OP_NO_TICKET
            c.num_tickets = 0
            if fresh:
                return c
            self.ctxs[cert] = c
        return self.ctxs[cert]

    def _sni(self, sock, name, ctx):
        self.handshakes.append(name)
        sock.context = self._ctx(self.certs.get(name, self.cert))

    def _loop(self):
        while not self.stop:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        c.settimeout(60)
        try:
            if c.recv(1, socket.MSG_PEEK) == b"G":
                s, cert = c, "plain"
            else:
                s = self.base.wrap_socket(c, server_side=True)
                cert = next((n for n, x in self.ctxs.items() if x is s.context), "good")
        except (OSError, ssl.SSLError):
            self.failed += 1
            c.close()
            return
        try:
            f = s.makefile("rb")
            while True:
                line = f.readline(65536)
                if not line.strip():
                    return
                method, path, _ = line.decode("latin-1").split(" ", 2)
                hd = {}
                while True:
                    h = f.readline(65536).decode("latin-1").strip()
                    if not h:
                        break
                    k, v = h.split(":", 1)
                    hd[k.strip().lower()] = v.strip()
                host = hd.get("host", "")
                self.requests.append((host, path, hd))
                self.log.append((cert, host, path))
                r = self.lookup(host, path, hd)
                if r is None:
                    r = Reply(b"not found", 404)
                elif not isinstance(r, Reply):
                    r = Reply(r)
                if r.reset:
                    return
                head = ["HTTP/1.1 %d X" % r.status] + ["%s: %s" % kv for kv in r.headers]
                if self.once:
                    head.append("Connection: close")
                if r.chunked:
                    head.append("Transfer-Encoding: chunked")
                elif r.status not in (304, 204):
                    head.append("Content-Length: %d" % len(r.body))
                if r.stall is not None or r.trickle:
                    b = ("\r\n".join(head) + "\r\n\r\n").encode() + r.body
                    n = (len(b) - len(r.body) if r.trickle else 0) if r.stall is None else r.stall
                    s.sendall(b[:n])
                    while not self.stop:
                        time.sleep(0.2)
                        if r.trickle and n < len(b):
                            s.sendall(b[n:n + 1])
                            n += 1
                    return
                s.sendall(("\r\n".join(head) + "\r\n\r\n").encode())
                if r.status in (304, 204) or method == "HEAD":
                    if self.once:
                        return
                    continue
                if r.chunked:
                    s.sendall(b"%x\r\n%s\r\n" % (len(r.body), r.body) if r.body else b"")
                    if r.short is not None:
                        return
                    s.sendall(b"0\r\n\r\n")
                elif r.short is not None:
                    s.sendall(r.body[:r.short])
                    return
                else:
                    s.sendall(r.body)
                if self.once:
                    return
        except (OSError, ValueError, ssl.SSLError):
            pass
        finally:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            s.close()

    def close(self):
        self.stop = True
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()


def from_files(get):
    """lookup that serves a {relative path: bytes or Reply} dictionary below a base URI: get() -> {(host, base path): files}"""
    def lookup(host, path, hd):
        for (h, b), files in get().items():
            if host == h and path.startswith(b):
                return files.get(path[len(b):])
        return None
    return lookup


def conditional(lookup):
    """The same answers with an ETag and a Last-Modified date, and 304 for who has that content already."""
    dates = {}

    def answer(host, path, hd):
        b = lookup(host, path, hd)
        if not isinstance(b, bytes):
            return b
        h = hashlib.sha256(b).hexdigest()
        tag = '"%s"' % h[:20]
        day = dates.setdefault((host, path, h), len(dates))
        date = time.strftime("%a, %d %b %Y %H:%M:%S GMT", time.gmtime(1600000000 + 3600 * day))
        head = [("ETag", tag), ("Last-Modified", date)]
        if "if-none-match" in hd:
            if tag in hd["if-none-match"]:
                return Reply(b"", 304, headers=head)
        elif hd.get("if-modified-since") == date:
            return Reply(b"", 304, headers=head)
        return Reply(b, headers=head)
    return answer
