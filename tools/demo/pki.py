"""Helper of a demonstration: generated RPKI content and a local HTTPS server (uses rpki.py and keys.json beside it)."""
import os, random, socket, ssl, subprocess, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ks, rpki

DAY = 86400


class Server:
    """Serves .files {path: bytes or function -> (status, headers, bytes)} on localhost; .log has the requested paths."""

    def __init__(self, pem=None):
        self.files, self.log = {}, []
        pem = pem or selfsigned()
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(pem)
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.base = "https://localhost:%d/" % self.port
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self.one, args=(c,), daemon=True).start()

    def one(self, c):
        try:
            c.settimeout(20)
            s = self.ctx.wrap_socket(c, server_side=True)
            b = b""
            while b"\r\n\r\n" not in b:
                x = s.recv(65536)
                if not x:
                    return
                b += x
            path = b.split(b" ", 2)[1].decode()
            self.log.append(path)
            f = self.files.get(path)
            st, hd, body = (404, [], b"") if f is None else f() if callable(f) else (200, [], f)
            s.sendall(b"HTTP/1.1 %d X\r\nContent-Length: %d\r\nConnection: close\r\n" % (st, len(body)) + b"".join(h + b"\r\n" for h in hd) + b"\r\n" + body)
            s.unwrap()
        except (OSError, ValueError):
            pass
        finally:
            c.close()


def selfsigned(name="localhost", out="self"):
    p = os.path.join(ks.ROOT, out)
    if not os.path.exists(p + ".pem"):
        subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", p + ".key", "-out", p + ".crt", "-days", "30", "-subj", "/CN=" + name, "-addext", "subjectAltName=DNS:" + name],
                       check=True, capture_output=True)
        with open(p + ".pem", "wb") as f:
            f.write(ks.rd(p + ".crt") + ks.rd(p + ".key"))
    return p + ".pem"


class Net:
    """A tree below one trust anchor. repos: 0 is the source repository, the others are served over HTTPS."""

    def __init__(self, shape=((0, 0),), items=("roa",), nrepos=1, ta_repo=0, seed=1, now=None):
        self.now = now or int(time.time())
        self.srv = Server()
        self.repos = [rpki.Repo("https://rrdp.example.net/rrdp/notification.xml", "rsync://repo.example.net/repo/")]
        self.repos += [rpki.Repo(self.srv.base + "r%d/notification.xml" % i, "rsync://repo%d.example.net/repo/" % i) for i in range(1, nrepos)]
        self.tree = rpki.Tree(random.Random(seed), self.repos, self.now, shape=list(shape), items=list(items), ta_repo=ta_repo, host="localhost:%d" % self.srv.port)
        self.src = [None] * nrepos
        self.tal = os.path.join(ks.ROOT, "ta.tal")
        with open(self.tal, "wb") as f:
            f.write(self.tree.tal())
        self.srv.files["/ta.cer"] = self.tree.ta_cert()

    def publish(self, defect=None, only=None):
        """New contents of all repositories; defect(stage, ca, x) may alter them."""
        def hook(stage, ca, x):
            if defect:
                defect(stage, ca, x)
            return x
        out = self.tree.build(hook)
        for i, repo in enumerate(self.repos):
            if only is not None and i not in only:
                continue
            new = out[repo.notify]
            s = self.src[i]
            if s is None:
                s = self.src[i] = ks.Source(objects=new)
                if i:
                    s.base = self.srv.base + "r%d/" % i
                    s.uri = repo.notify
            else:
                s.publish({u: b for u, b in new.items() if s.objects.get(u) != b}, [u for u in s.objects if u not in new])
            if i:
                for p, b in s.files().items():
                    self.srv.files["/r%d/%s" % (i, p)] = b

    def run(self, *opts, **kw):
        del self.srv.log[:]
        return ks.run(self.src[0], "--tal", self.tal, *opts, **kw)

    def asked(self, i):
        """Requests for data of repository i in the last run."""
        return [p for p in self.srv.log if p.startswith("/r%d/" % i)]
