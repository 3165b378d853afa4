"""Independent readers of what krill-sync publishes, and a relying-party model."""
import base64, hashlib, os, stat, uuid
import xml.parsers.expat

NS = "http://www.ripe.net/rpki/rrdp"


class Bad(Exception):
    pass


def _parse(data, root):
    """Strict RFC 8182 reader -> (root attributes, [(tag, attributes, text)])."""
    p = xml.parsers.expat.ParserCreate(namespace_separator=" ")
    stack, out, ra = [], [], {}

    def start(name, attrs):
        if " " not in name or name.split(" ")[0] != NS:
            raise Bad("element %s not in the RRDP name space" % name)
        n = name.split(" ")[1]
        if not stack:
            if n != root:
                raise Bad("root is %s" % n)
            ra.update(attrs)
        elif len(stack) == 1:
            out.append([n, dict(attrs), []])
        else:
            raise Bad("nested element %s" % n)
        stack.append(n)

    def end(name):
        stack.pop()

    def text(t):
        if len(stack) == 2:
            out[-1][2].append(t)
        elif t.strip():
            raise Bad("text %r outside of elements" % t)

    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    try:
        p.Parse(data, True)
    except xml.parsers.expat.ExpatError as e:
        raise Bad("not well-formed: %s" % e)
    if ra.get("version") != "1":
        raise Bad("version is %r" % ra.get("version"))
    try:
        uuid.UUID(ra["session_id"])
        serial = int(ra["serial"])
    except (KeyError, ValueError):
        raise Bad("bad session or serial")
    if serial < 0:
        raise Bad("negative serial")
    return ra["session_id"].lower(), serial, [(n, a, "".join(t)) for n, a, t in out]


class Notification:
    def __init__(self, data):
        self.session, self.serial, els = _parse(data, "notification")
        self.snapshot = None
        self.deltas = []          # (serial, uri, hash), ascending
        for n, a, t in els:
            if t.strip():
                raise Bad("text in %s" % n)
            try:
                h = bytes.fromhex(a["hash"])
                if len(h) != 32:
                    raise ValueError
                if n == "snapshot":
                    if self.snapshot:
                        raise Bad("two snapshots")
                    self.snapshot = (a["uri"], h.hex())
                elif n == "delta":
                    self.deltas.append((int(a["serial"]), a["uri"], h.hex()))
                else:
                    raise Bad("element %s" % n)
            except (KeyError, ValueError):
                raise Bad("bad attributes of %s: %r" % (n, a))
        if not self.snapshot:
            raise Bad("no snapshot")
        self.deltas.sort()
        self.data = data

    def files(self):
        """[(uri, hash)] of everything listed."""
        return [self.snapshot] + [(u, h) for _, u, h in self.deltas]


def read_snapshot(data):
    s, n, els = _parse(data, "snapshot")
    objs = {}
    for tag, a, t in els:
        if tag != "publish":
            raise Bad("%s in snapshot" % tag)
        objs[a["uri"]] = base64.b64decode("".join(t.split()))
    return s, n, objs


def read_delta(data):
    s, n, els = _parse(data, "delta")
    out = []
    for tag, a, t in els:
        if tag == "publish":
            out.append((a["uri"], a.get("hash"), base64.b64decode("".join(t.split()))))
        elif tag == "withdraw":
            out.append((a["uri"], a["hash"], None))
        else:
            raise Bad("%s in delta" % tag)
    return s, n, out


_HC = {}


def file_hash(path):
    """SHA-256 of a regular file, None when it is missing or something else."""
    try:
        st = os.lstat(path)
        if not stat.S_ISREG(st.st_mode):
            if stat.S_ISLNK(st.st_mode):
                st = os.stat(path)
            if not stat.S_ISREG(st.st_mode):
                return None
        k = (st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns, st.st_ctime_ns)
        h = _HC.get(path)
        # equal stamps are not trusted for files changed within the clock's granularity
        with open(path, "rb") as f:
            d = f.read() if h is None or h[0] != k or st.st_size < 65536 else None
        if d is None:
            return h[1]
        v = hashlib.sha256(d).hexdigest()
        _HC[path] = (k, v)
        return v
    except OSError:
        return None


def read_file(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


class RrdpView:
    """What HTTPS clients of the RRDP directory see right now."""

    def __init__(self, rrdp_dir, base, name):
        self.dir, self.base, self.name = rrdp_dir, base, name
        self.problems = []
        self.note = None
        self.listed = {}     # path -> hash
        p = os.path.join(rrdp_dir, name)
        if not os.path.lexists(p):
            return
        data = read_file(p)
        if data is None:
            self.problems.append("notification file %s cannot be read" % p)
            return
        try:
            self.note = Notification(data)
        except Bad as e:
            self.problems.append("notification file is not a valid notification: %s (%r)" % (e, data[:80]))
            return
        for uri, h in self.note.files():
            if not uri.startswith(base):
                self.problems.append("listed URI %s is not under %s" % (uri, base))
                continue
            fp = os.path.join(rrdp_dir, uri[len(base):])
            self.listed[fp] = h
            got = file_hash(fp)
            if got is None:
                self.problems.append("listed file %s does not exist" % fp)
            elif got != h:
                self.problems.append("listed file %s has hash %s, listed is %s" % (fp, got[:16], h[:16]))

    def key(self):
        return (self.note.session, self.note.serial) if self.note else None


def read_tree(d):
    """{relative path: bytes} of regular files; also ('!'+path) for anything odd."""
    out = {}
    for dp, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, d)
            st = os.lstat(p)
            if stat.S_ISREG(st.st_mode):
                out[rel] = read_file(p)
            else:
                out["!" + rel] = b""
        for x in dn:
            if os.path.islink(os.path.join(dp, x)):
                out["!" + os.path.relpath(os.path.join(dp, x), d)] = b""
    return out


def tree_digest(t):
    h = hashlib.sha256()
    for k in sorted(t):
        h.update(k.encode("utf-8", "surrogateescape") + b"\0" + hashlib.sha256(t[k]).digest())
    return h.hexdigest()


def fingerprint(d, content=True, mtime=True):
    """Full description of a directory tree: {rel: tuple}."""
    out = {}
    if not os.path.lexists(d):
        return out
    for dp, dn, fn in os.walk(d):
        for x in fn + dn:
            p = os.path.join(dp, x)
            st = os.lstat(p)
            rel = os.path.relpath(p, d)
            if stat.S_ISLNK(st.st_mode):
                v = ("l", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                v = ("d",)
            elif stat.S_ISREG(st.st_mode):
                v = ("f", file_hash(p) if content else st.st_size)
            else:
                v = ("?", st.st_mode)
            if mtime:
                v += (st.st_mtime_ns, oct(st.st_mode))
            out[rel] = v
    return out


def diff(a, b, n=6):
    """Human-readable differences of two fingerprints or trees."""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append("%s: %s -> %s" % (k, _s(a.get(k)), _s(b.get(k))))
    return out[:n] + (["... %d more" % (len(out) - n)] if len(out) > n else [])


def _s(v):
    if v is None:
        return "absent"
    if isinstance(v, bytes):
        return "%d bytes %s" % (len(v), hashlib.sha256(v).hexdigest()[:12])
    return str(v)[:90]


def rsync_expected(objects, include_host):
    """{relative path: bytes} that the rsync tree of these objects has to hold."""
    out = {}
    for u, b in objects.items():
        host, module, path = u[len("rsync://"):].split("/", 2)
        out["%s/%s/%s" % (host, module, path) if include_host else path] = b
    return out


def current_dir(rsync_dir):
    """(exists, real path or None) of 'current'."""
    p = os.path.join(rsync_dir, "current")
    if not os.path.lexists(p):
        return False, None
    rp = os.path.realpath(p)
    return True, rp if os.path.isdir(rp) else None


class RelyingParty:
    """An RRDP client that only uses deltas after its first snapshot."""

    def __init__(self, session, serial, objects):
        self.session, self.serial, self.objects = session, serial, dict(objects)

    def sync(self, view):
        """-> 'deltas', 'nopath', 'same' or an error text."""
        n = view.note
        if n is None or n.session != self.session:
            return "nopath"
        if n.serial == self.serial:
            return "same"
        have = {s: (u, h) for s, u, h in n.deltas}
        need = list(range(self.serial + 1, n.serial + 1)) if n.serial - self.serial < 10000 else None
        if not need or any(s not in have for s in need):
            return "nopath"
        objs = dict(self.objects)
        for s in need:
            uri, h = have[s]
            data = read_file(os.path.join(view.dir, uri[len(view.base):]))
            if data is None or hashlib.sha256(data).hexdigest() != h:
                return "delta %d is missing or has another hash" % s
            try:
                ds, dn, els = read_delta(data)
            except Bad as e:
                return "delta %d unreadable: %s" % (s, e)
            if ds != self.session or dn != s:
                return "delta %d says session %s serial %d" % (s, ds, dn)
            for u, hh, b in els:
                if hh is None:
                    if u in objs:
                        return "delta %d publishes existing %s without hash" % (s, u)
                elif u not in objs or hashlib.sha256(objs[u]).hexdigest() != hh.lower():
                    return "delta %d: %s does not match its hash" % (s, u)
                if b is None:
                    del objs[u]
                else:
                    objs[u] = b
        self.objects, self.serial = objs, n.serial
        return "deltas"


# ------------------------------------------------------------------- DER
def der(b, i=0):
    """One TLV -> (tag, start of content, end of content)."""
    if i + 2 > len(b):
        raise Bad("short DER")
    tag, l = b[i], b[i + 1]
    i += 2
    if l & 0x80:
        n = l & 0x7F
        if n == 0 or n > 4:
            raise Bad("indefinite or long length")
        l = int.from_bytes(b[i:i + n], "big")
        i += n
    if i + l > len(b):
        raise Bad("DER content exceeds data")
    return tag, i, i + l


def kids(b, s, e):
    out = []
    while s < e:
        t, cs, ce = der(b, s)
        out.append((t, cs, ce))
        s = ce
    return out


def der_time(b, k):
    import calendar
    t, s, e = k
    x = b[s:e].decode("ascii")
    if t == 0x17:
        y = int(x[:2])
        x = ("19" if y >= 50 else "20") + x
    elif t != 0x18:
        raise Bad("not a time")
    return calendar.timegm((int(x[0:4]), int(x[4:6]), int(x[6:8]), int(x[8:10]), int(x[10:12]), int(x[12:14])))


def cert_not_before(b):
    t, s, e = der(b)
    tbs = kids(b, s, e)[0]
    k = kids(b, tbs[1], tbs[2])
    k = [x for x in k if x[0] != 0xA0]      # version
    return der_time(b, kids(b, k[3][1], k[3][2])[0])


def crl_this_update(b):
    t, s, e = der(b)
    tbs = kids(b, s, e)[0]
    for x in kids(b, tbs[1], tbs[2]):
        if x[0] in (0x17, 0x18):
            return der_time(b, x)
    raise Bad("no thisUpdate")


OID_SIGNING_TIME = bytes.fromhex("2a864886f70d010905")


def cms_time(b):
    """Signing time, or notBefore of the embedded certificate."""
    t, s, e = der(b)
    k = kids(b, s, e)
    sd = kids(b, *der(b, k[1][1])[1:])
    cert = None
    for x in sd:
        if x[0] == 0xA0:
            cert = b[x[1]:x[2]]
    si = kids(b, sd[-1][1], sd[-1][2])[0]
    for x in kids(b, si[1], si[2]):
        if x[0] == 0xA0:
            for a in kids(b, x[1], x[2]):
                kk = kids(b, a[1], a[2])
                if b[kk[0][1]:kk[0][2]] == OID_SIGNING_TIME:
                    return der_time(b, kids(b, kk[1][1], kk[1][2])[0])
    return cert_not_before(cert)


def expected_mtime(path, data):
    if path.endswith(".cer"):
        return cert_not_before(data)
    if path.endswith(".crl"):
        return crl_this_update(data)
    return cms_time(data)
