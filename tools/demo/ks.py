"""Helper of a demonstration: a small RRDP source and krill-sync runs in a scratch directory."""
import base64, hashlib, os, re, shutil, subprocess, sys, tempfile, uuid

HERE = os.path.dirname(os.path.abspath(__file__))
KS = os.environ.get("KS", os.path.join(os.getcwd(), "target/debug/krill-sync"))
ROOT = os.path.realpath(tempfile.mkdtemp(prefix="demo-"))
NS = "http://www.ripe.net/rpki/rrdp"


def sha(b):
    return hashlib.sha256(b).hexdigest()


def rd(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return None


class Source:
    def __init__(self, host="rrdp.example.net", dir="rrdp", objects=None, layout="{s}/{n}/{k}.xml"):
        self.base = "https://%s/%s/" % (host, dir)
        self.uri = self.base + "notification.xml"
        self.layout = layout
        self.new_session(objects if objects is not None else {"a.bin": b"a" * 50, "sub/b.bin": b"b" * 70})

    def new_session(self, objects=None):
        self.session = str(uuid.uuid4())
        self.serial, self.objects, self.deltas, self.store = 1, dict(objects if objects is not None else {"n.bin": b"new"}), [], getattr(self, "store", {})
        self.snap()

    def key(self, name):
        return name if name.startswith("rsync://") else "rsync://repo.example.net/repo/" + name

    def path(self, kind):
        return self.layout.format(s=self.session, n=self.serial, k=kind)

    def snap(self):
        x = '<snapshot xmlns="%s" version="1" session_id="%s" serial="%d">\n' % (NS, self.session, self.serial)
        for n, b in sorted(self.objects.items()):
            x += '<publish uri="%s">%s</publish>\n' % (self.key(n), base64.b64encode(b).decode())
        b = (x + "</snapshot>\n").encode()
        self.snapshot = self.path("snapshot")
        self.store[self.snapshot] = b

    def publish(self, change=None, drop=()):
        """A new serial with a delta."""
        self.serial += 1
        change = {"o%d.bin" % self.serial: b"obj %d" % self.serial} if change is None else change
        x = '<delta xmlns="%s" version="1" session_id="%s" serial="%d">\n' % (NS, self.session, self.serial)
        for n, b in change.items():
            h = ' hash="%s"' % sha(self.objects[n]) if n in self.objects else ""
            x += '<publish uri="%s"%s>%s</publish>\n' % (self.key(n), h, base64.b64encode(b).decode())
            self.objects[n] = b
        for n in drop:
            x += '<withdraw uri="%s" hash="%s"/>\n' % (self.key(n), sha(self.objects.pop(n)))
        p = self.path("delta")
        self.store[p] = (x + "</delta>\n").encode()
        self.deltas.append((self.serial, p))
        self.snap()

    def note(self, serial=None, deltas=None):
        x = '<notification xmlns="%s" version="1" session_id="%s" serial="%d">\n' % (NS, self.session, serial or self.serial)
        x += '<snapshot uri="%s" hash="%s"/>\n' % (self.base + self.snapshot, sha(self.store[self.snapshot]))
        for n, p in reversed(self.deltas if deltas is None else deltas):
            x += '<delta serial="%d" uri="%s" hash="%s"/>\n' % (n, self.base + p, sha(self.store[p]))
        return (x + "</notification>\n").encode()

    def files(self):
        d = {"notification.xml": self.note(), self.snapshot: self.store[self.snapshot]}
        d.update((p, self.store[p]) for _, p in self.deltas)
        return d

    def emit(self, files=None):
        d = os.path.join(ROOT, "src")
        shutil.rmtree(d, ignore_errors=True)
        for p, b in (files or self.files()).items():
            f = os.path.join(d, p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as o:
                o.write(b)


STATE, RRDP, RSYNC, LOG = (os.path.join(ROOT, n) for n in ("state", "rrdp", "rsync", "log"))


def shim():
    so = os.path.join(ROOT, "inject.so")
    if not os.path.exists(so):
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, "inject.c"), "-ldl"], check=True)
    return so


def run(src, *opts, inj=None, now=None, source=None, emit=True, timeout=120, env=None):
    """One run; returns the completed process with .log (lists of call, path, path2)."""
    if emit:
        src.emit()
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "TZ": "UTC", "LANG": "C.UTF-8", "INJ_LOG": LOG, "LD_PRELOAD": shim()}
    if inj:
        e["INJ"] = inj
    if now is not None:
        e["INJ_NOW"] = str(now)
    e.update(env or {})
    if os.path.exists(LOG):
        os.remove(LOG)
    cmd = [KS, "--state-dir", STATE, "--rrdp-dir", RRDP, "--rsync-dir", RSYNC] + [str(o) for o in opts]
    if source != "none":
        cmd += ["--source-uri-base", source or os.path.join(ROOT, "src") + "/"]
    p = subprocess.run(cmd + ["--", src.uri], env=e, cwd=ROOT, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=timeout)
    p.log = [l.split("\t") for l in open(LOG).read().splitlines()] if os.path.exists(LOG) else []
    return p


def ok(p, what="run"):
    if p.returncode:
        bad("%s failed: rc=%s %s" % (what, p.returncode, p.stderr))
    return p


def published():
    """(session, serial, snapshot path, [(serial, delta path)]) as told by the published notification; checks presence and hashes."""
    b = rd(os.path.join(RRDP, "notification.xml"))
    if b is None:
        return None
    s = b.decode()
    if not s.rstrip().endswith("</notification>"):
        bad("the published notification is incomplete: %r" % s[-60:])
    one = lambda t, a: re.search(r'\b%s="([^"]*)"' % a, t).group(1)
    head = re.search(r"<notification[^>]*>", s).group(0)
    out = []
    for t in re.findall(r"<(?:snapshot|delta)\b[^>]*>", s):
        p = os.path.join(RRDP, one(t, "uri").split("/rrdp/", 1)[1])
        c = rd(p)
        if c is None:
            bad("listed file is missing: %s" % p)
        if sha(c) != one(t, "hash").lower():
            bad("listed file does not have its hash: %s" % p)
        out.append((t, p))
    snap = [p for t, p in out if t.startswith("<snapshot")][0]
    return one(head, "session_id"), int(one(head, "serial")), snap, sorted((int(one(t, "serial")), p) for t, p in out if t.startswith("<delta"))


def tree(d=None):
    d = d or os.path.join(RSYNC, "current")
    out = {}
    for r, _, fs in os.walk(os.path.realpath(d)):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, os.path.realpath(d))] = rd(p)
    return out


def bad(msg):
    print("BROKEN: " + msg)
    shutil.rmtree(ROOT, ignore_errors=True)
    sys.exit(1)


def done():
    shutil.rmtree(ROOT, ignore_errors=True)
    print("as it should be")
    sys.exit(0)
