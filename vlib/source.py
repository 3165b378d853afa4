"""A model RRDP publication server: the reference for what the source serves."""
import base64, copy, hashlib, os, random, re, shutil, uuid
from xml.sax.saxutils import quoteattr

from . import build

NS = "http://www.ripe.net/rpki/rrdp"
LAYOUTS = ("krill", "plain", "flat", "deep", "odd", "shared", "sibling")


def sha(b):
    return hashlib.sha256(b).hexdigest()


_POOL = None


def pool():
    """Real RPKI objects (from the repository's test resources), by extension."""
    global _POOL
    if _POOL is None:
        d = {}
        p = os.path.join(build.REPO, "test-resources/rrdp-rev2658/e9be21e7-c537-4564-b742-64700978c6b4/2658/rnd-sn/snapshot.xml")
        try:
            with open(p, "rb") as f:
                x = f.read()
        except OSError:
            x = b""
        for m in re.finditer(rb'<publish uri="([^"]+)">([^<]*)</publish>', x):
            u = m.group(1).decode()
            d.setdefault(u.rsplit(".", 1)[-1], []).append(base64.b64decode(m.group(2)))
        _POOL = {k: sorted(set(v))[:40] for k, v in d.items()}
        if not _POOL:
            _POOL = {"bin": [b"x"]}
    return _POOL


class Style:
    """How XML is written. All variants are valid RFC 8182 documents."""

    def __init__(self, rng=None):
        r = rng
        self.decl = r.random() < 0.5 if r else True
        self.indent = r.choice(["", "\n", "\n  ", "\r\n\t"]) if r else "\n  "
        self.upper = r.random() < 0.3 if r else False
        self.order = r.choice(["asc", "desc", "rand"]) if r else "desc"
        self.wrap = r.choice([0, 0, 64, 76]) if r else 0
        self.quote = r.choice(['"', "'"]) if r else '"'
        self.attr = r.random() < 0.3 if r else False   # other attribute order
        self.selfclose = r.random() < 0.7 if r else True
        self.seed = r.random() if r else 0


# Names that programs like to use for their own purposes; a source may use them as well.
SIBLINGS = ("%s", "%s.tmp", "%s.krill-sync-tmp", "%s.part", "%s.new", "%s.old", "%s.bak", "%s~", "%s.1", "%s.lock", "%s%%20tmp", ".%s", "tmp-%s", ".%s.tmp", "%s.tmp.tmp", "%s.swp", "%s." + "x" * 236)


class Source:
    def __init__(self, rng, base="https://rrdp.example.net/rrdp/", name="notification.xml",
                 rsync_base="rsync://repo.example.net/repo/", layout="krill", nobj=6, keep=50, style=None, junk=0.4):
        self.rng = rng
        self.base, self.name, self.rsync_base, self.layout = base, name, rsync_base, layout
        self.keep = keep
        self.style = style or Style()
        self.junk = junk
        self.counter = 0
        self.stems, self.names = 0, []
        self.uri = base + name
        self.new_session(nobj=nobj)

    # ------------------------------------------------------------ content
    def blob(self, ext):
        p = pool()
        if self.rng.random() >= self.junk and ext in p:
            return self.rng.choice(p[ext])
        self.counter += 1
        n = self.rng.choice([0, 1, 7, 30, 300, 3000]) if self.rng.random() < 0.5 else 40
        return (b"obj-%d-%016x-" % (self.counter, self.rng.getrandbits(64)) + self.rng.randbytes(n)) if n else b"e%d" % self.counter

    def new_uri(self):
        self.counter += 1
        r = self.rng
        ext = r.choice(["cer", "roa", "mft", "crl", "roa", "asa", "gbr", "txt"])
        name = "%s%d.%s" % (r.choice(["a", "Obj", "x_y", "%7B", "q-", "(1)", "~"]), self.counter, ext)
        d = r.choice(["", "", "ca/", "ca/0/", "Ca/", "d.e/f/g/h/"])
        return self.rsync_base + d + name

    def _first_serial(self):
        """Often small, often just below a number at which a narrower type ends."""
        r = self.rng
        if r.random() < 0.7:
            return r.choice([1, 1, 2, 7, 100, 2**31, 2**40])
        return r.choice([10, 100, 1000, 2**7, 2**8, 2**15, 2**16, 2**31, 2**31, 2**32, 2**32, 2**53, 2**63, 2**63]) - r.randrange(1, 5)

    def new_session(self, nobj=6, serial=None, objects=None):
        self.session = str(uuid.UUID(int=self.rng.getrandbits(128), version=4))
        self.serial = serial if serial is not None else self._first_serial()
        self.objects = dict(objects) if objects is not None else {}
        if objects is None:
            for _ in range(nobj):
                u = self.new_uri()
                self.objects[u] = self.blob(u.rsplit(".", 1)[-1])
        self.deltas = []      # oldest first: (serial, rel, bytes)
        self.history = {self.serial: dict(self.objects)}
        self._snap()

    def _rel(self, kind, content):
        s, n, r = self.session, self.serial, self.rng
        rnd = "%016x" % r.getrandbits(64)
        if self.layout == "sibling":
            if not self.names:
                self.stems += 1
                some = r.sample(SIBLINGS[1:], 5)
                self.names = [x % ("f%d" % self.stems) for x in some]
                self.names.insert(r.choice([0, 0, r.randrange(5)]), "f%d" % self.stems)
                # also next to the notification
                if self.stems == 1:
                    self.names += [x % self.name for x in some if x != "%s.tmp"]
            return self.names.pop()
        return {
            "krill": "%s/%d/%s/%s.xml" % (s, n, rnd, kind),
            "plain": "%s/%d/%s.xml" % (s, n, kind),
            "flat": "%s-%s-%d.xml" % (kind, s[:8], n),
            "deep": "a/%s/B/%d/c/D.d/%s/%s.xml" % (s, n, kind, rnd),
            "odd": "%s/%d;=_~$!*/%%41%s,(%s)+.%s" % (s, n, rnd, kind, r.choice(["xml", "tmp", "x"])),
            "shared": "files/%s.xml" % sha(content)[:24],
        }[self.layout]

    def _snap(self):
        self.snap_bytes = self.snapshot_xml()
        self.snap_rel = self._rel("snapshot", self.snap_bytes)

    def _attrs(self, *kv):
        q = self.style.quote
        out = []
        kv = list(kv)
        if self.style.attr:
            kv.reverse()
        for k, v in kv:
            a = quoteattr(str(v))
            if q == "'" and a[0] == '"' and "'" not in a:
                a = "'" + a[1:-1] + "'"
            out.append(" %s=%s" % (k, a))
        return "".join(out)

    def _b64(self, b):
        t = base64.b64encode(b).decode()
        w = self.style.wrap
        if w:
            t = "\n".join(t[i:i + w] for i in range(0, len(t), w))
            t = "\n" + t + "\n" if t else t
        return t

    def _doc(self, root, attrs, body):
        st = self.style
        head = '<?xml version="1.0" encoding="UTF-8"?>\n' if st.decl else ""
        kv = [("xmlns", NS), ("version", "1")] + attrs
        return (head + "<%s%s>" % (root, self._attrs(*kv)) + "".join(st.indent + b for b in body) + (st.indent and "\n") + "</%s>" % root + (st.indent and "\n")).encode()

    def snapshot_xml(self, session=None, serial=None, objects=None):
        body = ["<publish%s>%s</publish>" % (self._attrs(("uri", u)), self._b64(b)) for u, b in (objects if objects is not None else self.objects).items()]
        return self._doc("snapshot", [("session_id", session or self.session), ("serial", serial if serial is not None else self.serial)], body)

    def delta_xml(self, changes, before, session=None, serial=None):
        body = []
        for u, b in changes:
            h = sha(before[u]) if u in before else None
            if h and self.style.upper:
                h = h.upper()
            if b is None:
                body.append("<withdraw%s/>" % self._attrs(("uri", u), ("hash", h)))
            elif h:
                body.append("<publish%s>%s</publish>" % (self._attrs(("uri", u), ("hash", h)), self._b64(b)))
            else:
                body.append("<publish%s>%s</publish>" % (self._attrs(("uri", u)), self._b64(b)))
        return self._doc("delta", [("session_id", session or self.session), ("serial", serial if serial is not None else self.serial)], body)

    def publish_many(self, n):
        """Many small changes, all of them listed."""
        self.keep = max(self.keep, n + 100)
        for _ in range(n):
            self.publish(n=1)

    def publish(self, changes=None, n=None):
        """Next serial. changes: list of (uri, bytes or None)."""
        if changes is None:
            changes = self.random_changes(n)
        before = dict(self.objects)
        for u, b in changes:
            if b is None:
                del self.objects[u]
            else:
                self.objects[u] = b
        self.serial += 1
        x = self.delta_xml(changes, before)
        self.deltas.append((self.serial, self._rel("delta", x), x))
        self.deltas = self.deltas[-self.keep:] if self.keep else []
        self.history[self.serial] = dict(self.objects)
        self._snap()
        return changes

    def random_changes(self, n=None):
        r = self.rng
        n = n if n is not None else r.choice([1, 1, 2, 3])
        ch = {}
        for _ in range(n):
            k = r.random()
            have = [u for u in self.objects if u not in ch]
            if k < 0.45 or not have:
                u = self.new_uri()
                ch[u] = self.blob(u.rsplit(".", 1)[-1])
            elif k < 0.75:
                u = r.choice(have)
                ch[u] = self.blob(u.rsplit(".", 1)[-1])
                if ch[u] == self.objects[u]:
                    ch[u] = ch[u] + b"!"
            else:
                ch[r.choice(have)] = None
        return list(ch.items())

    def drop_deltas(self, keep):
        """The server lists fewer deltas from now on."""
        self.deltas = self.deltas[-keep:] if keep else []

    # ------------------------------------------------------------- serving
    def listed(self, limit=None):
        d = self.deltas
        return d if limit is None else d[-limit:] if limit else []

    def notification(self, deltas=None, snap=None, session=None, serial=None, order=None, extra=""):
        st = self.style
        ds = list(self.deltas if deltas is None else deltas)
        order = order or st.order
        if order == "desc":
            ds.reverse()
        elif order == "rand":
            random.Random(st.seed).shuffle(ds)
        rel, b = snap or (self.snap_rel, self.snap_bytes)

        def tag(name, *kv):
            return "<%s%s/>" % (name, self._attrs(*kv)) if st.selfclose else "<%s%s></%s>" % (name, self._attrs(*kv), name)

        def h(x):
            return sha(x).upper() if st.upper else sha(x)

        def full(rel):
            return rel if rel.startswith("https://") or rel.startswith("HTTPS://") else self.base + rel
        body = [tag("snapshot", ("uri", full(rel)), ("hash", h(b)))]
        body += [tag("delta", ("serial", s), ("uri", full(r)), ("hash", h(x))) for s, r, x in ds]
        return self._doc("notification", [("session_id", session or self.session), ("serial", serial if serial is not None else self.serial)], body + ([extra] if extra else []))

    def files(self, only_new=None):
        f = {self.name: self.notification(), self.snap_rel: self.snap_bytes}
        for _, rel, x in self.deltas:
            f[rel] = x
        return f

    def emit(self, d, files=None):
        """Writes the served files into directory d (replacing what was there)."""
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for rel, b in (files or self.files()).items():
            p = os.path.join(d, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
        return d

    def save(self):
        return copy.deepcopy((self.session, self.serial, self.objects, self.deltas, self.history, self.snap_bytes, self.snap_rel))

    def load(self, s):
        (self.session, self.serial, self.objects, self.deltas, self.history, self.snap_bytes, self.snap_rel) = copy.deepcopy(s)

    def key(self):
        return (self.session, self.serial)
