"""RPKI objects and CA trees made from scratch (no code shared with krill-sync), with
any one thing about them wrong."""
import base64, calendar, functools, hashlib, json, os, time

KEYS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "keys.json")


# ---- DER -------------------------------------------------------------------------------
def tlv(tag, body):
    n = len(body)
    if n < 128:
        ln = bytes([n])
    else:
        b = n.to_bytes((n.bit_length() + 7) // 8, "big")
        ln = bytes([0x80 | len(b)]) + b
    return bytes([tag]) + ln + body


def seq(*x):
    return tlv(0x30, b"".join(x))


def set_(*x):
    return tlv(0x31, b"".join(sorted(x)))


def integer(n):
    return tlv(2, n.to_bytes(n.bit_length() // 8 + 1, "big", signed=n < 0))


def octets(b):
    return tlv(4, b)


def bits(b, unused=0):
    return tlv(3, bytes([unused]) + b)


def boolean(v):
    return tlv(1, b"\xff" if v else b"\0")


@functools.lru_cache(None)
def oid(s):
    p = [int(x) for x in s.split(".")]
    out = bytes([p[0] * 40 + p[1]])
    for n in p[2:]:
        c = [n & 127]
        n >>= 7
        while n:
            c.append(128 | n & 127)
            n >>= 7
        out += bytes(reversed(c))
    return tlv(6, out)


NULL = tlv(5, b"")
SHA256 = "2.16.840.1.101.3.4.2.1"
RSA = "1.2.840.113549.1.1.1"
SHA256RSA = "1.2.840.113549.1.1.11"
MFT, ROA, ASPA, GBR = ("1.2.840.113549.1.9.16.1.%d" % n for n in (26, 24, 49, 35))


def utc(t, general=None):
    g = time.gmtime(t)
    if general or general is None and g.tm_year >= 2050:
        return tlv(0x18, time.strftime("%Y%m%d%H%M%SZ", g).encode())
    return tlv(0x17, time.strftime("%y%m%d%H%M%SZ", g).encode())


def gtime(t):
    return utc(t, True)


# ---- keys ------------------------------------------------------------------------------
class Key:
    def __init__(self, n, e, d, p, q):
        self.n, self.e, self.d, self.p, self.q = n, e, d, p, q
        self.dp, self.dq, self.qi = d % (p - 1), d % (q - 1), pow(q, -1, p)
        self.bits = seq(integer(n), integer(e))
        self.spki = seq(seq(oid(RSA), NULL), bits(self.bits))
        self.ski = hashlib.sha1(self.bits).digest()
        self.size = (n.bit_length() + 7) // 8

    @functools.lru_cache(4096)
    def sign(self, data):
        t = seq(seq(oid(SHA256), NULL), octets(hashlib.sha256(data).digest()))
        m = int.from_bytes(b"\0\1" + b"\xff" * (self.size - len(t) - 3) + b"\0" + t, "big")
        a, b = pow(m % self.p, self.dp, self.p), pow(m % self.q, self.dq, self.q)
        return ((a - b) * self.qi % self.p * self.q + b).to_bytes(self.size, "big")


class RouterKey:
    def __init__(self, point):
        self.bits = bytes.fromhex(point)
        self.spki = seq(seq(oid("1.2.840.10045.2.1"), oid("1.2.840.10045.3.1.7")), bits(self.bits))
        self.ski = hashlib.sha1(self.bits).digest()


@functools.lru_cache(None)
def keys():
    with open(KEYS) as f:
        k = json.load(f)
    return [Key(*[int(x, 16) for x in r]) for r in k["rsa"]], [RouterKey(x) for x in k["ec"]]


# ---- resources ---------------------------------------------------------------------------
def prefix_bits(p, fam):
    """'10.0.0.0/8' -> (bytes, unused bits)"""
    import ipaddress
    n = ipaddress.ip_network(p)
    nb = (n.prefixlen + 7) // 8
    return n.network_address.packed[:nb], nb * 8 - n.prefixlen


def ip_ext(v4, v6):
    """Each: None, 'inherit' or a list of prefixes."""
    out = []
    for afi, x in ((b"\0\1", v4), (b"\0\2", v6)):
        if x is None:
            continue
        out.append(seq(octets(afi), NULL if x == "inherit" else seq(*[bits(*prefix_bits(p, afi)) for p in x])))
    return seq(*out) if out else None


def as_ext(asn):
    if asn is None:
        return None
    if asn == "inherit":
        return seq(tlv(0xa0, NULL))
    return seq(tlv(0xa0, seq(*[integer(a) if isinstance(a, int) else seq(integer(a[0]), integer(a[1])) for a in asn])))


# ---- certificates -------------------------------------------------------------------------
def name(s):
    return seq(tlv(0x31, seq(oid("2.5.4.3"), tlv(0x13, s.encode()))))


def ext(o, body, critical=False):
    return seq(oid(o), *([boolean(True)] if critical else []), octets(body))


def uri6(u):
    return tlv(0x86, u.encode())


HOOK = None       # function(what, DER) -> DER, applied before signing


def signed(key, tbs, sig=None):
    if HOOK:
        tbs = HOOK("tbs", tbs)
    s = key.sign(tbs) if sig is None else sig
    return seq(tbs, seq(oid(SHA256RSA), NULL), bits(s))


def cert(kind, issuer, subject, serial, nb, na, v4=None, v6=None, asn=None, crl=None, aia=None, ca_repo=None, mft=None, notify=None, so=None,
         signer=None, corrupt=False, issuer_name=None, aki=None, drop=(), extra=()):
    """kind: ta, ca, ee, router. issuer, subject: keys."""
    x = []
    if kind in ("ta", "ca"):
        x.append(ext("2.5.29.19", seq(boolean(True)), True))
    x.append(ext("2.5.29.14", octets(subject.ski)))
    if kind != "ta":
        x.append(ext("2.5.29.35", seq(tlv(0x80, aki or issuer.ski))))
    x.append(ext("2.5.29.15", bits(b"\x06", 1) if kind in ("ta", "ca") else bits(b"\x80", 7), True))
    if kind == "router":
        x.append(ext("2.5.29.37", seq(oid("1.3.6.1.5.5.7.3.30"))))
    if crl and "crl" not in drop:
        x.append(ext("2.5.29.31", seq(seq(tlv(0xa0, tlv(0xa0, uri6(crl)))))))
    if aia:
        x.append(ext("1.3.6.1.5.5.7.1.1", seq(seq(oid("1.3.6.1.5.5.7.48.2"), uri6(aia)))))
    sia = [seq(oid("1.3.6.1.5.5.7.48.%d" % n), uri6(u)) for n, u in ((5, ca_repo), (10, mft), (13, notify), (11, so)) if u]
    if sia:
        x.append(ext("1.3.6.1.5.5.7.1.11", seq(*sia)))
    x.append(ext("2.5.29.32", seq(seq(oid("1.3.6.1.5.5.7.14.2"))), True))
    ip, a = ip_ext(v4, v6), as_ext(asn)
    if ip:
        x.append(ext("1.3.6.1.5.5.7.1.7", ip, True))
    if a:
        x.append(ext("1.3.6.1.5.5.7.1.8", a, True))
    x += extra
    sn = subject.ski.hex()
    if kind == "router":
        sn = "ROUTER-0000%04X" % (serial & 0xffff)
    tbs = seq(tlv(0xa0, integer(2)), integer(serial), seq(oid(SHA256RSA), NULL), name(issuer_name or issuer.ski.hex()), seq(utc(nb), utc(na)),
              name(sn), subject.spki, tlv(0xa3, seq(*x)))
    c = signed(signer or issuer, tbs)
    return flip(c) if corrupt else c


def flip(b):
    """The last byte, part of the signature, changed."""
    return b[:-1] + bytes([b[-1] ^ 1])


def crl(issuer, number, this, nxt, revoked=(), signer=None, corrupt=False):
    rev = [seq(integer(s), utc(this)) for s in sorted(revoked)]
    tbs = seq(integer(1), seq(oid(SHA256RSA), NULL), name(issuer.ski.hex()), utc(this), utc(nxt), *([seq(*rev)] if rev else []),
              tlv(0xa0, seq(ext("2.5.29.35", seq(tlv(0x80, issuer.ski))), ext("2.5.29.20", integer(number)))))
    c = signed(signer or issuer, tbs)
    return flip(c) if corrupt else c


def cms(ctype, content, ee_key, ee_cert, when, digest_of=None, corrupt=False, signer=None, attrs=()):
    """attrs: more signed attributes. when: signing time or None."""
    if HOOK:
        content = HOOK("content", content)
    x = [seq(oid("1.2.840.113549.1.9.3"), set_(oid(ctype))),
         seq(oid("1.2.840.113549.1.9.4"), set_(octets(hashlib.sha256(content if digest_of is None else digest_of).digest())))]
    if when is not None:
        x.append(seq(oid("1.2.840.113549.1.9.5"), set_(utc(when))))
    x += attrs
    a = b"".join(sorted(x))
    if HOOK:
        a = HOOK("attrs", a)
    sig = (signer or ee_key).sign(tlv(0x31, a))
    if corrupt:
        sig = flip(sig)
    si = seq(integer(3), tlv(0x80, ee_key.ski), seq(oid(SHA256)), tlv(0xa0, a), seq(oid(RSA), NULL), octets(sig))
    if HOOK:
        si = HOOK("signer", si)
    sd = seq(integer(3), set_(seq(oid(SHA256))), seq(oid(ctype), tlv(0xa0, octets(content))), tlv(0xa0, ee_cert), set_(si))
    return seq(oid("1.2.840.113549.1.7.2"), tlv(0xa0, sd))


def mft_content(number, this, nxt, entries):
    return seq(integer(number), gtime(this), gtime(nxt), oid(SHA256), seq(*[seq(tlv(0x16, n.encode()), bits(h)) for n, h in entries]))


def roa_content(asn, prefixes):
    """prefixes: [(prefix, maxlen or None)]"""
    fam = []
    for afi, v in ((b"\0\1", 4), (b"\0\2", 6)):
        x = [(p, m) for p, m in prefixes if (":" in p) == (v == 6)]
        if x:
            fam.append(seq(octets(afi), seq(*[seq(bits(*prefix_bits(p, afi)), *([integer(m)] if m is not None else [])) for p, m in x])))
    return seq(integer(asn), seq(*fam))


def aspa_content(customer, providers):
    return seq(tlv(0xa0, integer(1)), integer(customer), seq(*[integer(p) for p in sorted(providers)]))


# ---- CA trees -----------------------------------------------------------------------------
DAY = 86400


class CA:
    """A certification authority and what it publishes."""

    def __init__(self, tree, handle, key, parent, repo, v4, v6, asn, depth):
        self.tree, self.handle, self.key, self.parent, self.repo = tree, handle, key, parent, repo
        self.v4, self.v6, self.asn, self.depth = v4, v6, asn, depth
        self.res = (v4, v6, asn)          # what its certificate says (may be "inherit")
        self.children, self.items = [], []
        self.serial = tree.rng.randrange(1, 1 << 30)
        self.base = "%s%s/" % (repo.rsync, handle)
        self.mft_name, self.crl_name = key.ski.hex()[:12] + ".mft", key.ski.hex()[:12] + ".crl"
        self.number = tree.rng.randrange(1, 10000)

    def next_serial(self):
        self.serial += 1
        return self.serial

    def cert_uri(self):
        return self.tree.ta_uri if self.parent is None else self.parent.base + self.handle + ".cer"


class Repo:
    def __init__(self, notify, rsync):
        self.notify, self.rsync = notify, rsync


class Tree:
    """A random tree below a trust anchor. build(defect) -> {repository notify URI: {object URI: bytes}}"""

    def __init__(self, rng, repos, now, shape=None, host="ta.example.net", items=None, name="ta", ta_repo=0):
        """repos: [Repo]; the first is the one under test. shape: list of (parent index, repo index) for the CAs below the TA."""
        self.rng, self.repos, self.now = rng, repos, now
        self.rsa, self.ec = keys()
        self.free = list(range(len(self.rsa)))
        rng.shuffle(self.free)
        self.ee = [self.rsa[self.free.pop()] for _ in range(3)]
        self.other = self.rsa[self.free.pop()]
        self.ta_uri = "rsync://%s/ta/%s.cer" % (host, name)
        self.ta_https = "https://%s/%s.cer" % (host, name)
        self.nb, self.na = now - 300 * DAY, now + 300 * DAY
        self.cas = []
        self.name = name
        shape = [(0, 0)] if shape is None else shape
        self.add(None, repos[ta_repo], "ta")
        for i, (p, r) in enumerate(shape):
            self.add(self.cas[p], repos[r], "ca%d" % (i + 1))
        for ca in self.cas:
            for k in (items if items is not None else [rng.choice(["roa", "roa", "aspa", "router", "gbr"]) for _ in range(rng.choice([0, 1, 2, 3]))]):
                self.item(ca, k)

    def add(self, parent, repo, handle):
        r = self.rng
        key = self.rsa[self.free.pop()]
        depth = 0 if parent is None else parent.depth + 1
        if parent is None:
            v4, v6, asn = ["10.0.0.0/8", "192.168.0.0/16"], ["2001:db8::/32"], [(64496, 65534)]
            res = (v4, v6, asn)
        else:
            # a part of the parent's; 10.250.0.0/16, 2001:db8:fa00::/40 and AS 65534 never go below the TA
            i = len(parent.children)
            v4 = ["10.%d.0.0/16" % (i + 1)] if parent.whole else [parent.v4[0]]
            v6 = None if parent.v6 is None else ["2001:db8:%x00::/40" % (i + 1)] if parent.whole else [parent.v6[0]]
            asn = [(64496, 65500)]
            if r.random() < 0.25 and v6 is not None:
                v6 = None
            res = (v4, v6, asn)
            x = r.random()
            if x < 0.15 and not parent.whole:
                v4, v6, asn = parent.v4, parent.v6, parent.asn
                res = ("inherit", "inherit" if v6 else None, "inherit")
            elif x < 0.25 and not parent.whole:
                v4 = parent.v4
                res = ("inherit", v6, asn)
        ca = CA(self, "%s-%s" % (handle, self.name) if self.name != "ta" else handle, key, parent, repo, v4, v6, asn, depth)
        ca.res, ca.whole = res, parent is None
        if parent is not None:
            parent.children.append(ca)
        self.cas.append(ca)
        return ca

    def item(self, ca, kind):
        r = self.rng
        n = len(ca.items)
        it = dict(kind=kind, serial=ca.next_serial(), key=r.choice(self.ee), n=n)
        net = ca.v4[0].rsplit("/", 1)
        a, b = net[0].split(".")[:2]
        if kind == "roa":
            it["prefixes"] = [("%s.%s.%d.0/24" % (a, b if int(net[1]) == 16 else "0", n), r.choice([None, 24, 28]))]
            if ca.v6 is not None and r.random() < 0.5:
                it["prefixes"].append((ca.v6[0].split("::")[0] + ("::/48" if not ca.whole else ":%x::/48" % n), r.choice([None, 48, 64])))
            it["asn"] = r.randrange(1, 70000)
        elif kind == "aspa":
            it["customer"] = 64496 + n
            it["providers"] = sorted(r.sample(range(65000, 65500), r.choice([1, 2, 5])))
        elif kind == "router":
            it["asns"] = [64496 + n]
            it["key"] = r.choice(self.ec)
        it["name"] = "%s%d.%s" % (kind, n, dict(roa="roa", aspa="asa", router="cer", gbr="gbr")[kind])
        it["nb"], it["na"] = self.nb + r.randrange(DAY), self.na - r.randrange(DAY)
        it["signed"] = self.now - r.randrange(1, 200 * DAY)
        ca.items.append(it)
        return it

    def tal(self):
        k = base64.b64encode(self.cas[0].key.spki).decode()
        return ("%s\n\n%s\n" % (self.ta_https, "\n".join(k[i:i + 64] for i in range(0, len(k), 64)))).encode()

    def ta_cert(self, **kw):
        ca = self.cas[0]
        a = dict(kind="ta", issuer=ca.key, subject=ca.key, serial=1, nb=self.nb, na=self.na, v4=ca.res[0], v6=ca.res[1], asn=ca.res[2], ca_repo=ca.base,
                 mft=ca.base + ca.mft_name, notify=ca.repo.notify)
        a.update(kw)
        return cert(**a)

    def child_cert(self, ca, **kw):
        p = ca.parent
        a = dict(kind="ca", issuer=p.key, subject=ca.key, serial=1000000 + self.cas.index(ca), nb=self.nb, na=self.na, v4=ca.res[0], v6=ca.res[1], asn=ca.res[2],
                 ca_repo=ca.base, mft=ca.base + ca.mft_name, notify=ca.repo.notify, crl=p.base + p.crl_name, aia=p.cert_uri())
        a.update(kw)
        return cert(**a)

    def obj(self, ca, it, ee=None, sig=None, content=None, **kw):
        """An item. ee, sig: overrides for its EE certificate and its signature."""
        k = it["kind"]
        common = dict(issuer=ca.key, subject=it["key"], serial=it["serial"], nb=it["nb"], na=it["na"], crl=ca.base + ca.crl_name, aia=ca.cert_uri())
        if k == "router":
            a = dict(common, kind="router", asn=it["asns"])
            a.update(ee or {})
            return cert(**a)
        a = dict(common, kind="ee", so=ca.base + it["name"])
        if k == "roa":
            c = roa_content(it["asn"], it["prefixes"])
            t = ROA
            v6 = [p for p, _ in it["prefixes"] if ":" in p]
            a.update(v4=[p for p, _ in it["prefixes"] if ":" not in p], v6=v6 or None)
        elif k == "aspa":
            c, t = aspa_content(it["customer"], it["providers"]), ASPA
            a.update(asn=[it["customer"]])
        else:
            c, t = b"BEGIN:VCARD\r\nVERSION:4.0\r\nFN:Someone\r\nEND:VCARD\r\n", GBR
            a.update(v4="inherit", v6="inherit", asn="inherit")
        a.update(ee or {})
        s = dict(when=it["signed"])
        s.update(sig or {})
        return cms(t, c if content is None else content, it["key"], cert(**a), **s)

    def publish_ca(self, ca, defect=None, out=None):
        """All objects of one CA. defect: function(stage, dict of what is used) that may change it."""
        d = defect or (lambda stage, ca, x: x)
        files = {}
        for it in ca.items:
            files[it["name"]] = d("item", ca, dict(it=it, data=self.obj(ca, it)))["data"]
        for c in ca.children:
            files[c.handle + ".cer"] = d("child", ca, dict(child=c, data=self.child_cert(c)))["data"]
        x = d("crl", ca, dict(a=dict(issuer=ca.key, number=ca.number, this=self.now - DAY, nxt=self.now + 7 * DAY, revoked=[5, 6]), data=None))
        crlb = x["data"] if x["data"] is not None else crl(**x["a"])
        files[ca.crl_name] = crlb
        entries = dict((n, hashlib.sha256(b).digest()) for n, b in files.items() if b is not None)
        entries = d("entries", ca, dict(e=entries, files=files))["e"]
        ent = list(entries.items())
        self.rng.shuffle(ent)
        m = d("mft", ca, dict(this=self.now - DAY, nxt=self.now + 7 * DAY, entries=ent, number=ca.number, serial=ca.serial + 1000, sig={}, data=None,
                              ee=dict(kind="ee", issuer=ca.key, subject=self.ee[0], nb=self.now - DAY, na=self.now + 7 * DAY, crl=ca.base + ca.crl_name, aia=ca.cert_uri(),
                                      so=ca.base + ca.mft_name, v4="inherit", v6="inherit", asn="inherit")))
        if m["data"] is None:
            s = dict(when=self.now - DAY)
            s.update(m["sig"])
            m["data"] = cms(MFT, mft_content(m["number"], m["this"], m["nxt"], m["entries"]), self.ee[0], cert(serial=m["serial"], **m["ee"]), **s)
        files[ca.mft_name] = m["data"]
        files = d("files", ca, dict(files=files))["files"]
        for n, b in files.items():
            if b is not None:
                out.setdefault(ca.repo.notify, {})[ca.base + n] = b
        ca.number += 1

    def build(self, defect=None):
        out = {r.notify: {} for r in self.repos}
        for ca in self.cas:
            self.publish_ca(ca, defect, out)
        return out

