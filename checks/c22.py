"""C22: no input makes a run crash or hang."""
import base64, json, os, re, shutil, signal, socket, threading, time

from vlib import rpki, tls
from vlib.check import Inconclusive, Violation
from vlib.history import make_source
from vlib.rpkinet import Net
from vlib.source import Source, Style, sha
from vlib.world import Opts, T0, World

from . import c15

ID, LEVEL = "C22", "exploration"
TECHNIQUE = "runtime monitoring: a build with overflow checks and debug assertions is run on mutated and hostile XML, HTTP answers, state files, TALs, certificates, objects, CA graphs and option values, under CPU and memory limits; exit status, signals and panic messages observed"
NOTE = "In all explored runs the process ends by itself with status 0 or 1 and without a panic."
RULE = "One case is one run. Distinct: (family, place of the mutation, kinds of mutation, options, status, first line of the error without names and numbers)."
ASSUMPTIONS = ["inputs are bounded (files of at most a few MB)", "numbers of distinct paths through a CA graph are bounded"]
NOBODY = 65534


def tasks(tier, seed):
    q = tier == "quick"
    yield "silent", {}
    for i in range(120 if q else 4000):
        yield "xml", dict(i=i, n=12)
    for i in range(32 if q else 1500):
        yield "state", dict(i=i, n=14)
    for i in range(40 if q else 2500):
        yield "objects", dict(i=i, n=8)
    for i in range(20 if q else 600):
        yield "trees", dict(i=i)
    for i in range(20 if q else 600):
        yield "anchors", dict(i=i, n=10)
    for i in range(12 if q else 200):
        yield "serials", dict(i=i)
    for i in range(24 if q else 800):
        yield "http", dict(i=i, n=10)
    for i in range(20 if q else 600):
        yield "options", dict(i=i, n=14)
    for i in range(16 if q else 500):
        yield "names", dict(i=i, n=5)
    yield "unknown", {}


def bad(res):
    """What is wrong with the way a run ended, or None."""
    if res.rc is not None and res.rc < 0:
        try:
            return "is ended by signal %s" % signal.Signals(-res.rc).name
        except ValueError:
            return "is ended by signal %d" % -res.rc
    if "panicked at" in res.err or "panicked at" in res.out:
        return "panics"
    if "overflowed its stack" in res.err:
        return "overflows its stack"
    if res.rc not in (0, 1):
        return "ends with status %s" % res.rc
    return None


def norm(err):
    line = next((x for x in err.strip().splitlines() if x.strip()), "")
    return re.sub(r"[0-9a-f]{6,}|\d+|/\S*|https?://\S+|rsync://\S+", "_", line)[:70]


def go(ctx, w, o, family, key, sample=None, keep=None, **kw):
    res = w.run(o, **kw)
    b = bad(res)
    if b:
        raise Violation("%s: a run %s" % (family, b), err=res.err[:1500], log=w.log[-6:], input=str(sample)[:1500])
    ctx.case((family,) + tuple(key) + (res.rc, norm(res.err)), dict(family=family, input=str(sample)[:200], status=res.rc, err=res.err[:160]))
    ctx.count(family + "_" + ("ok" if res.rc == 0 else "error"))
    return res


# ---- bytes and XML ---------------------------------------------------------------------
NUMBERS = ["0", "-1", "1", "2", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551614", "18446744073709551616", "1e9", "", " 1", "+1", "007", "0x10", "\u0661", "9" * 400]
TEXTS = ["", " ", "\n", "%", "%00", "&amp;", "&lt;", "&#0;", "&#x10FFFF;", "&#55296;", "&nope;", "\u20ac", "\U0001f600", "a" * 70000, "../" * 50, "/", "//", "nil", "null", "\t", "\u202e"]
UUIDS = ["00000000-0000-0000-0000-000000000000", "{9e2b0a3c-6f9f-4b6e-8c3b-2f3c1f0e7d11}", "9E2B0A3C6F9F4B6E8C3B2F3C1F0E7D11", "urn:uuid:9e2b0a3c-6f9f-4b6e-8c3b-2f3c1f0e7d11", "9e2b0a3c-6f9f-4b6e-8c3b-2f3c1f0e7d1", "x"]
URIS = ["https://", "https:///", "https://h", "https://h/", "https://h:99999/x", "https://[::1", "https://[]/x", "http://h/x", "HTTPS://rrdp.example.net/x", "rsync://", "rsync://h", "rsync://h/", "rsync://h/m", "rsync://h/m/", "rsync://h/m//a",
        "rsync://h/m/../../x", "rsync://h/m/.", "rsync://h/m/a/", "rsync://h/m/%00", "rsync://h/m/" + "d/" * 3000 + "x", "rsync://h/m/" + "n" * 300, "rsync://" + "h" * 70000 + "/m/x", "rsync://h/m/a?b#c", "rsync://u@h/m/a", "file:///etc/passwd",
        "rsync://repo.example.net/repo/current", "rsync://repo.example.net/repo/a\u00e9", "rsync://repo.example.net/repo/" + "/".join("abc")]


def mut_bytes(r, b):
    k = r.choice(["flip", "cut", "dup", "ins", "trunc", "zero", "swap", "high"])
    if not b:
        return r.randbytes(5), k
    i, j = sorted((r.randrange(len(b)), r.randrange(len(b) + 1)))
    if k == "flip":
        x = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 10])):
            x[r.randrange(len(x))] ^= 1 << r.randrange(8)
        return bytes(x), k
    if k == "cut":
        j = min(j, i + r.choice([1, 10, 1000]))
        return b[:i] + b[j:], k
    if k == "dup":
        return b[:j] + b[i:j] * r.choice([1, 2, 50 if j - i < 5000 else 1]) + b[j:], k
    if k == "ins":
        return b[:i] + r.randbytes(r.choice([1, 3, 100])) + b[i:], k
    if k == "trunc":
        return b[:i], k
    if k == "zero":
        return b[:i] + b"\0" * min(j - i, 20) + b[min(j, i + 20):], k
    if k == "high":
        return b[:i] + r.choice([b"\xff\xfe", b"\xc0\x80", b"\xed\xa0\x80", b"\xef\xbb\xbf", b"\xf4\x90\x80\x80"]) + b[i:], k
    return b[j:] + b[i:j] + b[:i], k


def mut_xml(r, b):
    t = b.decode("utf-8", "surrogateescape")
    enc = lambda x: x.encode("utf-8", "surrogateescape")
    k = r.choice(["attr", "attr", "attr", "attr", "dropattr", "dupattr", "tag", "text", "text", "nest", "entity", "comment", "pi", "cdata", "ns", "empty", "junk", "root", "many", "reorder", "prefix"])
    attrs = list(re.finditer(r"""(?<![A-Za-z_:])([A-Za-z_:]+)\s*=\s*("[^"]*"|'[^']*')""", t))
    tags = list(re.finditer(r"</?([A-Za-z]+)", t))
    if k == "attr" and attrs:
        m = r.choice(attrs[:4] if r.random() < 0.5 else attrs)
        n = m.group(1)
        v = r.choice(dict(serial=NUMBERS, version=NUMBERS, session_id=UUIDS + TEXTS, uri=URIS + TEXTS, hash=["", "0" * 64, "g" * 64, "0" * 63, "0" * 65, "\u00e9" * 64]).get(n, TEXTS))
        if r.random() < 0.1:
            v = r.choice(NUMBERS + UUIDS + URIS + TEXTS)
        k = "attr " + n
        return enc(t[:m.start(2)] + '"' + v + '"' + t[m.end(2):]), k
    if k == "dropattr" and attrs:
        m = r.choice(attrs)
        return enc(t[:m.start()] + t[m.end():]), k
    if k == "dupattr" and attrs:
        m = min(r.sample(attrs, min(3, len(attrs))), key=lambda m: len(m.group(0)))
        return enc(t[:m.end()] + " " + m.group(0) * r.choice([1, 1, 1000]) + t[m.end():]), k
    if k == "tag" and tags:
        m = r.choice(tags)
        return enc(t[:m.start(1)] + r.choice(["x", "snapshot", "delta", "publish", "withdraw", "notification", "\u00e9", "a:b", "a" * 5000]) + t[m.end(1):]), k
    if k == "text":
        m = list(re.finditer(r">([^<]*)<", t))
        if m:
            m = r.choice(m)
            v = r.choice(["", "=", "====", "A", "AA", "AAA", "AAAA", "A A A A", "QQ==QQ==", "\u00e9", "&#65;", "<!-- -->", "A" * 200000, "\0", "]]>", "&" * 100, "QUJD" * 50000])
            return enc(t[:m.start(1)] + v + t[m.end(1):]), k
    if k == "nest":
        # the parser takes quadratic time for many ">" inside a DOCTYPE
        n = r.choice([50, 5000, 60000]) if "<!D" not in t else 50
        i = t.find(">", 60) + 1
        return enc(t[:i] + "<publish>" * n + ("</publish>" * n if r.random() < 0.5 else "") + t[i:]), k
    if k == "entity" and t.count(">") < 10000:
        e = "<!DOCTYPE x [<!ENTITY a0 'ha'>" + "".join("<!ENTITY a%d '%s'>" % (i, ("&a%d;" % (i - 1)) * 10) for i in range(1, 12)) + "]>"
        return enc(e + t.replace('"1"', '"&a11;"', 1) if r.random() < 0.5 else e + t.replace("</", "&a11;</", 1)), k
    i = r.randrange(len(t) + 1)
    if r.random() < 0.6:
        c = [m.end() for m in re.finditer(">", t)]
        i = r.choice(c) if c else i
    if k == "comment":
        return enc(t[:i] + r.choice(["<!-- x -->", "<!--", "<!-- -- -->", "<!-->", "-->"]) + t[i:]), k
    if k == "pi":
        return enc(t[:i] + r.choice(["<?x?>", "<?xml version='1.0'?>", "<?xml version='1.1' encoding='UTF-16'?>", "<?", "?>"]) + t[i:]), k
    if k == "cdata":
        return enc(t[:i] + r.choice(["<![CDATA[x]]>", "<![CDATA[", "]]>", "<![CDATA[<a>]]>"]) + t[i:]), k
    if k == "ns":
        return enc(t.replace("http://www.ripe.net/rpki/rrdp", r.choice(["", "x", "http://www.ripe.net/rpki/rrdp/", "&a;"]))), k
    if k == "empty":
        return r.choice([b"", b" ", b"<", b"<a", b"<a/>", b"\xef\xbb\xbf", b"\xff\xfe<\0", b"<?xml?>", b"<notification/>", b"\0" * 1000, b"<" * 100000]), k
    if k == "junk":
        return enc(t) + r.choice([b"x", b"<x/>", b"</x>", b"\0", enc(t)]), k
    if k == "root":
        return enc(t.replace("<notification", "<snapshot").replace("</notification", "</snapshot") if "<notification" in t else t.replace("<snapshot", "<delta").replace("</snapshot", "</delta")), k
    if k == "prefix":
        return enc(re.sub(r"<(/?)([a-z]+)", r"<\1r:\2", t).replace("xmlns=", "xmlns:r=")), k
    lines = re.findall(r"<(?:publish|withdraw|delta|snapshot) [^>]*?(?:/>|>[^<]*</[a-z]+>)", t)
    if lines:
        x = r.choice(lines)
        if k == "many":
            return enc(t.replace(x, x * r.choice([2, 3, max(3, min(3000, 500_000 // len(x)))]), 1)), k
        if k == "reorder":
            y = r.choice(lines)
            return enc(t.replace(x, "\x01").replace(y, x).replace("\x01", y)), k
    return mut_bytes(r, b)


def mutate(r, b, n=None):
    ks = []
    for _ in range(n or r.choice([1, 1, 1, 2, 4])):
        b, k = mut_xml(r, b) if r.random() < 0.75 else mut_bytes(r, b)
        ks.append(k)
        if len(b) > 1_000_000:
            break
    return b[:3_000_000], "+".join(sorted(set(ks)))


def random_opts(r, **kw):
    return Opts(**dict(dict(max_deltas=r.choice([None, None, 0, 1, 2, 10]), rsync=r.random() < 0.8, include_host=r.random() < 0.4, cleanup=r.choice([3600, 0, 1]), verbose=r.choice([0, 0, 3]),
                            delay=r.choice([0, 0, 0, 30])), **kw))


def xml(ctx, i, n):
    r = ctx.rng
    for k in range(n):
        src = make_source(ctx, nobj=r.choice([0, 1, 3]))
        w = World(ctx, src, "w%d" % k, uid=NOBODY)
        started = r.random() < 0.6
        if started:
            w.emit()
            w.must(Opts())
            for _ in range(r.choice([1, 2])):
                src.publish()
        elif r.random() < 0.7:
            src.publish()
        ser = r.choice(NUMBERS[3:10])
        if r.random() < 0.1 and ser.isdigit() and int(ser) < 2**64:
            # at the end of the range of serials
            src.new_session(nobj=1, serial=min(int(ser), 2**64 - 3))
            for _ in range(min(2, 2**64 - 1 - src.serial)):
                src.publish()
        target = r.choice(["notification", "notification", "snapshot", "delta"]) if src.deltas else r.choice(["notification", "snapshot"])
        files = src.files()
        if target == "notification":
            b, ks = mutate(r, files[src.name])
            files[src.name] = b
        elif target == "snapshot":
            b, ks = mutate(r, src.snap_bytes)
            src.snap_bytes = b
            files = src.files()
        else:
            j = r.randrange(len(src.deltas))
            s, rel, x = src.deltas[j]
            b, ks = mutate(r, x)
            src.deltas[j] = (s, rel, b)
            files = src.files()
        w.emit(files)
        o = random_opts(r)
        go(ctx, w, o, "xml", (target, ks, started), sample=b[:600])
        # and again; then a good state
        go(ctx, w, random_opts(r), "xml", (target, ks, "again"), sample=b[:600])
        shutil.rmtree(w.root)


# ---- state files -----------------------------------------------------------------------
VALUES = [None, True, False, 0, -1, 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, -2**63, 1.5, 1e300, "", "x", [], {}, [[]], "1970-01-01T00:00:00Z", "-9999-01-01T00:00:00Z", "+262142-12-31T23:59:59Z", "9999-12-31T23:59:60Z", "https://h/x", "rsync://h/m/x",
          "../../x", "/", "a" * 5000, "\u0000", "=" * 4, {"a": {"b": {}}}]


def nodes(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from nodes(x[k], path + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield from nodes(x[k], path + (k,))


def mut_json(r, b):
    k = r.choice(["value", "value", "value", "value", "near", "near", "drop", "dup", "key", "swap", "deep", "bytes", "many"])
    try:
        x = json.loads(b)
    except (ValueError, RecursionError):
        k = "bytes"
    if k == "bytes":
        return mut_bytes(r, b)[0], k
    if k == "deep":
        d = r.choice([100, 1000, 100000])
        return r.choice([b"[" * d, b'{"a":' * d, b"[" * d + b"]" * d, b.rstrip()[:-1] + b', "zz": ' + b"[" * d + b"]" * d + b"}"]), k
    try:
        ps = list(nodes(x))
    except RecursionError:
        return mut_bytes(r, b)[0], "bytes"
    p = r.choice(ps)
    if not p:
        return json.dumps(r.choice(VALUES)).encode(), k
    o = x
    for q in p[:-1]:
        o = o[q]
    v = o[p[-1]]
    if k == "value":
        o[p[-1]] = r.choice(VALUES)
    elif k == "near":
        if isinstance(v, bool) or v is None:
            o[p[-1]] = not v
        elif isinstance(v, int):
            o[p[-1]] = r.choice([v + 1, v - 1, -v, v * 1000, v * 10**9, 2**63 - 1, -2**63, 2**64 - 1, 0])
        elif isinstance(v, str):
            o[p[-1]] = mut_bytes(r, v.encode())[0].decode("latin-1") if r.random() < 0.6 else r.choice(URIS + UUIDS + NUMBERS)
        else:
            o[p[-1]] = r.choice(VALUES)
    elif k == "drop":
        del o[p[-1]]
    elif k == "dup" and isinstance(o, list):
        o.extend([v] * r.choice([1, 3]))
    elif k == "key" and isinstance(o, dict):
        o[r.choice(["x", "", str(r.randrange(9)), "https://h/x", p[-1] + "x" if isinstance(p[-1], str) else "y"])] = o.pop(p[-1])
    elif k == "many" and isinstance(o, list):
        o.extend([v] * 3000)
    else:
        q = r.choice(ps)
        y = x
        for z in q:
            y = y[z]
        o[p[-1]] = json.loads(json.dumps(y))
    return json.dumps(x).encode(), k


def state(ctx, i, n):
    r = ctx.rng
    tals = ()
    if i % 3 == 0:
        net = Net(ctx, 1, 1, [(0, 0)], items=["roa"], uid=NOBODY)
        net.set(net.build())
        w, src = net.w, net.src
        tals, source = tuple(net.tals), "none"
        pub = lambda: (src.publish([(net.repos[0].rsync + "x%d.gbr" % r.getrandbits(40), r.randbytes(5))]), net.serve())
    else:
        src = make_source(ctx, nobj=3)
        w = World(ctx, src, uid=NOBODY)
        source = None
        pub = lambda: (src.publish(), w.emit())
        w.emit()
    mk = lambda **kw: random_opts(r, tals=tals, source=source, **kw)
    for k in range(r.choice([1, 3, 5])):
        w.must(Opts(tals=tals, source=source, rsync=True))
        w.advance(10)
        pub()
    names = ["rrdp-state.json", "rsync-state.json"]
    good = {x: open(os.path.join(w.state, x), "rb").read() for x in names}
    sv, ssv = w.save(), src.save()
    for k in range(n):
        w.restore(sv)
        os.system("chown -R %d '%s'" % (NOBODY, w.root))
        src.load(ssv)
        if tals:
            net.serve()
        name = r.choice(names)
        b = good[name]
        ks = set()
        for _ in range(r.choice([1, 1, 2, 3])):
            b, kk = mut_json(r, b)
            ks.add(kk)
        with open(os.path.join(w.state, name), "wb") as f:
            f.write(b)
        w.advance(r.choice([0, 10, 5000]))
        if r.random() < 0.3:
            pub()
        go(ctx, w, mk(), "state", (name, tuple(sorted(ks))), sample=b[:900])
        pub()
        w.advance(r.choice([0, 5000]))
        go(ctx, w, mk(), "state", (name, tuple(sorted(ks)), "again"), sample=b[:900])


# ---- DER ---------------------------------------------------------------------------------
def tlvs(b, s=0, e=None, depth=0):
    """(start of tag, start of content, end of content, tag) of all values, nested ones too."""
    e = len(b) if e is None else e
    i = s
    while i + 2 <= e:
        tag, l, j = b[i], b[i + 1], i + 2
        if l & 0x80:
            k = l & 0x7F
            if k == 0 or k > 4 or j + k > e:
                return
            l = int.from_bytes(b[j:j + k], "big")
            j += k
        if j + l > e:
            return
        yield (i, j, j + l, tag)
        if depth > 40:
            pass
        elif tag & 0x20:
            yield from tlvs(b, j, j + l, depth + 1)
        elif tag == 4 and l > 2 and b[j] in (0x30, 0x02, 0x03):
            yield from tlvs(b, j, j + l, depth + 1)
        i = j + l


def replace(b, path, new):
    """b with the TLV at the end of path (outermost first) replaced by the bytes new; lengths are adapted."""
    i, j, e, tag = path[-1]
    inner = new
    for p in range(len(path) - 2, -1, -1):
        pi, pj, pe, ptag = path[p]
        ci, cj, ce, _ = path[p + 1]
        inner = rpki.tlv(ptag, b[pj:ci] + inner + b[ce:pe])
    return b[:path[0][0]] + inner + b[path[0][2]:]


TIMES = [b"500101000000Z", b"491231235959Z", b"000000000000Z", b"991231235960Z", b"9912312359Z", b"991231235959+0100", b"", b"xxxxxxxxxxxxZ", b"000229000000Z", b"010229000000Z", b"99999999999Z"]
GTIMES = [b"00000101000000Z", b"99991231235959Z", b"99999999999999Z", b"19500101000000Z", b"20491231235959Z", b"20230229000000Z", b"20240101000000.5Z", b"", b"00010101000000Z", b"18000101000000Z", b"29400101000000Z"]


def mut_der(r, b):
    vs = list(tlvs(b))
    if not vs:
        return mut_bytes(r, b)
    t = r.choice(vs)
    path = [v for v in vs if v[0] <= t[0] and t[2] <= v[2] and v[1] <= t[0] or v == t]
    i, j, e, tag = t
    body = b[j:e]
    k = r.choice(["tag", "content", "empty", "dup", "drop", "len", "deep", "special", "special", "special", "long", "random", "indef", "bytes"])
    if k == "special":
        if tag == 0x17:
            return replace(b, path, rpki.tlv(r.choice([0x17, 0x18]), r.choice(TIMES + GTIMES))), "time"
        if tag == 0x18:
            return replace(b, path, rpki.tlv(r.choice([0x17, 0x18]), r.choice(TIMES + GTIMES))), "gtime"
        if tag == 2:
            return replace(b, path, rpki.tlv(2, r.choice([b"", b"\0", b"\xff", b"\x80" + b"\0" * 30, b"\x7f" * 30, b"\0\0\1", b"\x00\xff\xff\xff\xff", b"\1\0\0\0\0", b"\xff" * 5000]))), "integer"
        if tag == 3:
            return replace(b, path, rpki.tlv(3, r.choice([b"", b"\0", b"\x08", b"\x07\x01", b"\x09\x00", bytes([r.randrange(256)]) + r.randbytes(r.choice([1, 4, 5, 16, 17, 40])), bytes([r.randrange(8)]) + body[1:]]))), "bits"
        if tag == 6:
            return replace(b, path, rpki.tlv(6, r.choice([b"", b"\x80", b"\xff" * 20, b"\x2a", body[:-1] + b"\x01", body + b"\x80", r.randbytes(9)]))), "oid"
        if tag in (0x86, 0x16, 0x13, 0x0c):
            return replace(b, path, rpki.tlv(r.choice([tag, tag, 0x16]), r.choice([u.encode() for u in URIS + TEXTS] + [b"\xff\xfe", b"a/b", b".", b"..", b"a\0b", b"x.cer", b"x.roa"]))), "string"
        if tag == 1:
            return replace(b, path, rpki.tlv(1, r.choice([b"", b"\0", b"\1", b"\xff\xff"]))), "boolean"
        if tag == 4:
            return replace(b, path, rpki.tlv(4, r.choice([b"", b"\0\1", b"\0\2", b"\0\3", b"\0\1\1", body * 2, r.randbytes(len(body))]))), "octets"
        k = "children"
        ch = [(v[0], v[2]) for v in vs if v[0] >= j and v[2] <= e and not any(u[1] <= v[0] and v[2] <= u[2] and u[0] > i for u in vs if u != v)]
        parts = [b[x:y] for x, y in ch]
        r.shuffle(parts)
        return replace(b, path, rpki.tlv(tag, b"".join(parts[:r.randrange(len(parts) + 1)]) if r.random() < 0.5 else b"".join(parts))), k
    if k == "tag":
        return replace(b, path, rpki.tlv(r.choice([0x30, 0x31, 2, 3, 4, 5, 6, 0x17, 0x18, 0xa0, 0xa1, 0x80, 0x1f, 0xff, tag ^ 0x20]), body)), k
    if k == "content":
        return replace(b, path, rpki.tlv(tag, mut_bytes(r, body)[0][:100000])), k
    if k == "random":
        return replace(b, path, rpki.tlv(tag, r.randbytes(r.choice([1, 4, 20, 300])))), k
    if k == "empty":
        return replace(b, path, rpki.tlv(tag, b"")), k
    if k == "dup":
        return replace(b, path, b[i:e] * r.choice([2, 3, 2000 if e - i < 500 else 2])), k
    if k == "drop":
        return replace(b, path, b""), k
    if k == "len":
        return replace(b, path, bytes([tag]) + r.choice([b"\x84\xff\xff\xff\xff", b"\x84\x7f\xff\xff\xff", b"\x80", b"\xff", b"\x88" + b"\xff" * 8, b"\x81" + bytes([len(body) & 0x7f]), b"\x85\0\0\0\0\1"]) + body), k
    if k == "deep":
        d = r.choice([100, 3000, 30000])
        x = body
        if r.random() < 0.5:
            return replace(b, path, b"\x30\x80" * d + b"\0\0" * d), "deep indefinite"
        # nested definite lengths, built from the inside
        x = [b"\5\0"]
        n = 2
        for _ in range(min(d, 3000)):
            h = rpki.tlv(r.choice([0x30, 0x24, 0xa0]), b"\0" * n)[:-n]
            x.append(h)
            n += len(h)
        return replace(b, path, b"".join(reversed(x))), k
    if k == "long":
        return replace(b, path, rpki.tlv(tag, body + r.randbytes(200000))), k
    if k == "indef":
        return replace(b, path, bytes([tag | 0x20, 0x80]) + (b[i:e] if not tag & 0x20 else body) + b"\0\0"), k
    return mut_bytes(r, b)


def objects(ctx, i, n):
    """Objects below a TA, mutated before or after they are signed, with manifests that list them."""
    r = ctx.rng
    net = Net(ctx, r.choice([1, 1, 2]), 1, r.choice([[(0, 0)], [(0, 0), (1, 0)]]), items=["roa", "aspa", "router", "gbr"], uid=NOBODY)
    t, w = net.trees[0], net.w
    good = net.build()
    net.set(good)
    for k in range(n):
        ca = r.choice(t.cas)
        stage = r.choice(["item", "item", "item", "child", "crl", "mft", "mft"])
        if stage == "child" and not ca.children:
            ca = t.cas[0]
        ks = []

        def m(b, times=None):
            for _ in range(times or r.choice([1, 1, 1, 2, 3])):
                b, x = mut_der(r, b)
                ks.append(x)
            return b
        inside = r.random() < 0.7
        one = r.randrange(10)

        def remake(f):
            """f with one signed part mutated before it is signed"""
            if not inside:
                return m(f())
            cnt = [0]
            want = r.choice([("tbs",), ("content",), ("attrs",), ("signer",), ("tbs", "content")])

            def h(what, b):
                if what in want:
                    b = m(b, 1)
                return b
            rpki.HOOK = h
            try:
                return f()
            finally:
                rpki.HOOK = None

        def d(st, c, x):
            if st != stage or c is not ca:
                return x
            if st == "item" and x["it"]["n"] == one % max(1, len(ca.items)):
                x["data"] = remake(lambda: t.obj(ca, x["it"]))
            elif st == "child":
                x["data"] = remake(lambda: t.child_cert(x["child"]))
            elif st == "crl":
                x["data"] = remake(lambda: rpki.crl(**x["a"]))
            elif st == "mft":
                x["data"] = remake(lambda: rpki.cms(rpki.MFT, rpki.mft_content(x["number"], x["this"], x["nxt"], x["entries"]), t.ee[0], rpki.cert(serial=x["serial"], **x["ee"]), t.now - rpki.DAY))
            return x
        out = net.build(d)
        net.set(out)
        w.advance(r.choice([1, 4000]))
        o = net.opts(reject=r.random() < 0.4, rsync=r.random() < 0.8, verbose=r.choice([0, 0, 3]))
        go(ctx, w, o, "objects", (stage, inside, tuple(sorted(set(ks)))), sample=(stage, ks))


def trees(ctx, i):
    """Strange CA graphs."""
    r = ctx.rng
    kind = ("self", "ancestor", "cycle", "deep", "wide", "same key", "big manifest", "many repos")[i % 8]
    nrepos = 6 if kind == "many repos" else r.choice([1, 2])
    shape = {"deep": [(k, 0) for k in range(40)], "wide": [(0, 0)] * 30, "many repos": [(k, (k + 1) % 6) for k in range(6)]}.get(kind, [(0, 0), (1, 0), (2, 0)])
    if nrepos > 1 and kind not in ("many repos", "deep"):
        shape = [(p, r.randrange(nrepos)) for p, _ in shape]
    net = Net(ctx, nrepos, 1, shape, items=["roa"] if kind != "deep" else [], uid=NOBODY)
    t, w = net.trees[0], net.w
    cas = t.cas

    def d(st, c, x):
        if st != "entries":
            return x

        def more(name, ca2, **kw):
            b = rpki.cert(**dict(dict(kind="ca", issuer=c.key, subject=ca2.key, serial=7_000_000 + cas.index(ca2), nb=t.nb, na=t.na, v4="inherit", v6="inherit", asn="inherit", ca_repo=ca2.base, mft=ca2.base + ca2.mft_name,
                                      notify=ca2.repo.notify, crl=c.base + c.crl_name, aia=c.cert_uri()), **kw))
            x["files"][name] = b
            import hashlib
            x["e"][name] = hashlib.sha256(b).digest()
        if kind == "self":
            more("self.cer", c)
        elif kind == "ancestor":
            for j, a in enumerate(cas[:cas.index(c) + 1]):
                more("up%d.cer" % j, a)
        elif kind == "cycle":
            for j, a in enumerate(cas):
                if a is not c:
                    more("x%d.cer" % j, a)
        elif kind == "same key":
            # a child with the key of the issuer, but other places
            more("same.cer", c, ca_repo=cas[-1].base, mft=cas[-1].base + cas[-1].mft_name)
            more("tasame.cer", cas[0], ca_repo=c.base, mft=c.base + c.mft_name)
        elif kind == "big manifest":
            for j in range(3000):
                x["e"]["none-%d.roa" % j] = b"\0" * 32
        return x
    net.set(net.build(d))
    for rej, off in ((False, False), (True, False), (False, True)):
        net.src.publish([(net.repos[0].rsync + "n%d.gbr" % r.getrandbits(40), b"x")])
        net.serve()
        w.advance(5000)
        go(ctx, w, net.opts(reject=rej, offline=off, verbose=r.choice([0, 3])), "trees", (kind, nrepos, rej, off), sample=kind)


def anchors(ctx, i, n):
    r = ctx.rng
    net = Net(ctx, 1, 1, [(0, 0)], items=["roa"], uid=NOBODY)
    t, w = net.trees[0], net.w
    net.set(net.build())
    tal = t.tal()
    for k in range(n):
        net.src.publish([(net.repos[0].rsync + "n%d.gbr" % k, b"x")])
        net.serve()
        b, ks = tal, "good"
        what = r.choice(["tal", "tal", "cert", "cert", "key"])
        if what == "tal":
            x = r.random()
            if x < 0.4:
                b, ks = mut_bytes(r, tal)
            elif x < 0.8:
                lines = tal.split(b"\n")
                j = r.randrange(len(lines))
                lines[j] = r.choice([b"", b"#", b"# comment", b"https://", b"rsync://ta.example.net/x", b"https://ta.example.net/none.cer", b"https://ta.example.net", b"\xff\xfe", b"A" * 100000, b"\r", b"====", b"http://x/"] + [u.encode() for u in URIS])
                b, ks = b"\n".join(lines), "line%d" % min(j, 3)
            else:
                b, ks = r.choice([b"", b"\n", b"\0", tal.replace(b"\n", b"\r\n"), tal * 2, tal.strip(), b"https://ta.example.net/ta.cer\n" * 1000 + tal, b"#\n" * 1000 + tal, tal.replace(b"\n\n", b"\n")]), "form"
        elif what == "key":
            key, ks = mut_der(r, t.cas[0].key.spki)
            b = b"https://ta.example.net/ta.cer\n\n" + base64.b64encode(key) + b"\n"
        if what == "cert":
            if r.random() < 0.5:
                rpki.HOOK = lambda wh, x: mut_der(r, x)[0]
                try:
                    net.tas["/ta.cer"] = t.ta_cert()
                finally:
                    rpki.HOOK = None
                ks = "tbs"
            else:
                net.tas["/ta.cer"], ks = mut_der(r, t.ta_cert())
        else:
            net.tas["/ta.cer"] = t.ta_cert()
        with open(net.tals[0], "wb") as f:
            f.write(b)
        w.advance(5)
        go(ctx, w, net.opts(reject=r.random() < 0.4, offline=r.random() < 0.2), "anchors", (what, ks), sample=b[:400])


# ---- HTTP ---------------------------------------------------------------------------------
def http(ctx, i, n):
    r = ctx.rng
    src = make_source(ctx, nobj=2, layout="krill")
    w = World(ctx, src, uid=NOBODY)
    st = dict(which=None, reply=None)

    def lookup(host, path, hd):
        rel = path[len("/" + src.base[8:].split("/", 1)[1]):]
        f = src.files().get(rel)
        kind = "notification" if rel == src.name else "snapshot" if rel == src.snap_rel else "delta"
        if st["which"] in (kind, "all"):
            return st["reply"](f or b"")
        return f
    w.serve_tls(lookup=lookup)
    R = tls.Reply
    for k in range(n):
        src.publish()
        base = src.base
        cases = {
            "status": lambda f, s=r.choice([100, 101, 199, 201, 202, 203, 204, 205, 206, 226, 299, 300, 304, 305, 399, 400, 401, 403, 404, 407, 410, 418, 429, 451, 499, 500, 501, 502, 503, 504, 511, 599, 600, 999, 0, 99]): R(f, s),
            "redirect loop": lambda f: R(b"", 302, [("Location", base + src.name)]),
            "redirect bad": lambda f, u=r.choice(["", "x", "//", "http://", "https://", "\xff", "https://[::1", "ftp://h/", "javascript:1", "https://" + "h" * 70000 + "/", "https://rrdp.example.net:0/x", "https://rrdp.example.net:99999/"]): R(b"", 301, [("Location", u)]),
            "etag": lambda f, e=r.choice(['"x"', "x", "", "W/", '"' + "e" * 60000 + '"', "\xe9\xff", '"a", "b"', "\t"]): R(f, 200, [("ETag", e)]),
            "modified": lambda f, e=r.choice(["Thu, 01 Jan 1970 00:00:00 GMT", "x", "", "Fri, 31 Dec 9999 23:59:59 GMT", "\xff"]): R(f, 200, [("Last-Modified", e)]),
            "encoding": lambda f, e=r.choice(["gzip", "br", "deflate", "identity", "x"]): R(f, 200, [("Content-Encoding", e)]),
            "type": lambda f, e=r.choice(["text/html; charset=utf-16", "x/y; charset=x", "", ";;"]): R(f, 200, [("Content-Type", e)]),
            "short": lambda f: R(f, 200, short=r.choice([0, 1, len(f) // 2])),
            "reset": lambda f: R(b"", reset=True),
            "chunked": lambda f: R(f, chunked=True),
            "chunked short": lambda f: R(f, chunked=True, short=1),
            "headers": lambda f: R(f, 200, [("X-%d" % j, "y" * 50) for j in range(r.choice([5, 90, 150, 1000]))]),
            "big": lambda f: R(f + b" " * 2_000_000),
            "lengths": lambda f: R(f, 200, [("Content-Length", r.choice(["0", "-1", "x", "99999999999999999999", str(len(f) + 1)]))]),
            "html": lambda f: R(b"<html><body>hello</body></html>"),
            "empty": lambda f: R(b""),
        }
        name = r.choice(sorted(cases))
        st["which"], st["reply"] = r.choice(["notification", "notification", "snapshot", "delta", "all"]), cases[name]
        go(ctx, w, Opts(source="none", verbose=r.choice([0, 0, 6])), "http", (name, st["which"]), sample=(name, st["which"]))
        st["which"] = None
        if r.random() < 0.5:
            go(ctx, w, Opts(source="none"), "http", ("afterwards", name))


# ---- serials of other repositories ---------------------------------------------------------
def serials(ctx, i):
    """Cached data of another repository meets serials at the ends of their range, forwards and backwards."""
    r = ctx.rng
    ends = (0, 1, 2**31 - 1, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1, 2**64)
    net = Net(ctx, 2, 1, [(0, 1), (1, 0)], layout=None, ta_repo=1, items=["roa"], uid=NOBODY)
    s = net.sources[1]
    net.set(net.build())
    s.serial = ends[-1 - i % len(ends)] if i % 2 else 2**64 - r.choice([2, 3, 4])
    s.new_session(objects=dict(s.objects), serial=s.serial)
    net.serve()
    for k in range(7):
        x = r.choice(["pub", "pub", "pub", "pub", "drop", "jump", "none"])
        was = s.save()
        if x in ("pub", "drop"):
            s.publish()
            if x == "drop":
                s.drop_deltas(r.choice([0, 1]))
        elif x == "jump":
            s.serial = r.choice(ends)
        net.serve(1)
        src = dict(net.src.objects)
        src["%sx%d.gbr" % (net.repos[0].rsync, k)] = r.randbytes(10)
        net.set({net.repos[0].notify: src}, only=[0])
        go(ctx, net.w, net.opts(verbose=r.choice([0, 3])), "serials", (x, was[1], s.serial), sample=(x, was[1], s.serial))
        net.w.advance(r.choice([3700, 3700, 10]))
        del net.server.log[:]


# ---- silence ------------------------------------------------------------------------------
def silent(ctx):
    """Servers that accept a connection and then say nothing, stop, or take for ever. The limit is far above
    the minute that a request may take."""
    from vlib.run import execute
    LIMIT = 200
    r = ctx.rng
    jobs = []
    quiet = socket.socket()
    quiet.bind(("127.0.0.1", 0))
    quiet.listen(64)
    ctx.closers.append(quiet.close)

    def source(which, reply):
        src = make_source(ctx, nobj=2, layout="krill")
        w = World(ctx, src, name="w%d" % len(jobs), uid=NOBODY)
        st = dict(on=False)

        def lookup(host, path, hd):
            rel = path[len("/" + src.base[8:].split("/", 1)[1]):]
            f = src.files().get(rel)
            kind = "notification" if rel == src.name else "snapshot" if rel == src.snap_rel else "delta"
            return reply(f or b"") if st["on"] and kind == which else f
        w.serve_tls(lookup=lookup)
        w.must(Opts(source="none"))
        src.publish()
        st["on"] = True
        return w, Opts(source="none"), st

    R = tls.Reply
    w, o, st = source(None, None)
    jobs.append(("handshake", w, o, st, quiet.getsockname()[1]))
    for which, name, reply in (("notification", "nothing", lambda f: R(f, stall=0)), ("notification", "part of the head", lambda f: R(f, stall=20)), ("snapshot", "part of the body", lambda f: R(f, stall=200)),
                               ("delta", "trickle", lambda f: R(f * 50, trickle=True)), ("delta", "part of the body", lambda f: R(f, stall=150))):
        w, o, st = source(which, reply)
        jobs.append((which + ": " + name, w, o, st, None))
    for what in ("anchor", "repository"):
        net = Net(ctx, 2, 1, [(0, 0), (0, 1)], layout=None, name=what)
        net.set(net.build())
        st = dict(on=True)
        host = "ta.example.net" if what == "anchor" else "rrdp1.example.net"

        def lookup(h, path, hd, host=host, st=st, net=net):
            return R(b"x" * 100, stall=50) if st["on"] and h.split(":")[0] == host else net.lookup(h, path, hd)
        net.server.lookup = lookup
        jobs.append((what, net.w, net.opts(reject=r.random() < 0.5), st, None))
    out = {}

    def one(k, w, o, port):
        t = time.monotonic()
        out[k] = (execute(w.cmd(o), now=w.now_ms, allow=[w.root], env=w.env, uid=w.uid, localnet=port or w.localnet, timeout=LIMIT), time.monotonic() - t)
    ts = [threading.Thread(target=one, args=(k, w, o, port), daemon=True) for k, w, o, st, port in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join(LIMIT + 90)
    for k, w, o, st, port in jobs:
        if k not in out:
            raise Inconclusive("no answer from the monitor for %s" % k)
        res, took = out[k]
        ctx.count("runs")
        ctx.count("silent_seconds", int(took))
        if res.hung:
            raise Violation("a server that goes silent (%s): the run is still waiting after %d s" % (k, LIMIT), err=res.err[:1000])
        b = bad(res)
        if b:
            raise Violation("a server that goes silent (%s): a run %s" % (k, b), err=res.err[:1500])
        if took < 5 and k != "anchor" and k != "repository":
            raise Inconclusive("the run did not meet the silent server (%s): %s" % (k, res.err[:300]))
        ctx.case(("silent", k, res.rc), dict(silent=k, status=res.rc, seconds=round(took), err=res.err[:160]))
        st["on"] = False
        w.now_ms += 7_200_000
        res = w.run(o)
        if res.rc != 0:
            raise Violation("after a server went silent (%s) and speaks again, a run fails: %s" % (k, res.brief()), err=res.err[:600])
        ctx.case(("silent", "afterwards", k))


# ---- options ------------------------------------------------------------------------------
def unknown(ctx):
    from vlib import build
    from vlib.run import execute
    sig = []
    for args in ([b"--\xff"], [b"--nope", b"\xff"], [b"--nope=\xff"], [b"-\xff"], [b"-v\xff"], [b"-x", b"\xff"], [b"--\xff=1"]):
        root = ctx.scratch("u")
        os.makedirs(root, exist_ok=True)
        os.chmod(root, 0o777)
        res = execute([build.KS, "--state-dir", root + "/s", "--rrdp-dir", root + "/r", "--rsync-dir", root + "/y", "--source-uri-base", root + "/"]
                      + [os.fsdecode(a) for a in args] + ["--", "https://rrdp.example.net/notification.xml"], now=1700000000000, allow=[root, "/dev/null"], uid=NOBODY, cwd=root)
        ctx.count("runs")
        ctx.case(("unknown", tuple(args), res.rc, norm(res.err)), dict(args=[repr(a) for a in args], status=res.rc, err=res.err[:200]))
        b = bad(res)
        if b == "panics" and "/clap-2" in res.err:
            sig.append(repr(args))
        elif b:
            raise Violation("a run with an unknown option %s" % b, args=args, err=res.err[:1500])
        elif os.path.exists(root + "/r"):
            raise Violation("a run with an unknown option starts to work", args=args)
        shutil.rmtree(root)
    if sig:
        raise Violation("a run with an unknown option that is not UTF-8 panics: %s" % ", ".join(sig), sig="unknown-option-not-utf-8")


def names(ctx, i, n):
    """Files and directories of any name, all of them there and in order."""
    r = ctx.rng
    for k in range(n):
        def name(what):
            return os.fsdecode(r.choice([b"x\xff" + what, what + b"\xfe\xff", b"\xc3\x28 " + what, what, "\u00fc\u4f60 ".encode() + what, b"\n" + what, b"'\"$(x)`" + what, b"{}%s%n" + what, b"--" + what, what + b"." * 3, b"n" * 200 + what, b"\xed\xa0\x80" + what]))
        net = Net(ctx, 1, 1, [(0, 0)], items=["roa"], layout=None, name="w%d" % k)
        w = net.w
        w.state = os.path.join(w.root, name(b"state"))
        if r.random() < 0.5:
            w.rsync = os.path.join(w.root, name(b"rsync"))
        if r.random() < 0.25:
            w.rrdp = os.path.join(w.root, name(b"rrdp"))
        tal = os.path.join(w.root, name(b"a.tal"))
        shutil.copyfile(net.tals[0], tal)
        tals = [tal] if r.random() < 0.9 else []
        scripts = []
        for j in range(r.choice([0, 1, 1, 2])):
            p = os.path.join(w.root, name(b"s%d.sh" % j))
            with open(p, "w") as f:
                f.write("#!/bin/sh\n%s\nexit %d\n" % (r.choice(["printf '\\377\\376'; printf '\\200\\n' >&2", "echo a; echo b >&2", ""]), r.choice([0, 0, 1])))
            os.chmod(p, 0o755)
            scripts.append(p)
        mapped = r.random() < 0.4
        srcdir = os.path.join(w.root, name(b"source")) + r.choice(["", "/"])
        good = net.build()
        t = net.trees[0]
        for step in range(3):
            d = None
            if r.random() < 0.5:
                d = r.choice(c15.defects(t, r.choice(t.cas), r))
            out = net.build(d[1]) if d else good
            out[net.repos[0].notify] = dict(out[net.repos[0].notify])
            out[net.repos[0].notify][net.repos[0].rsync + "extra-%d.gbr" % step] = r.randbytes(9)
            net.set(out)
            if mapped:
                net.src.emit(srcdir)
                if r.random() < 0.3:
                    shutil.rmtree(srcdir)
            o = net.opts(tals=tals, scripts=scripts, reject=r.random() < 0.4, verbose=r.choice([0, 1, 2, 3]), cleanup=r.choice([0, 600]), **(dict(source=srcdir) if mapped else {}))
            go(ctx, w, o, "names", (mapped, len(tals), len(scripts), o.reject, d is None, step), repr((w.state, w.rsync, w.rrdp, tal, scripts, srcdir)))
            w.advance(r.choice([0, 5, 5000]))


def options(ctx, i, n):
    from vlib import build
    from vlib.run import execute
    r = ctx.rng
    for k in range(n):
        src = make_source(ctx, nobj=2)
        w = World(ctx, src, "w%d" % k, uid=NOBODY)
        src.publish()
        w.emit()
        if r.random() < 0.4:
            w.must(Opts())
            src.publish()
            w.emit()
        f = os.path.join(w.root, "file")
        with open(f, "w") as fh:
            fh.write("hello")
        nums = [x.encode() for x in NUMBERS] + [b"9223372036854775", b"9223372036854775807000", b"-9223372036854775808", b"-9223372036854775", b"18446744073709551", b"18446744073709552", b"18446744074", b"4294967296", b"\xff"]
        os.symlink(w.srcdir, os.path.join(w.root.encode(), b"odd\xfe"))
        paths = [w.root.encode() + b"/odd\xfe/", b"", b".", b"/", b"relative", b"/dev/null", f.encode(), f.encode() + b"/x", w.root.encode() + b"/\xff\xfe", w.root.encode() + b"/" + b"n" * 300, w.root.encode() + b"/new/a/b/../c", b"\n", b"/nonexistent/x", w.srcdir.encode()]
        uris = [u.encode("utf-8") for u in URIS + TEXTS if "\0" not in u and len(u) < 60000] + [b"https://rrdp.example.net/n.xml", b"https://rrdp.example.net", b"https://rrdp.example.net/", b"https://rrdp.example.net/a/", b"\xff", src.uri.encode() + b"?x=1", src.uri.encode() + b"#f", b"https://rrdp.example.net/..",
                b"https://rrdp.example.net/../x", b"https://rrdp.example.net/.", b"https://rrdp.example.net/a//b", b"https://rrdp.example.net//"]
        args = {b"--state-dir": w.state.encode(), b"--rrdp-dir": w.rrdp.encode(), b"--rsync-dir": w.rsync.encode(), b"--source-uri-base": w.srcdir.encode() + b"/"}
        uri = src.uri.encode()
        ks = []
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.choice(["dir", "base", "uri", "uri", "delay", "max", "cleanup", "tal", "script", "flag", "unknown"])
            ks.append(x)
            if x == "dir":
                args[r.choice([b"--state-dir", b"--rrdp-dir", b"--rsync-dir"])] = r.choice(paths)
            elif x == "base":
                args[b"--source-uri-base"] = r.choice(paths + uris)
            elif x == "uri":
                uri = r.choice(uris)
            elif x == "delay":
                args[b"--rrdp-notify-delay"] = r.choice(nums)
            elif x == "max":
                args[b"--rrdp-max-deltas"] = r.choice(nums)
            elif x == "cleanup":
                args[b"--cleanup-after"] = r.choice(nums)
            elif x == "tal":
                args[b"--tal"] = r.choice(paths)
            elif x == "script":
                args[b"--pre-validate"] = r.choice([p for p in paths if p != b""] + [b"true", b"/bin/false"])
            elif x == "flag":
                args[r.choice([b"-v", b"-q", b"--insecure", b"--rsync-disable", b"--rsync-include-host", b"--tal-reject-invalid", b"--offline-validation", b"-vvvvvvvvv", b"--help", b"--version", b"-h"])] = None
            else:
                args[r.choice([b"--nope", b"-x", b"\xff", b"--", b""])] = None
        cmd = [build.KS.encode()]
        for a, v in args.items():
            if v is None:
                cmd += [a]
            else:
                cmd += [a + b"=" + v] if a.startswith(b"--") and r.random() < 0.7 else [a, v]
        cmd += ([b"--"] if r.random() < 0.8 else []) + [uri]
        if any(b"\0" in c for c in cmd):
            continue
        cmd = [os.fsdecode(c) for c in cmd]
        os.chmod(w.root, 0o755)
        for again in range(2):
            res = execute(cmd, now=w.now_ms, allow=[w.root, "/dev/null"], uid=NOBODY, cwd=w.root)
            w.log.append("%r = %s" % (cmd[1:], res.rc))
            ctx.count("runs")
            if res.hung:
                raise Inconclusive("watchdog: %r" % cmd)
            if res.waiting:
                ctx.count("options_waiting")
                continue
            b = bad(res)
            if b == "panics" and "unknown" in ks and "/clap-2" in res.err and any("\udcff" in c for c in cmd):
                ctx.count("unknown_non_utf8")       # the finding of family unknown
                continue
            if b:
                raise Violation("options: a run %s" % b, cmd=[c[-300:] for c in cmd[1:]], err=res.err[:1500])
            ctx.case(("options", tuple(sorted(ks)), again, res.rc, norm(res.err)), dict(cmd=[c[-120:] for c in cmd[1:]], status=res.rc, err=res.err[:200]))
            ctx.count("options_" + ("ok" if res.rc == 0 else "error"))
            w.now_ms += 1000
        shutil.rmtree(w.root)
