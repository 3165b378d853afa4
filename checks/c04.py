"""C04: unacceptable notifications are refused without effect."""
import os, re
from vlib import view
from vlib.check import Violation
from vlib.history import make_source
from vlib.oracle import check_published, check_rsync
from vlib.source import Style
from vlib.tls import Reply
from vlib.world import Opts, World

ID, LEVEL = "C04", "exploration"
TECHNIQUE = "runtime monitoring: hostile notification generator, published and recorded state compared before and after"
NOTE = "Every explored unacceptable notification makes the run fail with unchanged published and recorded state, and a later valid notification is accepted."
RULE = ("One case is one run against an unacceptable notification. Distinct: (kind, transport, first run or not, delta limit, number of deltas listed).")
ASSUMPTIONS = ["only deltas that the run has to fetch have their URIs judged"]

DOC = ("cut", "cut", "text", "empty", "missing", "dir", "root", "ns", "nons", "version", "session", "nosession", "serialtext", "serialneg", "serialhuge", "noserial",
       "nosnapshot", "snapnouri", "snapnohash", "hashshort", "hashtext", "hashlong", "deltanoserial", "deltanouri", "deltanohash", "deltaserialtext", "http", "rsync", "element",
       "nested", "comment", "attrdup", "binary", "utf8", "snapshotdoc")
SET = ("gap", "gap", "dup", "dupsame", "short", "beyond", "regress", "foreignsnap", "foreigndelta", "prefixsnap", "gapnewest")
NET = ("404", "500", "short", "reset", "304")


def tasks(tier, seed):
    n = 200 if tier == "quick" else 4000
    for i in range(n):
        yield "rounds", dict(i=i, net=i % 5 == 4)
    for k in sorted(set(DOC + SET + NET)):
        yield "each", dict(kind=k)
    yield "last", {}


def sub1(pat, rep, b):
    out, n = re.subn(pat, rep, b.decode(), count=1)
    return out.encode() if n else None


def bad_document(src, kind, rng):
    """-> bytes, Reply, None (no such file), or False when the kind does not apply."""
    b = src.notification()
    q = r"""["']"""
    if kind == "cut":
        b = b.rstrip()
        return b[:max(1, len(b) - rng.choice([2, 5, 20, rng.randrange(2, len(b))]))]
    if kind == "last":
        return b.rstrip()[:-1]
    if kind == "text":
        return b"Service temporarily unavailable"
    if kind == "empty":
        return b""
    if kind in ("missing", "dir"):
        return None
    if kind == "root":
        return b.replace(b"<notification", b"<notify").replace(b"</notification", b"</notify")
    if kind == "ns":
        return b.replace(b"ripe.net/rpki/rrdp", b"ripe.net/rpki/rrdp2")
    if kind == "nons":
        return sub1(r" xmlns=%s[^\"']*%s" % (q, q), "", b) or False
    if kind == "version":
        return sub1(r"<notification([^>]*) version=%s1%s" % (q, q), r'<notification\1 version="2"', b) or False
    if kind == "noversion":
        return sub1(r"<notification([^>]*) version=%s1%s" % (q, q), r"<notification\1", b) or False
    if kind == "session":
        return b.replace(src.session.encode(), b"no-session")
    if kind == "nosession":
        return b.replace(b"session_id=", b"session=")
    ser = r"(<notification[^>]*serial=)%s%d%s" % (q, src.serial, q)
    if kind.startswith("serial"):
        return sub1(ser, r'\g<1>"%s"' % {"serialtext": "seven", "serialneg": "-%d" % src.serial, "serialhuge": "184467440737095516160"}[kind], b) or False
    if kind == "noserial":
        return sub1(r"(<notification[^>]*) serial=", r"\1 ser=", b) or False
    if kind == "nosnapshot":
        return sub1(r"<snapshot[^>]*/>|<snapshot[^>]*></snapshot>", "", b) or False
    if kind == "snapnouri":
        return sub1(r"(<snapshot[^>]*) uri=", r"\1 url=", b) or False
    if kind == "snapnohash":
        return sub1(r"(<snapshot[^>]*) hash=%s[0-9a-fA-F]*%s" % (q, q), r"\1", b) or False
    if kind in ("hashshort", "hashtext", "hashlong"):
        h = {"hashshort": "ab" * 16, "hashtext": "z" * 64, "hashlong": "ab" * 33}[kind]
        return sub1(r"( hash=)%s[0-9a-fA-F]*%s" % (q, q), r'\1"%s"' % h, b) or False
    if kind == "deltanoserial":
        return sub1(r"(<delta[^>]*) serial=", r"\1 ser=", b) or False
    if kind == "deltaserialtext":
        return sub1(r"(<delta[^>]*) serial=%s[0-9]*%s" % (q, q), r'\1 serial="x"', b) or False
    if kind == "deltanouri":
        return sub1(r"(<delta[^>]*) uri=", r"\1 url=", b) or False
    if kind == "deltanohash":
        return sub1(r"(<delta[^>]*) hash=%s[0-9a-fA-F]*%s" % (q, q), r"\1", b) or False
    if kind in ("http", "rsync"):
        return sub1(r"(<(?:snapshot|delta)[^>]*uri=%s)https://" % q, r"\1%s://" % kind, b) or False
    if kind == "element":
        return b.replace(b"</notification", b"<other/></notification")
    if kind == "nested":
        return sub1(r"(<snapshot[^>]*?)(/>|></snapshot>)", r"\1><snapshot/></snapshot>", b) or False
    if kind == "comment":
        return b.replace(b"</notification", b"<!-- </notification")
    if kind == "attrdup":
        return sub1(r"<snapshot ", r'<snapshot uri="%sx.xml" ' % src.base, b) or False
    if kind == "binary":
        return rng.randbytes(300)
    if kind == "utf8":
        return b.replace(src.session.encode(), src.session.encode()[:-1] + b"\xff")
    if kind == "snapshotdoc":
        return src.snap_bytes
    if kind in ("404", "500"):
        return Reply(b, int(kind))
    if kind == "304":
        return False      # only answered when an etag was sent, see C11
    if kind == "short":
        return Reply(b, short=rng.randrange(len(b)))
    if kind == "reset":
        return Reply(b, reset=True)
    raise ValueError(kind)


def bad_set(src, kind, limit, base, rng):
    """A well-formed notification whose files are not acceptable, or False. base: published serial of this session or None."""
    ds = list(src.listed(limit))
    d = ds[-1] if ds else None
    rest = src.deltas[:len(src.deltas) - len(ds)]
    if kind == "gap":
        if len(ds) < 3:
            return False
        # with a limit the next older delta would take the place of the missing one: still a gap
        i = rng.randrange(1, len(ds) - 1)
        return src.notification(deltas=rest + ds[:i] + ds[i + 1:])
    if kind == "gapnewest":
        if len(ds) < 2:
            return False
        return src.notification(deltas=rest + ds[:-1])
    if kind in ("dup", "dupsame"):
        if not ds:
            return False
        e = rng.choice(ds) if limit is None else ds[-1]
        x = e if kind == "dupsame" else (e[0], rng.choice(src.deltas)[1], e[2])
        return src.notification(deltas=rest + ds + [x])
    if kind == "short":
        if not ds:
            return False
        return src.notification(deltas=src.deltas[:-1]) if len(src.deltas) > 1 else False
    if kind == "beyond":
        if not ds:
            return False
        return src.notification(deltas=src.deltas + [(src.serial + 1, d[1], d[2])])
    if kind == "regress":
        if not base or base < 2:
            return False
        s = rng.choice([base - 1, max(1, base - 7), 1])
        x = src.snapshot_xml(serial=s)
        return src.notification(deltas=[], serial=s, snap=(src.snap_rel, x)), {src.snap_rel: x}
    if kind == "foreignsnap":
        return src.notification(snap=(rng.choice(["https://evil.example/rrdp/", "https://rrdp.example.net.evil.example/rrdp/", "https://rrdp.example.net:444/rrdp/"]) + src.snap_rel, src.snap_bytes))
    if kind == "prefixsnap":
        # shares a prefix with the base, but is not below it
        u = src.base[:-1] + "x/" + src.snap_rel
        return src.notification(snap=(u, src.snap_bytes)) if src.base.count("/") > 3 else False
    if kind == "foreigndelta":
        new = [x for x in ds if base is None or x[0] > base]
        if not new:
            return False
        e = rng.choice(new)
        return src.notification(deltas=[(s, "https://evil.example/" + rel, x) if s == e[0] else (s, rel, x) for s, rel, x in src.deltas])
    raise ValueError(kind)


def put(w, src, kind, note, extra=None):
    files = src.files()
    files.update(extra or {})
    if kind == "dir" and not w.server:
        files[src.name + "/x"] = files.pop(src.name)
    elif note is None:
        del files[src.name]
    else:
        files[src.name] = note
    if w.server:
        w.served = files
    else:
        w.emit(files)


def everything(w):
    return dict(rrdp=view.fingerprint(w.rrdp), rsync=view.fingerprint(w.rsync), state=w.state_files())


def attack(ctx, w, o, kind, net):
    src, r = w.src, ctx.rng
    v0 = w.view()
    base = v0.note.serial if v0.note and v0.note.session == src.session else None
    extra = None
    if kind in SET:
        note = bad_set(src, kind, o.max_deltas, base, r)
        if isinstance(note, tuple):
            note, extra = note
    else:
        note = bad_document(src, kind, r)
    if note is False:
        return None
    put(w, src, kind, note, extra)
    before = everything(w)
    w.log.append("%s notification at %s/%d" % (kind, src.session[:4], src.serial))
    res = w.run(o)
    if res.rc == 0:
        if kind == "last":
            return True
        raise Violation("a run accepts an unacceptable notification (%s)" % kind, log=w.log[-8:], notification=str(note)[:900], published=w.view().key())
    if res.rc != 1:
        raise Violation("the run ends with %s" % res.brief(), log=w.log[-8:])
    after = everything(w)
    if after != before:
        raise Violation("a refused notification (%s) has effects: %s" % (kind, [d for k in after for d in view.diff(before[k], after[k])]), log=w.log[-8:])
    ctx.case((kind, net, base is None, o.max_deltas, min(4, len(src.deltas))), dict(log=w.log[-2:], err=res.err[-160:]))


def good(ctx, w, o, hosts=False, weak=False):
    v0 = w.view()
    if w.server:
        w.served = None
    else:
        w.emit()
    w.log.append("good %s/%d" % (w.src.session[:4], w.src.serial))
    new = v0.key() != w.src.key()
    w.must(o, what="valid notification")
    check_published(w, o, v0, weak=weak)
    if new or weak:
        check_rsync(w, w.src.objects, hosts)
    ctx.count("accepted")


def rounds(ctx, i, net):
    r = ctx.rng
    src = make_source(ctx)
    w = World(ctx, src)
    if net:
        w.serve_tls()
    so = "none" if net else None
    if r.random() < 0.8:
        good(ctx, w, Opts(source=so))
    weak = False
    for k in range(r.randrange(2, 6)):
        if r.random() < 0.15:
            src.new_session()
        for _ in range(r.choice([1, 2, 3, 5])):
            src.publish()
        if r.random() < 0.4:
            # a run for the new content is interrupted first
            if w.server:
                w.served = None
            else:
                w.emit()
            w.run(Opts(source=so), fault={r.randrange(5, 90): r.choice(["k", "k", "e28"])})
            weak = True
            ctx.count("interrupted_before")
            if w.view().key() == src.key():
                src.publish()
        for _ in range(r.choice([1, 2, 3])):
            o = Opts(source=so, max_deltas=r.choice([None, None, 1, 2, 4]))
            pool = DOC + SET + SET + (NET if net else ())
            attack(ctx, w, o, r.choice(pool), net)
        if r.random() < 0.8:
            good(ctx, w, o, weak=weak)
            weak = False


def each(ctx, kind):
    for first in (True, False):
        src = make_source(ctx, name="n.xml")
        src.style.selfclose = True
        w = World(ctx, src, name="w%d" % first)
        net = kind in NET
        if net:
            w.serve_tls()
        o = Opts(source="none" if net else None)
        if not first:
            good(ctx, w, o)
        for _ in range(4):
            src.publish()
        for _ in range(3):
            attack(ctx, w, o, kind, net)
        good(ctx, w, o)


def last(ctx):
    src = make_source(ctx)
    w = World(ctx, src)
    src.publish()
    if attack(ctx, w, Opts(), "last", False):
        raise Violation("a notification whose last character, the > of the end tag, is missing is accepted", sig="last-character-missing")
