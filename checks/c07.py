"""C07: rsync modification times depend only on the object content."""
import calendar, os

from vlib import rpki, view
from vlib.check import Violation
from vlib.history import make_source
from vlib.rpki import DAY
from vlib.source import pool
from vlib.world import Opts, T0, World

ID, LEVEL = "C07", "exploration"
TECHNIQUE = "runtime monitoring: generated RPKI objects of every type with known dates are synchronised by several installations at different times; modification times compared with the dates and with each other"
NOTE = "In all explored histories every generated object has exactly the time stamp its content says, in every installation and after every run."
RULE = "One case is one look at the tree of one installation after a run. Distinct: (types of objects, age classes of their dates, installation, kind of run)."
ASSUMPTIONS = ["dates that the file system cannot store are left out", "the modification time of objects that do not decode is not judged"]


def at(y, *x):
    return calendar.timegm((y,) + (tuple(x) + (1, 1, 0, 0, 0))[:5])


def tasks(tier, seed):
    for i in range(60 if tier == "quick" else 2000):
        yield "history", dict(i=i, n=6)
    for i in range(6 if tier == "quick" else 100):
        yield "real", dict(i=i)


def date(r, wide):
    x = r.random()
    if x < 0.35:
        return T0 - r.randrange(3 * 365 * DAY)
    if x < 0.5:
        return T0 + r.choice([-1, 0, 1, 5, 3600, DAY, 10 * 365 * DAY])
    if x < 0.6:
        return at(r.choice([1970, 1999, 2000, 2038, 2049]), r.choice([1, 12]), r.choice([1, 31]), r.choice([0, 23]), r.choice([0, 59]), r.choice([0, 59]))
    if x < 0.7:
        return r.choice([0, 1, 2**31 - 1, 2**31, 2**31 + 1, at(2049, 12, 31, 23, 59, 59), at(2050), at(2000, 2, 29), at(2024, 2, 29)])
    if x < 0.8:
        return -r.randrange(1, 20 * 365 * DAY)            # 1950 to 1969
    if not wide:
        return T0 - r.randrange(30 * 365 * DAY)
    return at(r.randrange(2050, 2300), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))


def age(t):
    return "before 1970" if t < 0 else "past" if t < T0 - 10 else "now" if t < T0 + 10 * DAY else "future" if t < at(2050) else "far"


KINDS = ("ca", "router", "ta", "crl", "roa", "mft", "gbr", "aspa", "tak", "none")


def make(r, kind, n, wide):
    """(file name, bytes, time)"""
    rsa, ec = rpki.keys()
    k, s, ee = r.sample(rsa[:8], 3)
    d = date(r, wide)
    base = "rsync://x.example/m/"
    corrupt = r.random() < 0.2
    end = d + r.choice([1, DAY, 365 * DAY]) if d < at(2290) else d
    res = dict(v4=["10.0.0.0/8"], v6=r.choice([None, ["2001:db8::/32"]]), asn=[(1, 100)])
    if kind in ("ca", "ta"):
        b = rpki.cert(kind, k if kind == "ca" else s, s, r.randrange(1, 1 << 60), d, end, crl=base + "a.crl" if kind == "ca" else None, aia=base + "a.cer" if kind == "ca" else None,
                      ca_repo=base + "x/", mft=base + "x/y.mft", notify=r.choice([None, "https://x.example/n.xml"]), corrupt=corrupt, **res)
        return "%s%d.cer" % (kind, n), b, d
    if kind == "router":
        return "r%d.cer" % n, rpki.cert("router", k, r.choice(ec), n + 1, d, end, asn=[5], crl=base + "a.crl", aia=base + "a.cer", corrupt=corrupt), d
    if kind == "crl":
        return "c%d.crl" % n, rpki.crl(k, n, d, end, revoked=range(1, r.choice([1, 2, 50])), corrupt=corrupt), d
    nb = date(r, wide)
    when = None if r.random() < 0.35 else d
    cert = rpki.cert("ee", k, ee, n + 1, nb, nb + DAY, crl=base + "a.crl", aia=base + "a.cer", so=base + "x.roa", **res)
    t, c, e = {"roa": (rpki.ROA, rpki.roa_content(1, [("10.0.0.0/24", None)]), "roa"),
               "mft": (rpki.MFT, rpki.mft_content(1, date(r, False), date(r, False), [("a.roa", b"x" * 32)]), "mft"),
               "gbr": (rpki.GBR, b"BEGIN:VCARD\r\nEND:VCARD\r\n", "gbr"),
               "aspa": (rpki.ASPA, rpki.aspa_content(5, [1, 2]), "asa"),
               "tak": ("1.2.840.113549.1.9.16.1.50", r.randbytes(30), "tak"),
               "none": ("1.2.840.113549.1.9.16.1.%d" % r.choice([47, 60, 99]), r.randbytes(30), r.choice(["sig", "xyz", "cer.roa", "crl.mft", "spl", "mcer", "xcrl"]))}[kind]
    b = rpki.cms(t, c, ee, cert, when, corrupt=corrupt)
    if r.random() < 0.1:
        # the outer length left open, as BER allows
        b = b"\x30\x80" + b[2 + (b[1] & 0x7f if b[1] & 0x80 else 0):] + b"\0\0"
    return "%s%d%s%s" % (kind, n, "" if e in ("mcer", "xcrl") and n % 2 else ".", e), b, d if when is not None else nb


def storable(ctx):
    """Can the file system keep times after 2106 or so?"""
    p = os.path.join(ctx.root, "probe")
    open(p, "w").close()
    t = at(2299)
    try:
        os.utime(p, (t, t))
        return int(os.stat(p).st_mtime) == t
    except OSError:
        return False


def look(ctx, w, o, times, what):
    """times: object URI -> time, of the objects that are in the tree now."""
    ex, cur = view.current_dir(w.rsync)
    if cur is None:
        raise Violation("%s: no current rsync tree" % what, log=w.log[-8:])
    got = {}
    for u, t in times.items():
        host, module, path = u[8:].split("/", 2)
        p = os.path.join(cur, "%s/%s/%s" % (host, module, path) if o.include_host else path)
        try:
            ns = os.stat(p).st_mtime_ns
        except OSError as e:
            raise Violation("%s: %s is not in the rsync tree: %s" % (what, u, e), log=w.log[-8:])
        if ns != t * 10**9:
            raise Violation("%s: %s has the time %.9f instead of %d" % (what, u, ns / 1e9, t), log=w.log[-8:], off_by=ns / 1e9 - t)
        got[u] = ns
    ctx.count("time_stamps", len(got))
    return got


def history(ctx, i, n):
    r = ctx.rng
    wide = storable(ctx)
    src = make_source(ctx, nobj=0)
    src.objects = {}
    src.new_session(objects={})
    worlds = []
    for name in "abc":
        w = World(ctx, src, name)
        w.opts = dict(include_host=r.random() < 0.3, max_deltas=r.choice([None, 0, 2]), cleanup=r.choice([0, 3600]))
        if r.random() < 0.2:
            w.xdev = w.rsync
        worlds.append(w)
    worlds[1].now_ms = (T0 + r.choice([7, 86400 * 3, 10**8])) * 1000
    worlds[2].now_ms = r.choice([T0 - 86400 * 400, 1000, T0 + 5]) * 1000
    times, count, info = {}, 0, {}
    for k in range(n):
        ch = {}
        for _ in range(r.choice([1, 3, 6])):
            count += 1
            kind = KINDS[(i + count) % len(KINDS)]
            name, b, t = make(r, kind, count, wide)
            x = r.random()
            old = [u for u in src.objects if u not in ch and u.rsplit(".", 1)[-1] == name.rsplit(".", 1)[-1]]
            u = r.choice(old) if old and x < 0.3 else src.rsync_base + r.choice(["", "d/", "d.cer/x.crl/", "ta/0/"]) + name
            ch[u] = b
            times[u] = t
            info[u] = (kind, age(t))
        gone = [u for u in src.objects if u not in ch and r.random() < 0.1]
        for u in gone:
            ch[u] = None
            times.pop(u, None)
        if r.random() < 0.2:
            # what does not decode, besides
            ch[src.rsync_base + "junk%d.%s" % (k, r.choice(["cer", "crl", "roa"]))] = r.randbytes(20)
        if r.random() < 0.15 and k:
            objs = dict(src.objects)
            for u, b in ch.items():
                objs.pop(u, None)
                if b is not None:
                    objs[u] = b
            src.new_session(objects=objs)
        else:
            src.publish(list(ch.items()))
        for j, w in enumerate(worlds):
            if j and r.random() < 0.5 and k < n - 1:
                continue
            w.emit()
            w.advance(r.choice([0, 1, 60, 5000]))
            o = Opts(**w.opts)
            kindrun = "run"
            if r.random() < 0.15:
                w.run(o, fault={r.randrange(3, 60): r.choice(["k", "K"])})
                kindrun = "after an interrupted run"
            w.must(o)
            what = "installation %s, %s, round %d" % ("abc"[j], kindrun, k)
            look(ctx, w, o, times, what)
            ctx.case((tuple(sorted({info[u] for u in times})), j, kindrun), dict(time_stamps={u: times[u] for u in list(times)[:5]}) if j == 1 else None)
            if r.random() < 0.3:
                w.advance(r.choice([1, 5000]))
                w.must(o)
                look(ctx, w, o, times, what + ", nothing new")
                ctx.case(("nothing new", j, kindrun))


def real(ctx, i):
    """Objects as they were published in the past; expectation by a separate DER reader."""
    r = ctx.rng
    objs, times = {}, {}
    src = make_source(ctx, nobj=0)
    for ext, bl in pool().items():
        for j, b in enumerate(r.sample(bl, min(len(bl), 8))):
            u = "%so%d-%s.%s" % (src.rsync_base, j, ext, ext)
            try:
                t = view.expected_mtime(u, b)
            except (view.Bad, ValueError, IndexError):
                continue
            objs[u], times[u] = b, t
    src.new_session(objects=objs)
    seen = []
    for name in "ab":
        w = World(ctx, src, name)
        w.advance(r.choice([0, 1000, 10**7]))
        w.emit()
        o = Opts(include_host=r.random() < 0.3)
        w.must(o)
        seen.append(look(ctx, w, o, times, "installation " + name))
        ctx.case(("real", len(times), name, o.include_host))
    if seen[0] != seen[1]:
        raise Violation("two installations differ in time stamps")
