"""C05: the current rsync tree is exactly the published snapshot."""
from vlib import view
from vlib.check import Violation
from vlib.history import History, make_source
from vlib.oracle import check_published, check_rsync
from vlib.source import LAYOUTS, Source
from vlib.world import Opts, World

ID, LEVEL = "C05", "exploration"
TECHNIQUE = 'runtime monitoring: comparison of the rsync tree with a reference model after every run, with fault injection'
NOTE = "After each successful run of the explored histories the current tree equals the model's object set; unusual names and contents included."
RULE = ("One case is one successful run with rsync enabled in a random history with faults; the tree at 'current' is compared with the object set of the "
        "source model (paths, bytes, no other file or directory). Distinct: (source operation, hosts option, object count, interrupted before, attempt).")
ASSUMPTIONS = []


def tasks(tier, seed):
    n = 300 if tier == "quick" else 6000
    for i in range(n):
        yield "history", dict(i=i, faults=[0, 0.3, 0.5][i % 3])
    for i in range(40 if tier == "quick" else 600):
        yield "content", dict(i=i)
    for i in range(3 if tier == "quick" else 20):
        yield "large", dict(i=i)


def history(ctx, i, faults):
    r = ctx.rng
    h = History(ctx, faults=faults, delays=(0, 0, 3), hosts=None, forget=0.05)
    mode = None                     # hosts option of the last complete rsync update; None: unknown
    for k in range(r.randrange(5, 14)):
        before = h.w.view().key()
        dirty = h.interrupted
        if r.random() < 0.25:
            h.include_host = not h.include_host
        res, o, fired = h.step()
        if fired:
            mode = None
        new = before != h.src.key() or h.steps[-1][0].endswith("+lost")
        if not res.ok:
            continue
        if new or (dirty and not fired and before is None):
            mode = o.include_host if o.rsync else None
        elif mode is None:
            continue
        if not o.rsync and new:
            continue
        cur, exp = check_rsync(h.w, h.src.objects, mode)
        if not fired:
            h.interrupted = False
        ctx.count("objects_compared", len(exp))
        ctx.case((h.steps[-1][0], mode, min(len(exp), 12), dirty, cur.count("_")), dict(log=h.w.log[-3:], files=sorted(exp)[:5]) if k == 4 else None)


def content(ctx, i):
    """Unusual but valid object sets; changes between file and directory of a path; several hosts and modules."""
    r = ctx.rng
    hosts = r.random() < 0.5
    src = Source(r, nobj=0)
    w = World(ctx, src)
    names = ["a", "a.cer", "A", "a/b", "a/b/c.roa", "b", "b/a", "x.tmp", "current", "session_1", "%2e%2e", "%2F", "~", "a,b;c=d", "(1).roa", "...", "..x", "x..", "-rf", "*", "a" * 200, "d/" * 30 + "e",
             "x%20y", "x%2dy", "%41.cer", "caf%C3%A9.roa", "%%25", "B.CER", "B.cer", "b.Roa", "c+d", "c.", "c", "e:f", "index.html", "UPPER/Lower.MFT", "upper/lower.mft", "$HOME", "'q'", "a=b&c=d", "_", "-"]
    mods = ["rsync://h.example/m/", "rsync://h.example/m2/", "rsync://other.example/m/", "rsync://h.example:8873/m/"] if hosts else ["rsync://h.example/m/"]
    for k in range(5):
        want = {}
        for m in mods:
            for n in r.sample(names, r.randrange(0, 22)):
                # a path can not be a file and a directory in one snapshot
                if any(o.startswith(m + n + "/") or (m + n).startswith(o + "/") for o in want):
                    continue
                want[m + n] = r.choice([b"", b"x", r.randbytes(r.choice([1, 2, 3, 1000])), r.randbytes(70000) if r.random() < 0.2 else b"\0\xff\n"])
        ch = [(u, b) for u, b in want.items() if src.objects.get(u) != b] + [(u, None) for u in src.objects if u not in want]
        if not ch and k:
            continue
        src.publish(ch)
        w.emit()
        w.must(Opts(include_host=hosts, cleanup=r.choice([0, 3600])))
        check_rsync(w, want, hosts)
        ctx.count("objects_compared", len(want))
        ctx.case(("content", hosts, tuple(sorted(want))))


def large(ctx, i):
    """Large objects, many objects, and a snapshot and deltas of many megabytes."""
    r = ctx.rng
    src = make_source(ctx, nobj=2, base="https://rrdp.example.net/rrdp/")
    w = World(ctx, src)
    hosts = r.random() < 0.5
    for k in range(3):
        ch = src.random_changes(1)
        if i % 3 == 0:
            ch += [("%sbig/%d.bin" % (src.rsync_base, k), r.randbytes(r.choice([1 << 20, (1 << 20) + 1, 5_000_000, 16_777_217])))]
        elif i % 3 == 1:
            ch += [("%smany/%d/%d/x%d.roa" % (src.rsync_base, k, j % 50, j), b"%d" % j) for j in range(4000)]
        else:
            ch += [("%smany/%d/%d.mft" % (src.rsync_base, k, j), r.randbytes(3000)) for j in range(1500)]
        ch = list(dict(ch).items())
        src.publish(ch)
        w.emit()
        v0 = w.view()
        w.must(Opts(include_host=hosts))
        check_rsync(w, src.objects, hosts)
        check_published(w, Opts(), v0)
        ctx.count("objects_compared", len(src.objects))
        ctx.case(("large", i % 3, k, hosts), dict(objects=len(src.objects), snapshot=len(src.snap_bytes)))
