"""C27: nothing accumulates on disk."""
import os, random, re
from vlib import rpki, view
from vlib.check import Violation
from vlib.history import History
from vlib.rpkinet import Net
from vlib.source import LAYOUTS, Source, Style
from vlib.world import Opts, World

ID, LEVEL = "C27", "exploration"
TECHNIQUE = "runtime monitoring: an accounting of every file, directory and byte in the configured directories after each run, over long cyclic workloads of constant size (steady state must not grow) and over histories of failing, rejected and killed runs (nothing staged may stay)"
NOTE = "In all explored histories the staging area is free of snapshots, deltas and their directories after a successful run with new content, and the directories do not grow over cycles of the same workload."
RULE = "One case is one run. Distinct: history: (source operation, fault kind, script outcome, rejecting, outcome, staged before or not); cycles: (layout, cycle length, limit, cleanup, include-host, rsync, TALs, other file system)."
ASSUMPTIONS = ["the source's content keeps its size over a cycle; repositories of other CAs keep their notification URI",
               "what a killed run had moved to the RRDP or rsync directory already is not judged"]

STAGING = "pre-validate-staging"


def tasks(tier, seed):
    q = tier == "quick"
    for i in range(110 if q else 2500):
        yield "history", dict(i=i)
    for i in range(44 if q else 900):
        yield "cycles", dict(i=i)
    for i in range(8 if q else 150):
        yield "validated", dict(i=i)


KNOWN = re.compile(r"(rrdp|rsync)-state\.json|krill-sync tmp|.*lock.*", re.I)


def below(d):
    out = []
    for dp, dn, fn in os.walk(d):
        out += [os.path.relpath(os.path.join(dp, n), d) + ("/" if n in dn else "") for n in dn + fn]
    return sorted(out)


def remains(w):
    """What is in the state directory without being state: staged data (the notification alone has a bounded size)."""
    out = []
    for n in os.listdir(w.state):
        p = os.path.join(w.state, n)
        if p in (w.rrdp, w.rsync):
            continue
        if os.path.isdir(p) and not os.path.islink(p):
            out += [n + "/" + x for x in below(p) if x != w.src.name]
        elif not KNOWN.fullmatch(n):
            out.append(n)
    return sorted(out)


def judge(w, ctx, **det):
    left = remains(w)
    ctx.count("staging_areas_judged")
    if left:
        raise Violation("after a successful run with new content the state directory still holds %d staged files and directories: %s" % (len(left), left[:6]),
                        log=w.log[-12:], left=left[:40], **det)


def staged(w):
    d = os.path.join(w.state, STAGING)
    return sum(len(f) for _, _, f in os.walk(d))


def history(ctx, i):
    r = ctx.rng
    h = History(ctx, faults=r.choice([0, 0.3, 0.6]), delays=(0, 0, 5), moves=0.15 if i % 3 == 0 else 0, net=0 if i % 3 == 0 else 0.2, xdev=i % 4 == 1)
    w = h.w
    if r.random() < 0.3:
        w.rrdp, w.rsync = os.path.join(w.state, "rrdp"), os.path.join(w.state, "rsync")
        if w.xdev:
            w.xdev = w.rrdp
    sc = os.path.join(ctx.scratch("scripts"), "s.sh")
    base = h.options
    want = []

    def options():
        o = base()
        want[:] = []
        if r.random() < 0.35:
            code = r.choice([0, 1])
            with open(sc, "w") as f:
                f.write("#!/bin/sh\nexit %d\n" % code)
            os.chmod(sc, 0o755)
            o.update(scripts=(sc,), reject=r.random() < 0.7)
            want[:] = [code, o.reject]
        return o
    h.options = options
    broken = None
    for _ in range(r.choice([4, 6, 8])):
        had = staged(w) if os.path.isdir(w.state) else 0
        if r.random() < 0.2 and not w.net:
            # a file is missing at the source, after others were fetched
            emit = w.emit

            def without(files=None):
                f = dict(files or h.src.files())
                c = [k for k in f if k != h.src.name]
                if c:
                    del f[r.choice(c)]
                emit(f)
            w.emit = without
            res, o, fired = h.step()
            w.emit = emit
            kind = "missing"
        else:
            res, o, fired = h.step()
            kind = h.steps[-1][1]
        new = any(e.op == "rename" and e.path2 == os.path.join(w.rrdp, h.src.name) for e in res.events)
        ctx.case((h.steps[-1][0], kind, tuple(want), res.rc, had > 0, bool(w.xdev)), dict(status=res.rc, staged_before=had))
        if had:
            ctx.count("runs_with_earlier_staged_files")
        if res.ok and new:
            judge(w, ctx)
    # the last one always succeeds
    h.src.publish()
    w.emit()
    had = staged(w)
    w.must(Opts(), "an undisturbed run with new content")
    ctx.case(("last", had > 0), dict(staged_before=had))
    judge(w, ctx)


def size(d, skip=()):
    n = b = 0
    for dp, dn, fn in os.walk(d):
        dn[:] = [x for x in dn if os.path.join(dp, x) not in skip]
        n += len(dn) + len(fn)
        for f in fn:
            s = os.lstat(os.path.join(dp, f))
            b += s.st_size
    return n, b


def measure(w):
    out = {}
    for name, d in (("state", w.state), ("rrdp", w.rrdp), ("rsync", w.rsync)):
        out[name] = size(d, {w.rrdp, w.rsync} - {d}) if os.path.isdir(d) else (0, 0)
    return out


def compare(w, o, seen, names=8, **det):
    """The sizes after each of the later cycles must not exceed that after the early ones by more than what is due to other lengths of values."""
    early, late = seen[:len(seen) // 2], seen[len(seen) // 2:]
    for k in early[0]:
        n0, b0 = max(m[k][0] for m in early), max(m[k][1] for m in early)
        n1, b1 = min(m[k][0] for m in late), min(m[k][1] for m in late)
        if n1 > n0:
            raise Violation("the %s directory grows: %s entries after %d cycles of the same work" % (k, [m[k][0] for m in seen], len(seen)), log=w.log[-8:], sizes=[m[k] for m in seen], **det)
        if b1 > b0 + names:
            raise Violation("the %s directory grows: %s bytes after %d cycles of the same work" % (k, [m[k][1] for m in seen], len(seen)), log=w.log[-8:], sizes=[m[k] for m in seen], **det)


def cycles(ctx, i):
    r = ctx.rng
    src = Source(r, layout=LAYOUTS[i % len(LAYOUTS)], style=Style(r), nobj=0)
    uris = ["rsync://repo.example.net/repo/%s%d.bin" % (r.choice(["", "a/", "a/b/", "c%d/" % j]), j) for j in range(5)]
    blob = lambda n: r.getrandbits(8 * n).to_bytes(n, "big")
    src.new_session(objects={u: blob(90) for u in uris}, serial=10000)
    keep = r.choice([0, 1, 3])
    src.keep = keep
    period = r.choice([1, 2, 3, 5])
    renew = r.random() < 0.5
    o = Opts(cleanup=r.choice([1, 60, 3600]), max_deltas=r.choice([None, None, 0, 1, 2]), rsync=i % 4 != 3, include_host=r.random() < 0.3)
    w = World(ctx, src)
    if r.random() < 0.3:
        w.xdev = w.rrdp
    if r.random() < 0.3:
        w.rrdp, w.rsync = os.path.join(w.state, "rrdp"), os.path.join(w.state, "rsync")
    if w.xdev:
        w.xdev = w.rrdp
    fails = r.random() < 0.4
    seen = []
    serial = src.serial
    for c in range(10 if ctx.tier == "quick" else 24):
        for k in range(period):
            if renew and k == 0 and c:
                # another session with the same numbers
                src.new_session(objects={u: blob(90) for u in uris}, serial=10000)
            else:
                src.publish([(u, blob(90)) for u in r.sample(uris, 2)] if k % 2 == 0 else [(u, blob(90)) for u in uris[:2]])
            if fails and k == 0:
                f = src.files()
                f.pop(src.snap_rel)
                w.emit(f)
                w.run(o)
            w.emit()
            w.must(o, "cycle %d" % c)
            w.advance(o.cleanup + 5)
        seen.append(measure(w))
    ctx.case((src.layout, period, keep, o.max_deltas, o.cleanup, o.rsync, o.include_host, bool(w.xdev), renew, fails), dict(sizes=seen[-1], cycles=len(seen)))
    ctx.count("cycles_run", len(seen))
    # all that may differ in length between cycles: sampled paths in 'a/b/' and so on have the same set in every cycle
    compare(w, o, seen[2:], names=160)


def validated(ctx, i):
    r = ctx.rng
    nrepos = 1 + i % 3
    net = Net(ctx, nrepos=nrepos, shape=[(0, k % nrepos) for k in range(3)], items=("roa", "aspa"))
    w = net.w
    for s in net.sources:
        s.keep = 2
    o = net.opts(cleanup=60)
    seen = []
    for c in range(7 if ctx.tier == "quick" else 16):
        net.set(net.build())
        net.serve()
        res = net.run(o)
        if not res.ok:
            raise Violation("a run with valid content fails: %s" % res.brief(), log=w.log)
        judge(w, ctx, tals=True)
        seen.append(measure(w))
        step = r.choice([65, 4000])
        w.advance(step)
        net.now += step
        for t in net.trees:
            t.now = net.now
    ctx.case(("tals", nrepos, bool(w.net)), dict(sizes=seen[-1], cycles=len(seen)))
    ctx.count("cycles_run", len(seen))
    compare(w, o, seen[2:], names=500)
