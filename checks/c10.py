"""C10: every interrupted run is recovered by the next run."""
from vlib import faults, view
from vlib.check import Violation
from vlib.history import History
from vlib.oracle import check_published, check_rsync
from vlib.world import Opts

ID, LEVEL = "C10", "fault_enumeration"
TECHNIQUE = "runtime monitoring: enumeration of a kill and of every error at every system call of real runs, recovery judged against the undisturbed run"
NOTE = "For every enumerated interruption of the prepared runs (also of a second, recovering run, at random) the next undisturbed run succeeds and publishes what it should."
RULE = ("One case is one recovery after one injected interruption. Distinct: (scenario, operation kind, number of the operation, kind of interruption, what happens before the recovery).")
ASSUMPTIONS = ["the process is interrupted, not the machine: what was written before the interruption is on disk afterwards"]


def tasks(tier, seed):
    v = 1 if tier == "quick" else 6
    for name in faults.NAMES:
        for variant in range(v):
            for part in range(6):
                yield "enumerate_faults", dict(name=name, variant=variant, part=part, parts=6)
    for i in range(60 if tier == "quick" else 2000):
        yield "repeated", dict(i=i, name=faults.NAMES[i % len(faults.NAMES)])
    for i in range(1 if tier == "quick" else 100):
        for name in faults.NAMES:
            yield "https", dict(i=i, name=name)


def recover(ctx, c, then, what, mode):
    """The run after an interruption, judged."""
    w, src, o = c.w, c.src, c.o
    before = w.view()
    w.emit()
    w.log.append("recovery (%s)" % mode)
    r = w.run(o, observe=False)
    if not r.ok:
        raise Violation("after %s the next run (%s) fails: %s" % (what, mode, r.brief()), log=w.log[-8:])
    try:
        v = check_published(w, o, c.before if c.before.note is not None else None)
        if o.rsync:
            check_rsync(w, src.objects, o.include_host)
    except Violation as e:
        raise e.wrap("after %s and a recovery (%s): %s" % (what, mode, e.msg), log=w.log[-8:])
    if then is not None:
        pub = w.published()
        for p, h in then["rrdp"].items():
            if p != src.name and pub["rrdp"].get(p) != h:
                raise Violation("after %s and a recovery (%s) %s is not published as it is after an undisturbed run" % (what, mode, p), log=w.log[-8:])
        if o.rsync and pub["rsync"] != then["rsync"]:
            raise Violation("after %s and a recovery (%s) the rsync content is not as after an undisturbed run: %s" % (what, mode, view.diff(then["rsync"], pub["rsync"])), log=w.log[-8:])
    return v


def enumerate_faults(ctx, name, variant, part, parts):
    c = faults.build(ctx, name, variant, ctx.seed)
    w, o, src, r = c.w, c.o, c.src, ctx.rng
    base = w.must(o, observe=False)
    then = w.published()
    ctx.count("operations", len(base.events))
    for n, ev in enumerate(base.events, 1):
        if n % parts != part:
            continue
        for k in faults.kinds(ev):
            c.reset()
            what = "an interruption (%s at %r)" % (k, ev)
            w.log.append("%s at %d: %s %s" % (k, n, ev.op, ev.path))
            w.run(o, fault={n: k}, observe=False)
            mode = r.choice(["again", "again", "later", "moved on", "new session"])
            if mode == "later":
                w.advance(5000)
            elif mode == "moved on":
                src.publish()
            elif mode == "new session":
                src.new_session(nobj=2)
            recover(ctx, c, then if mode in ("again", "later") else None, what.replace(w.root, ""), mode)
            ctx.case((name, variant, ev.op, n, k, mode), dict(scenario=name, operation=repr(ev).replace(w.root, ""), fault=k, then=mode) if n % 9 == 0 and k in ("k", "e5") else None)
            if (n + len(k)) % 4 == 0:
                src.publish()
                c2 = c.before
                c.before = w.view()
                recover(ctx, c, None, what, "and the update after it")
                c.before = c2


def repeated(ctx, i, name):
    """Several interruptions in a row, the source moving on in between."""
    r = ctx.rng
    c = faults.build(ctx, name, i, ctx.seed)
    w, o, src = c.w, c.o, c.src
    hist = []
    n0 = 60
    for k in range(r.randrange(2, 5)):
        n = r.randrange(1, n0)
        kind = r.choice(["k", "k", "K", "e28", "e5", "e13"])
        w.log.append("%s@%d" % (kind, n))
        res = w.run(o, fault={n: kind}, observe=False)
        hist.append((kind, res.rc))
        x = r.random()
        if x < 0.3:
            src.publish()
        elif x < 0.4:
            src.new_session(nobj=1)
        if r.random() < 0.3:
            w.advance(r.choice([1, 5000]))
        w.emit()
    what = "repeated interruptions"
    recover(ctx, c, None, what, "again")
    ctx.case(("repeated", name, tuple(hist)))
    src.publish()
    c.before = w.view()
    recover(ctx, c, None, what, "and the update after it")


def https(ctx, i, name):
    """The source is an HTTPS server that answers conditional requests; interruptions at random
    operations, the recovery (mostly) finds the source as it was."""
    r = ctx.rng
    c = faults.build(ctx, name, i, ctx.seed)
    w, o, src = c.w, c.o, c.src
    w.over_tls()
    w.emit()
    if r.random() < 0.5:
        # what is there was fetched from that server, too
        w.must(o, observe=False)
        w.advance(10)
        src.publish()
        w.emit()
    saved, srcsaved = w.save("https"), src.save()
    base = w.must(o, observe=False)
    then = w.published()
    c.before = None
    last = len(base.events)
    plan = [(n, r.choice(faults.kinds(base.events[n - 1]))) for n in r.sample(range(1, last + 1), min(last, 14))]
    # the end of a run, where it is nearly complete
    plan += [(n, k) for n in range(max(1, last - 4), last + 1) for k in ("k", "e28")]
    for n, k in plan:
        src.load(srcsaved)
        w.restore(saved)
        w.emit()
        c.before = w.view()
        w.log.append("%s at %d: %s %s" % (k, n, base.events[n - 1].op, base.events[n - 1].path))
        x = w.run(o, fault={n: k}, observe=False)
        if r.random() < 0.3:
            # and the next one is interrupted as well
            w.run(o, fault={r.randrange(1, last + 1): r.choice(["k", "e5"])}, observe=False)
        mode = r.choice(["again", "again", "again", "later", "moved on"])
        if mode == "later":
            w.advance(5000)
        elif mode == "moved on":
            src.publish()
        recover(ctx, c, then if mode != "moved on" else None, "an interruption (%s at %r)" % (k, base.events[n - 1]), mode + ", over HTTPS")
        ctx.case(("https", name, base.events[n - 1].op, n, k, mode, x.rc), dict(scenario=name, operation=repr(base.events[n - 1]).replace(w.root, ""), fault=k, then=mode) if n % 9 == 0 else None)
    ctx.count("not_modified_answers", sum(1 for _, _, hd in w.server.requests if "if-none-match" in hd or "if-modified-since" in hd))
