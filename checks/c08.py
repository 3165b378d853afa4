"""C08: superseded content stays available for the cleanup-after time."""
from vlib.history import History, make_source, rewrites
from vlib.oracle import Retention
from vlib.world import Opts, World

ID, LEVEL = "C08", "exploration"
TECHNIQUE = 'runtime monitoring: online retention monitor in virtual time, with fault injection'
NOTE = 'No file or directory that was published disappears earlier than cleanup-after, to a resolution of one second, over the explored histories.'
RULE = ("One case is one run in a random history in virtual time (session changes and returns, delays, faults, reruns); between any two operations every "
        "file that was listed and every directory that was current is checked until cleanup-after seconds after the moment it was last seen published. "
        "Distinct: (source operation, fault kind, outcome, delay, retention, number of superseded items watched).")
ASSUMPTIONS = ["file effects go through libc calls that the monitor interposes", "times have a resolution of one second: removal less than 1 s early is not judged",
               "cleanup-after is the same for the whole history (a run uses the value it is given)"]


def tasks(tier, seed):
    n = 500 if tier == "quick" else 5000
    for i in range(n):
        yield "history", dict(i=i, faults=[0, 0.25, 0.5][i % 3])
    for i in range(80 if tier == "quick" else 1500):
        yield "history", dict(i=i, faults=[0, 0.3][i % 2], moves=0.3)
    for i in range(100 if tier == "quick" else 1500):
        yield "renewed", dict(i=i)
    for i in range(4 if tier == "quick" else 40):
        yield "history", dict(i=i, faults=[0, 0.3][i % 2], many=[60, 45, 120, 90][i % 4] if tier == "quick" else [60, 130, 300, 1100][i % 4])
    for i in range(40 if tier == "quick" else 600):
        yield "again", dict(i=i)


def history(ctx, i, faults, moves=0, many=0):
    r = ctx.rng
    c = r.choice([1, 5, 60, 600, 3600, 3600, 90000, 604800, 10**8, 2**31 + 9, 2**32 + 60])
    h = History(ctx, faults=faults, cleanups=(c,), delays=r.choice([(0,), (0, 3, 50), (0, c + 10), (2 * c,)] if c < 10**9 else [(0,), (0, 50)]), limits=(None, None, 1, 3) if not many else (None, None, None, 2), moves=moves)
    ob = Retention(ctx)
    h.w.observers.append(ob)
    if r.random() < 0.4:
        h.w.tick = r.choice([7, 300])
    if many:
        # many files at once
        h.src.publish_many(many)
        h.remember()
    for k in range(r.randrange(6, 16) if many < 500 else 5):
        res, o, fired = h.step()
        if r.random() < 0.5:
            h.w.advance(r.choice([c // 2, c - 1, c, c + 1, 2 * c] if c < 10**9 else [61, 5000, 10**7]))
        s = h.steps[-1]
        ctx.case((s[0], s[1], s[2], o.delay > c, c, min(9, len(ob.gone) + len(ob.old))) if ob.gone or ob.old else None,
                 dict(log=h.w.log[-4:], watched=len(ob.gone) + len(ob.old)) if k == 5 else None)


def renewed(ctx, i):
    """Files become current again in a run that is interrupted around the publication, and are superseded once more: their time starts anew."""
    r = ctx.rng
    c = r.choice([60, 600, 3600])
    src = make_source(ctx)
    w = World(ctx, src)
    ob = Retention(ctx)
    w.observers.append(ob)
    o = Opts(cleanup=c, rsync=r.random() < 0.5)

    def run(fault=None):
        w.emit()
        w.log.append("src %s %d" % (src.session[:4], src.serial))
        res = w.run(o, fault=fault)
        ctx.case(("renewed", len(w.log), bool(fault), res.rc, c), dict(log=w.log[-4:]) if len(w.log) > 8 else None)
        return res
    for _ in range(r.choice([0, 2])):
        src.publish()
    run()
    a = src.save()
    src.new_session(nobj=2)
    w.advance(r.choice([0, c // 3]))
    run()
    back = r.choice([c // 3, c // 2, c - 2])
    w.advance(back)
    b = src.save()
    src.load(a)
    n = r.choice(["tmp", "note", "state"])
    seen = []

    def fault(ev):
        # right before or after the operation that publishes, and around those that follow
        if ev.op == "rename" and ev.path2 == w.note_path():
            seen.append(ev.seq)
            if n == "note":
                return r.choice(["k", "K"])
        elif seen and n == "state" and ev.path.startswith(w.state):
            if r.random() < 0.3:
                return r.choice(["k", "K", "e28"])
        elif n == "tmp" and ev.op.startswith("open") and ev.path.startswith(w.note_path()):
            return r.choice(["k", "K", "e28"])
        return None
    run(fault)
    w.advance(r.choice([0, 2, c - back - 1]))
    if r.random() < 0.6:
        src.load(b) if r.random() < 0.5 else src.new_session(nobj=1)
    src.publish()
    run()
    for _ in range(3):
        w.advance(r.choice([1, back + 1, c - back, c // 2, c - 1]))
        src.publish()
        run()


def again(ctx, i):
    """One session and serial is written several times, while all that was written before is kept."""
    c = ctx.rng.choice([600, 3600, 100000])
    h = History(ctx, faults=0, rsync=(True,), delays=(0,), hosts=ctx.rng.random() < 0.3)
    ob = Retention(ctx)
    h.w.observers.append(ob)
    for k, late, res in rewrites(h, i, Opts(include_host=h.include_host, cleanup=c)):
        ctx.case(("again", late, res.rc, len(ob.old), h.include_host), dict(log=h.w.log[-4:], watched=len(ob.old)) if k == 2 else None)
