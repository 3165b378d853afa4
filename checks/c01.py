"""C01: the public RRDP view is consistent at every instant."""
from vlib import view
from vlib.history import History, make_source
from vlib.oracle import PublicView
from vlib.world import Opts, World

ID, LEVEL = "C01", "exploration"
TECHNIQUE = 'runtime monitoring: online monitor of the public RRDP view between any two system calls, with fault injection'
NOTE = 'Every listed file is present with its hash at every observed instant of the explored histories, faults and option values. Assumes a source that never re-uses a URI for other content.'
RULE = ("One case is one run inside a random history (source operations, options, faults, clock); the public view is read and judged between any two "
        "operations. Distinct and non-trivial: distinct (source operation, fault kind, outcome, delay, limit, retention) with at least one published notification.")
ASSUMPTIONS = ["file effects go through libc calls that the monitor interposes", "the source does not re-use a URI for other content"]


def tasks(tier, seed):
    n = 500 if tier == "quick" else 12000
    for i in range(n):
        yield "history", dict(i=i, faults=[0, 0.3, 0.5][i % 3])
    for i in range(60 if tier == "quick" else 1000):
        yield "siblings", dict(i=i)
    for i in range(40 if tier == "quick" else 800):
        yield "moves", dict(i=i)


def history(ctx, i, faults):
    h = History(ctx, faults=faults, forget=0.05)
    ob = PublicView(ctx)
    h.w.observers.append(ob)
    if ctx.rng.random() < 0.3:
        h.w.tick = 37
    for k in range(ctx.rng.randrange(5, 12)):
        res, o, fired = h.step()
        ctx.case(h.steps[-1] if ob.seen else None, dict(log=h.w.log[-4:]) if k == 4 else None)


def siblings(ctx, i):
    """Names that differ in what programs append for their own use are all listed at the same time."""
    r = ctx.rng
    h = History(ctx, faults=0.15, layout="sibling", xdev=i % 3 > 0, sessions=False, drops=False, same=0, limits=(None, None, 6), delays=(0, 0, 5), rsync=(False,))
    ob = PublicView(ctx)
    h.w.observers.append(ob)
    for k in range(r.randrange(5, 9)):
        res, o, fired = h.step()
        ctx.case(("sibling", h.steps[-1], bool(h.w.xdev), len(h.src.deltas)) if ob.seen else None)


class MovingView(PublicView):
    """As PublicView, but the notification may still be the one that was published for an earlier URI."""
    bases, pending = (), False
    left = ()        # (directory, base, name) of notifications in directories that are no longer used

    def sight(self, t, ev):
        for x in self.left:
            v = view.RrdpView(*x)
            if v.problems or v.note is None:
                self.fail("a directory that is no longer used is not as it was left: " + "; ".join(v.problems[:3]), ev)
        v = self.w.view()
        if self.pending:
            # what an earlier use of this name and directory has left does not count
            if v.note is None or v.key() != self.w.src.key() or not v.note.snapshot[0].startswith(self.w.src.base):
                return
            self.pending = False
        if v.note is not None:
            b = max((b for b in self.bases if v.note.snapshot[0].startswith(b)), key=len, default=self.w.src.base)
            v = view.RrdpView(self.w.rrdp, b, self.w.src.name)
        self.ctx.count("instants_rrdp")
        if v.problems:
            self.fail("public RRDP view broken: " + "; ".join(v.problems[:3]), ev, instant=t)
        if v.note is None and self.seen:
            self.fail("the notification file is gone", ev)
        self.seen = self.seen or v.note is not None


def moves(ctx, i):
    """The source moves to another URI, with old and new files in the same RRDP directory."""
    r = ctx.rng
    src = make_source(ctx)
    w = World(ctx, src)
    ob = MovingView(ctx)
    w.observers.append(ob)
    dirs = [w.rrdp, w.root + "/deep/er/rrdp"]
    bases = [src.base, "https://rrdp.example.net/rrdp/", "https://other.example/x/y/"]
    ob.left = []
    ob.bases = [b for b in bases if b != "https://rrdp.example.net/"] + ["https://rrdp.example.net/"]
    for k in range(7):
        x = r.randrange(6)
        if x < 2:
            src.publish()
        elif x == 2:
            src.base = r.choice(bases)
        elif x == 3:
            v = w.view()
            was = (w.rrdp, next((b for b in ob.bases if v.note and v.note.snapshot[0].startswith(b)), None), src.name)
            w.rrdp = dirs[w.rrdp == dirs[0]]
            if r.random() < 0.6:
                src.publish()
            ob.left = [y for y in ob.left if y[0] != w.rrdp]
            if was[0] != w.rrdp and was[1] and not view.RrdpView(*was).problems:
                ob.left.append(was)
        elif x == 4:
            src.new_session()
        else:
            src.name = r.choice(["notification.xml", "n2.xml", "other"])
        if x in (3, 5):
            ob.seen, ob.pending = False, True
        src.uri = src.base + src.name
        w.emit()
        w.log.append("src %s %d at %s in %s" % (src.session[:4], src.serial, src.uri, w.rrdp))
        f = {r.randrange(5, 60): r.choice(["k", "K", "e28"])} if r.random() < 0.3 else None
        w.run(Opts(cleanup=r.choice([0, 5, 600]), rsync=r.random() < 0.5), fault=f)
        ctx.case(("moves", x, k == 0, f is None))
        w.advance(r.choice([0, 5, 700]))
