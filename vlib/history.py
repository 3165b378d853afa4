"""Random histories of a source and of runs against it."""
import os, shutil

from . import view
from .source import LAYOUTS, Source, Style
from .world import Opts, World


def make_source(ctx, layout=None, **kw):
    r = ctx.rng
    base = r.choice(["https://rrdp.example.net/rrdp/", "https://rrdp.example.net/", "https://h.example:8443/a/B-c/d/"])
    name = r.choice(["notification.xml", "notification.xml", "notify.v1", "n"])
    return Source(r, base=kw.pop("base", base), name=kw.pop("name", name), layout=layout or r.choice(LAYOUTS), style=Style(r),
                  nobj=kw.pop("nobj", r.choice([0, 1, 3, 6])), **kw)


class History:
    CLEANUPS = (0, 1, 60, 600, 3600)
    DELAYS = (0, 0, 0, 5, 61, 4000)
    LIMITS = (None, None, None, 0, 1, 2, 5)

    def __init__(self, ctx, faults=0.3, layout=None, xdev=None, rsync=(True, True, True, False), hosts=None, sessions=True, world=None, src=None,
                 cleanups=None, delays=None, limits=None, drops=True, same=0.15, moves=0, forget=0, net=0.1):
        self.ctx, self.rng = ctx, ctx.rng
        self.src = src or make_source(ctx, layout)
        self.w = world or World(ctx, self.src)
        self.faults, self.rsync, self.sessions, self.drops, self.same = faults, rsync, sessions, drops, same
        self.cleanups, self.delays, self.limits = cleanups or self.CLEANUPS, delays or self.DELAYS, limits or self.LIMITS
        self.include_host = self.rng.random() < 0.3 if hosts is None else hosts
        self.parked = []
        self.moves, self.moved, self.forget = moves, 0, forget
        self.trees = set()
        self.all = {}
        self.remember()
        self.last_n = 40
        self.interrupted = False
        if world is None and self.rng.random() < net:
            self.w.over_tls()
        if xdev if xdev is not None else self.rng.random() < 0.25:
            self.w.xdev = self.w.rrdp
        self.default_cleanup = self.rng.choice(self.cleanups)
        self.steps = []

    def remember(self):
        """All complete trees that the source has ever had."""
        for s, objs in self.src.history.items():
            k = (self.src.session, s)
            if k not in self.all:
                self.all[k] = dict(objs)
                for h in (False, True):
                    self.trees.add(view.tree_digest(view.rsync_expected(objs, h)))

    def complete(self, tree):
        return view.tree_digest(tree) in self.trees

    def source_op(self):
        r, s = self.rng, self.src
        x = r.random()
        if x < self.same:
            op = "same"
        elif x < 0.62 or not self.sessions:
            n = r.choice([1, 1, 1, 2, 3])
            for _ in range(n):
                s.publish()
            op = "pub%d" % n
        elif x < 0.72:
            self.parked.append(s.save())
            s.new_session(nobj=r.choice([0, 2, 5]))
            op = "newsession"
        elif x < 0.86 and self.parked:
            p = self.parked.pop(r.randrange(len(self.parked)))
            self.parked.append(s.save())
            s.load(p)
            op = "return"
            if r.random() < 0.5:
                s.publish()
                op += "+pub"
        else:
            s.publish()
            if self.drops:
                s.drop_deltas(r.choice([0, 1, 1, 2, 3]))
            op = "pub+drop"
        self.remember()
        if self.moves and r.random() < self.moves:
            # another notification URI, one that was not used before
            self.moved += 1
            self.w.bases.append(s.base)
            if r.random() < 0.7:
                s.base = "https://m%d.example/%s" % (self.moved, r.choice(["", "x/y/"]))
            if r.random() < 0.5:
                s.name = "moved%d.xml" % self.moved
            s.uri = s.base + s.name
            op += "+move"
        self.w.emit()
        self.w.log.append("src:%s -> %s/%d" % (op, s.session[:4], s.serial))
        return op

    def options(self):
        r = self.rng
        return Opts(delay=r.choice(self.delays), max_deltas=r.choice(self.limits), rsync=r.choice(self.rsync), include_host=self.include_host,
                    cleanup=self.default_cleanup if r.random() < 0.8 else r.choice(self.cleanups))

    def fault(self):
        """A fault at one random operation: (function, description)."""
        r = self.rng
        n = r.randrange(1, max(2, int(self.last_n * 1.1)))
        kind = r.choice(["k", "k", "K", "e28", "e5", "e13", "s", "p", "f"])
        fired = []

        def f(ev):
            if ev.seq == n:
                fired.append(ev)
                if kind in "spf":
                    if ev.op != "write" or ev.num < 2:
                        return "k"
                    m = r.randrange(0 if kind != "s" else 1, ev.num)
                    return {"s": "s%d" % m, "p": "p%d" % m, "f": "f%d,28" % m}[kind]
                return kind
            return None
        return f, "%s@%d" % (kind, n), fired

    def step(self):
        """One source operation, one run -> (result, options, fault fired?)"""
        r = self.rng
        op = self.source_op()
        o = self.options()
        if self.forget and r.random() < self.forget:
            # the state directory is lost, what is published is still there
            what = r.choice(["", "rrdp-state.json", "rsync-state.json"])
            if not what:
                shutil.rmtree(self.w.state, ignore_errors=True)
            elif os.path.exists(os.path.join(self.w.state, what)):
                os.unlink(os.path.join(self.w.state, what))
            self.w.log.append("lost: state/" + what)
            op += "+lostrsync" if what == "rsync-state.json" else "+lost"
        f, fd, fired = (None, "", [])
        reads = False
        if r.random() < self.faults:
            f, fd, fired = self.fault()
            reads = r.random() < 0.2
        res = self.w.run(o, fault=f, reads=reads)
        if fd:
            self.w.log[-1] += "[%s]" % fd
        if fired:
            self.interrupted = True
            self.ctx.count("faults_injected")
        else:
            self.last_n = max(10, len(res.events)) if res.events else self.last_n
        adv = r.choice([0, 0, 1, 2, 30, 61, 700, 4000])
        if adv:
            self.w.advance(adv)
        self.steps.append((op, fd and fd[0], res.rc == 0, o.delay > 0, o.max_deltas, o.cleanup))
        return res, o, bool(fired)


def rewrites(h, i, o, stops=1):
    """One session and serial is written several times, in runs that are stopped late, or when a
    source returns. Yields after each run: (number, stopped late?, result)."""
    w, src, r = h.w, h.src, h.rng
    if r.random() < 0.5:
        w.emit()
        w.must(o)
    for _ in range(r.choice([1, 2])):
        src.publish()
        h.remember()
    w.emit()
    for k in range(r.choice([3, 4, 6])):
        stop = stops and (i % 2 == 0 if i % 3 else r.random() < 0.5)
        if stop:
            # stopped when the new revision is in place, but before the notification is, or before that is known
            late = []
            n = r.choice([0, 0, 1, 2])

            def fault(ev):
                if ev.op == "rename" and ev.path2 == os.path.join(w.rsync, "current"):
                    late.append(0)
                    return None
                if late and ev.op in ("open-w", "rename", "write"):
                    late.append(ev)
                    if len(late) > n + 1:
                        return r.choice(["k", "K", "e28"])
                return None
            w.log.append("stopped late")
            res = w.run(o, fault=fault)
        else:
            sv = src.save()
            src.new_session(nobj=1)
            h.remember()
            w.emit()
            w.must(o)
            src.load(sv)
            w.emit()
            w.log.append("away and back")
            res = w.must(o)
        w.advance(r.choice([0, 1, 60]))
        yield k, stop, res
    w.log.append("to the end")
    w.must(o)
