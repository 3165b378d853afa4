"""C19: the notification delay separates new files from the notification."""
import os
from vlib import view
from vlib.history import History
from vlib.oracle import Observer, within
from vlib.check import Violation

ID, LEVEL = "C19", "exploration"
TECHNIQUE = "runtime monitoring: online monitor of first-seen times in virtual time, between any two system calls"
NOTE = "In all explored histories every file listed by a new notification was complete in place for the whole delay, and the old view stayed available meanwhile."
RULE = ("One case is one run that replaced the notification. Distinct: (delay, source operation, files new in it, interrupted before, retention, first run or not).")
ASSUMPTIONS = ["file effects and sleeping go through libc calls that the monitor interposes"]


class Delay(Observer):
    def __init__(self, ctx):
        self.ctx = ctx
        self.first = {}          # (path, hash) -> time it was first seen complete
        self.data = None
        self.listed = {}
        self.changed = []

    def save(self):
        return dict(first=dict(self.first), data=self.data, listed=dict(self.listed), changed=[])

    def begin(self, w, o, t):
        self.changed = []
        super().begin(w, o, t)

    def relevant(self, ev):
        return within(ev, self.w.rrdp)

    def sight(self, t, ev):
        now = {}
        for dp, _, fn in os.walk(self.w.rrdp):
            for f in fn:
                p = os.path.join(dp, f)
                h = view.file_hash(p)
                if h is not None:
                    now[(p, h)] = self.first.get((p, h), t)
        self.first = now
        note = os.path.join(self.w.rrdp, self.w.src.name)
        data = view.read_file(note)
        self.ctx.count("instants")
        if data == self.data:
            for p, h in self.listed.items():
                if (p, h) not in now:
                    self.fail("%s, which the present notification lists, is not available" % os.path.relpath(p, self.w.rrdp), ev)
            return
        v = self.w.view()
        if v.problems:
            self.fail("; ".join(v.problems[:2]), ev)
        fresh = 0
        for p, h in v.listed.items():
            age = t - now[(p, h)]
            if p not in self.listed or self.listed[p] != h:
                fresh += 1
                self.ctx.count("new_files_timed")
                if age < self.o.delay * 1000:
                    self.fail("the notification lists %s, which has been there for %.3f s; the delay is %d s" % (os.path.relpath(p, self.w.rrdp), age / 1000, self.o.delay), ev)
        self.changed.append(fresh)
        self.data, self.listed = data, dict(v.listed)


def tasks(tier, seed):
    n = 300 if tier == "quick" else 6000
    for i in range(n):
        yield "history", dict(i=i, faults=[0, 0, 0.3][i % 3])


def history(ctx, i, faults):
    r = ctx.rng
    h = History(ctx, faults=faults, delays=(0, 1, 2, 30, 600, 4000, 10**6), cleanups=(0, 1, 10, 3600))
    ob = Delay(ctx)
    h.w.observers.append(ob)
    h.w.tick = r.choice([0, 0, 5, 400])
    for k in range(r.randrange(4, 11)):
        res, o, fired = h.step()
        if o.delay == 0 and res.slept_ms:
            raise Violation("a run without a delay waits for %d ms" % res.slept_ms, log=h.w.log[-4:])
        if len(ob.changed) > 1:
            raise Violation("the notification changed %d times in one run" % len(ob.changed), log=h.w.log[-4:])
        ctx.count("virtual_wait_s", res.slept_ms // 1000)
        for fresh in ob.changed:
            ctx.case((o.delay, h.steps[-1][0], min(fresh, 5), h.interrupted, o.cleanup, k == 0), dict(log=h.w.log[-3:], waited_ms=res.slept_ms) if k == 3 else None)
