"""C06: rsync clients always see one complete, unchanging revision."""
import os

from vlib.history import History, rewrites
from vlib.oracle import RsyncRevision
from vlib.world import Opts

ID, LEVEL = "C06", "exploration"
TECHNIQUE = "runtime monitoring: online monitor of 'current' between any two system calls, with fault injection"
NOTE = "At every observed instant 'current' resolves to one complete, never altered revision, over the explored histories and faults."
RULE = ("One case is one run inside a random history (source operations, session returns, options, faults, clock); between any two operations 'current' is "
        "resolved, a new target must hold exactly one source snapshot's objects, and every directory that ever was current must have its first fingerprint "
        "(content and times) until it is removed. Distinct: (source operation, fault kind, outcome, hosts, number of known revisions).")
ASSUMPTIONS = ["file effects go through libc calls that the monitor interposes"]


def tasks(tier, seed):
    n = 500 if tier == "quick" else 5000
    for i in range(n):
        yield "history", dict(i=i, faults=[0, 0.3, 0.6][i % 3])
    for i in range(40 if tier == "quick" else 500):
        yield "again", dict(i=i)


def history(ctx, i, faults):
    r = ctx.rng
    h = History(ctx, faults=faults, rsync=(True, True, True, True, False), delays=(0, 0, 30), forget=0.06)
    ob = RsyncRevision(ctx, h.complete)
    h.w.observers.append(ob)
    if r.random() < 0.3:
        h.w.tick = 37
    for k in range(r.randrange(5, 14)):
        if r.random() < 0.1:
            h.include_host = not h.include_host
        res, o, fired = h.step()
        s = h.steps[-1]
        ctx.case((s[0], s[1], s[2], o.include_host, o.rsync, len(ob.dirs)) if ob.seen else None, dict(log=h.w.log[-4:], known=len(ob.dirs)) if k == 4 else None)


def again(ctx, i):
    """One session and serial is written several times, while all that was written before is kept."""
    h = History(ctx, faults=0, rsync=(True,), delays=(0,), hosts=ctx.rng.random() < 0.3)
    ob = RsyncRevision(ctx, h.complete)
    h.w.observers.append(ob)
    for k, late, res in rewrites(h, i, Opts(include_host=h.include_host, cleanup=ctx.rng.choice([3600, 100000]))):
        ctx.case(("again", late, res.rc, len(ob.dirs), h.include_host), dict(log=h.w.log[-4:], known=len(ob.dirs)) if k == 2 else None)
