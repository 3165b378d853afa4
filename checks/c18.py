"""C18: the configured delta limit is honoured."""
import os
from vlib import view
from vlib.check import Violation
from vlib.history import History, make_source
from vlib.oracle import check_published
from vlib.world import Opts, World

ID, LEVEL = "C18", "exploration"
TECHNIQUE = "runtime monitoring: recorded opens and requests, published notification compared with the source model under changing limits"
NOTE = "In all explored histories of limits every run succeeds, publishes at most N deltas (the newest) and fetches none beyond them."
RULE = ("One case is one run under a delta limit in a history where the limit is changed, added and removed. Distinct: (transport, limit, previous limit, deltas listed by the source, "
        "deltas published, gap beyond the limit, session changed).")
ASSUMPTIONS = []
LIMITS = [0, 1, 2, 3, 4, 7, 50, 10**6, 2**63, 2**64 - 1, None, None]


def tasks(tier, seed):
    n = 250 if tier == "quick" else 5000
    for i in range(n):
        yield "history", dict(i=i, net=i % 5 == 4)
    for i in range(8 if tier == "quick" else 60):
        yield "history", dict(i=i, net=i % 4 == 3, many=[60, 140, 1100, 300][i % 4])


def history(ctx, i, net, many=0):
    r = ctx.rng
    src = make_source(ctx)
    w = World(ctx, src)
    if net:
        w.serve_tls()
    h = History(ctx, faults=0, src=src, world=w, same=0.05)
    last = "first"
    if many:
        # a long list of deltas
        src.publish_many(many)
        h.remember()
    for k in range(r.randrange(4, 12) if not many else 5):
        if k:
            h.source_op()
        if r.random() < 0.3:
            for _ in range(r.choice([3, 6, 9])):
                src.publish()
            h.remember()
        n = r.choice(LIMITS)
        if many:
            n = [None, r.choice([40, 50, 100, 999, 1000]), None, r.choice([None, 41, 1001]), 2][k]
        o = Opts(source="none" if net else None, max_deltas=n, rsync=r.random() < 0.2, cleanup=r.choice([0, 3600]))
        files = src.files()
        gap = False
        ds = src.deltas
        if n is not None and n > 0 and len(ds) > n + 1 and r.random() < 0.5:
            # a gap among the deltas that the limit hides
            j = r.randrange(1, len(ds) - n)
            ds = ds[:j] + ds[j + 1:]
            gap = True
        elif n == 0 and len(ds) > 2 and r.random() < 0.5:
            ds = ds[:1] + ds[2:]
            gap = True
        files[src.name] = src.notification(deltas=ds)
        # deltas beyond the limit are not even there, or are corrupt
        hidden = r.random() < 0.5
        if hidden and n is not None:
            for s, rel, x in ds[:max(0, len(ds) - n)]:
                if r.random() < 0.5:
                    files.pop(rel, None)
                else:
                    files[rel] = b"corrupt"
        if net:
            w.served = files
            del w.server.requests[:]
        else:
            w.emit(files)
        before = w.view()
        w.log.append("limit %s, %d deltas listed%s%s" % (n, len(ds), ", gap" if gap else "", ", others gone" if hidden else ""))
        res = w.run(o, watch=[w.srcdir])
        if not res.ok:
            raise Violation("a run with delta limit %s fails: %s" % (n, res.brief()), log=w.log[-8:], deltas=[d[0] for d in ds])
        new = before.key() != src.key()
        v = check_published(w, o, before)
        if new and n is not None and len(v.note.deltas) > n:
            raise Violation("%d deltas are published, the limit is %d" % (len(v.note.deltas), n), log=w.log[-8:])
        base = src.base
        if net:
            hp = base[8:].split("/", 1)[1]
            got = [p[1 + len(hp):] for _, p, _ in w.server.requests]
        else:
            got = [os.path.relpath(e.path, w.srcdir) for e in res.infos if e.op == "openr" and e.path.startswith(w.srcdir + "/")]
        may = {src.name, src.snap_rel} | {rel for _, rel, _ in (ds if n is None else ds[-n:] if n else [])}
        if not set(got) <= may:
            raise Violation("with delta limit %s the run fetches %s" % (n, sorted(set(got) - may)), log=w.log[-8:])
        if src.name not in got:
            raise Violation("the run did not look at the notification")
        ctx.count("fetches", len(got))
        ctx.count("deltas_published", len(v.note.deltas))
        ctx.case((net, n, last, min(9, len(ds)), min(9, len(v.note.deltas)), gap, hidden, before.note is not None and before.note.session == src.session), dict(log=w.log[-2:], published=[d[0] for d in v.note.deltas]) if k == 3 else None)
        last = n
        w.advance(r.choice([0, 10, 5000]))
