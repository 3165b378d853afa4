"""C20: relying parties stay in sync through the published deltas."""
from vlib import view
from vlib.check import Violation
from vlib.history import History, make_source
from vlib.oracle import check_published
from vlib.world import Opts, World

ID, LEVEL = "C20", "exploration"
TECHNIQUE = "runtime monitoring: relying-party model that follows the published deltas, compared with the published snapshot"
NOTE = "In all explored histories every relying party that finds a delta path ends with the objects of the published snapshot, and the path is offered when it has to be."
RULE = ("One case is one relying party (content of an earlier published serial) that looks at the result of one run. Distinct: (outcome, serials behind, limit, source operation, "
        "interrupted runs before, objects).")
ASSUMPTIONS = ["the source's own deltas and snapshots agree"]


def tasks(tier, seed):
    n = 300 if tier == "quick" else 6000
    for i in range(n):
        yield "history", dict(i=i, faults=[0, 0, 0.35][i % 3])
    for i in range(3 if tier == "quick" else 30):
        yield "history", dict(i=i, faults=0, many=[60, 130, 300][i % 3] if tier == "quick" else [60, 300, 1100][i % 3])


def history(ctx, i, faults, many=0):
    r = ctx.rng
    h = History(ctx, faults=faults, delays=(0, 0, 9), sessions=i % 2 == 0, limits=(None, None, None, 0, 1, 2, 4), same=0.1)
    parties = {}
    if many:
        # a relying party from before a long list of deltas
        h.src.publish()
        h.remember()
        h.w.emit()
        h.w.must(Opts())
        parties[h.src.key()] = dict(h.src.objects)
        h.src.publish_many(many)
        h.remember()
    for k in range(r.randrange(6, 15) if not many else 4):
        v0 = h.w.view()
        res, o, fired = h.step()
        v = h.w.view()
        if v.note is None:
            continue
        # the published snapshot, read from the published file
        rel = v.note.snapshot[0][len(h.src.base):]
        s, n, objs = view.read_snapshot(view.read_file(h.w.rrdp + "/" + rel))
        if (s, n) != (v.note.session, v.note.serial):
            raise Violation("the snapshot is for %s/%d, the notification for %s/%d" % (s, n, v.note.session, v.note.serial), log=h.w.log[-6:])
        if res.ok and objs != h.src.objects:
            raise Violation("the published snapshot does not have the source's objects: %s" % view.diff(h.src.objects, objs), log=h.w.log[-6:])
        wanted = None
        if res.ok and v0.note and v0.note.session == v.note.session and v0.note.serial < v.note.serial:
            need = set(range(v0.note.serial + 1, v.note.serial + 1))
            if need <= {d[0] for d in h.src.listed(o.max_deltas)}:
                wanted = v0.note.serial
        for (ps, pn), po in list(parties.items()):
            rp = view.RelyingParty(ps, pn, po)
            out = rp.sync(v)
            if out not in ("deltas", "nopath", "same"):
                raise Violation("a relying party at serial %d can not use the deltas: %s" % (pn, out), log=h.w.log[-8:])
            if out == "deltas":
                ctx.count("delta_paths_followed")
            if out in ("deltas", "same") and rp.objects != objs:
                raise Violation("a relying party that went from serial %d to %d by deltas does not have the snapshot's objects: %s" % (pn, v.note.serial, view.diff(objs, rp.objects)), log=h.w.log[-8:])
            if out == "nopath" and wanted is not None and (ps, pn) == (v.note.session, wanted):
                raise Violation("no delta path from the previously published serial %d to %d, although the source lists it" % (pn, v.note.serial), log=h.w.log[-8:], published=[d[0] for d in v.note.deltas])
            if wanted is not None and (ps, pn) == (v.note.session, wanted):
                ctx.count("paths_that_must_be_offered")
            ctx.case((out, min(9, v.note.serial - pn) if ps == v.note.session else "other", o.max_deltas, h.steps[-1][0], h.interrupted, min(5, len(objs))) if out != "nopath" else None,
                     dict(log=h.w.log[-3:], party=(ps[:8], pn), published=[d[0] for d in v.note.deltas]) if out == "deltas" and k == 4 else None)
        parties[(v.note.session, v.note.serial)] = objs
        while len(parties) > 12:
            parties.pop(next(iter(parties)))
