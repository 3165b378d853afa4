"""C02: a successful sync publishes exactly the source's content."""
import os

from vlib import view
from vlib.check import Violation
from vlib.history import History, make_source
from vlib.oracle import check_published, check_rsync
from vlib.source import LAYOUTS
from vlib.world import Opts, World

ID, LEVEL = "C02", "exploration"
TECHNIQUE = 'runtime monitoring: offline comparison of the published files with a reference model of the source'
NOTE = 'After each successful run of the explored histories, notification, snapshot and deltas equal the source model byte by byte.'
RULE = ("One case is one successful run in a random history of source operations, delta limits, option changes and faults; everything it published is "
        "compared with the source model byte by byte. Distinct: (source operation, outcome class, delta counts before and after, limit, layout).")
ASSUMPTIONS = ["the source does not re-use a URI for other content"]


def tasks(tier, seed):
    n = 600 if tier == "quick" else 6000
    for i in range(n):
        yield "history", dict(i=i, faults=[0, 0, 0.35][i % 3], layout=LAYOUTS[i % len(LAYOUTS)])
    for i in range(30 if tier == "quick" else 400):
        yield "rebase", dict(i=i)
    for i in range(60 if tier == "quick" else 800):
        yield "strays", dict(i=i)


def history(ctx, i, faults, layout):
    h = History(ctx, faults=faults, layout=layout, delays=(0, 0, 7), hosts=None, forget=0.04)
    for k in range(ctx.rng.randrange(5, 14)):
        before = h.w.view()
        dirty = h.interrupted
        res, o, fired = h.step()
        if not fired and not res.ok:
            raise Violation("undisturbed run fails: " + res.brief(), log=h.w.log[-8:])
        if not res.ok:
            continue
        v = check_published(h.w, o, before)
        if not fired:
            h.interrupted = False
        nb = (len(before.note.deltas), before.note.session == v.note.session, min(5, v.note.serial - before.note.serial)) if before.note else None
        ctx.case((h.steps[-1][0], nb, len(v.note.deltas), o.max_deltas, layout, bool(fired)), dict(log=h.w.log[-3:], published=v.key(), deltas=[d[0] for d in v.note.deltas]) if k == 4 else None)
        ctx.count("files_compared", 1 + len(v.note.deltas))


def rebase(ctx, i):
    """The notification URI or the RRDP directory changes between runs."""
    r = ctx.rng
    src = make_source(ctx)
    w = World(ctx, src)
    o = Opts(max_deltas=r.choice([None, 2]))
    last = None
    for k in range(6):
        if r.random() < 0.5:
            src.publish()
        x = r.randrange(5)
        if x == 0:
            src.base = r.choice(["https://rrdp.example.net/rrdp/", "https://other.example/x/y/", "https://rrdp.example.net/"])
        elif x == 1:
            src.name = r.choice(["notification.xml", "n2.xml", "other"])
        elif x == 2:
            w.rrdp = w.root + r.choice(["/rrdp", "/rrdp2", "/deep/er/rrdp"])
        src.uri = src.base + src.name
        w.emit()
        w.log.append("src %s %d at %s in %s" % (src.session[:4], src.serial, src.uri, w.rrdp))
        w.must(o)
        v = check_published(w, o, None if x <= 2 else last, weak=True)
        last = v
        ctx.case((x, len(v.note.deltas), k == 0))
        w.advance(r.choice([0, 5, 5000]))


def strays(ctx, i):
    """Where the next files go, in the RRDP directory or in the staging area, there are other files already:
    what a crash, a full disk or another program left behind."""
    r = ctx.rng
    src = make_source(ctx, layout=LAYOUTS[i % len(LAYOUTS)])
    w = World(ctx, src)
    w.xdev = [None, None, "link"][r.randrange(3)] and w.rrdp
    outside = ctx.scratch("outside")
    for k in range(5):
        src.publish() if r.random() < 0.8 or not k else src.new_session()
        w.emit()
        rels = [src.name, src.snap_rel] + [rel for _, rel, _ in src.deltas]
        r.shuffle(rels)
        did = []
        for rel in rels[:r.choice([1, 2, 4])]:
            root = r.choice([w.rrdp, w.rrdp, os.path.join(w.state, "pre-validate-staging")])
            p = os.path.join(root, rel)
            if os.path.lexists(p) and root == w.rrdp:
                continue        # published, or has been
            good = src.files()[rel]
            kind = r.choice(["part", "part", "empty", "junk", "longer", "other", "link", "readonly", "hardlink"] if root == w.rrdp else ["part", "part", "empty", "junk", "longer", "other", "readonly"])
            data = {"part": good[:r.randrange(len(good))], "empty": b"", "longer": good + b"x", "other": good.replace(b"0", b"1").replace(b"a", b"b")}.get(kind, r.randbytes(len(good)))
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if os.path.isdir(p):
                    continue
                if os.path.lexists(p):
                    os.unlink(p)
                if kind in ("link", "hardlink"):
                    q = os.path.join(outside, "f%d" % len(os.listdir(outside)))
                    with open(q, "wb") as f:
                        f.write(b"outside")
                    (os.symlink if kind == "link" else os.link)(q, p)
                else:
                    with open(p, "wb") as f:
                        f.write(data)
                    if kind == "readonly":
                        os.chmod(p, 0o444)
            except (FileExistsError, NotADirectoryError):
                continue
            did.append((kind, os.path.basename(root)))
        o = Opts(max_deltas=r.choice([None, None, 2]), delay=r.choice([0, 5]), verbose=r.choice([0, 3]))
        before = w.view()
        w.log.append("src %s strays %s" % (src.key(), did))
        w.must(o, "files in the way: %s" % did)
        check_published(w, o, before)
        check_rsync(w, src.objects, o.include_host)
        for n in os.listdir(outside):
            if view.read_file(os.path.join(outside, n)) != b"outside":
                raise Violation("a file that a stray link led to was changed: %s" % did, log=w.log[-6:])
        ctx.case(("strays", tuple(sorted(did)), k == 0, bool(w.xdev)), dict(log=w.log[-2:]) if k == 3 else None)
        ctx.count("strays", len(did))
        w.advance(r.choice([0, 5, 5000]))
