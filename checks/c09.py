"""C09: expired content is removed, and nothing else ever is."""
import os, re
from vlib import view
from vlib.check import Violation
from vlib.history import History, make_source, rewrites
from vlib.oracle import Retention
from vlib.source import LAYOUTS
from vlib.world import Opts, World

ID, LEVEL = "C09", "exploration"
TECHNIQUE = "runtime monitoring: online monitor of publication times in virtual time, planted foreign files fingerprinted after every run, with fault injection"
NOTE = "In all explored histories expired files, directories and revisions are gone after the next successful sync, and planted foreign files are never touched."
RULE = ("One case is one run. Distinct: (source operation, fault kind, outcome, retention, rsync, items expired before the run, foreign items present).")
ASSUMPTIONS = ["times have a resolution of one second: content is only expected to be gone when it expired at least a second before the run started"]


def tasks(tier, seed):
    n = 400 if tier == "quick" else 8000
    for i in range(n):
        yield "history", dict(i=i, faults=[0, 0, 0.4][i % 3])
    for i in range(80 if tier == "quick" else 1500):
        yield "history", dict(i=i, faults=[0, 0, 0.4][i % 3], moves=0.3)
    for i in range(40 if tier == "quick" else 600):
        yield "again", dict(i=i)
    for i in range(24 if tier == "quick" else 400):
        yield "many", dict(i=i)


def plant(ctx, w, r, foreign):
    """-> {path: kind} of foreign items."""
    out = {}
    dirs = [w.rrdp] + [os.path.join(dp, d) for dp, dn, _ in os.walk(w.rrdp) for d in dn if not os.path.islink(os.path.join(dp, d))]
    for _ in range(r.choice([1, 2, 4])):
        d = r.choice(dirs + [w.rsync, w.rsync, w.rrdp])
        if d == w.rsync or d.startswith(w.rsync):
            name = r.choice(["README", "foreign-%d" % r.randrange(99), "session_old", "session_%s_serial_x" % w.src.session, "current.old", "motd.txt", ".hidden"])
        else:
            name = r.choice(["index.html", "foreign-%d.xml" % r.randrange(99), ".well-known", "snapshot.xml.bak", "rrdp-test", "robots.txt", "x.tmp"])
        p = os.path.join(d, name)
        if os.path.lexists(p) or not os.path.isdir(d) or is_foreign(p, foreign) or is_foreign(p, out):
            continue
        k = r.choice(["file", "file", "dir", "emptydir", "link", "deaddir"])
        if k == "file":
            with open(p, "w") as f:
                f.write("foreign")
            os.utime(p, (1_000_000_000, 1_000_000_000))
        elif k in ("dir", "deaddir"):
            os.makedirs(os.path.join(p, "a/b") if k == "deaddir" else p)
            if k == "dir":
                with open(os.path.join(p, "f.xml"), "w") as f:
                    f.write("x")
        elif k == "emptydir":
            os.mkdir(p)
        else:
            os.symlink(r.choice(["/nonexistent", "..", "/tmp"]), p)
        out[p] = k
    return out


def look(p):
    if os.path.isdir(p) and not os.path.islink(p):
        fp = view.fingerprint(p)
        return ("d", sorted((k, v if v[0] != "d" else "d") for k, v in fp.items()))
    if os.path.islink(p):
        return ("l", os.readlink(p))
    return ("f", view.read_file(p), os.stat(p).st_mtime_ns) if os.path.exists(p) else None


def is_foreign(p, foreign):
    return any(p == f or p.startswith(f + "/") for f in foreign)


def history(ctx, i, faults, moves=0):
    r = ctx.rng
    c = r.choice([0, 1, 5, 60, 3600, 3600, 90000, 604800])
    h = History(ctx, faults=faults, cleanups=(c,) if r.random() < 0.7 else (c, 0, 600), delays=r.choice([(0,), (0, 3, 50), (0, c + 10)]), limits=(None, None, 0, 1, 3), moves=moves)
    w = h.w
    ob = Retention(ctx)
    w.observers.append(ob)
    foreign = {}
    known = {}
    clean = True
    os.makedirs(w.rrdp)
    os.makedirs(w.rsync)
    for k in range(r.randrange(6, 16)):
        if r.random() < 0.3:
            for p in plant(ctx, w, r, foreign):
                foreign[p] = look(p)
        before = w.view()
        gone = dict(ob.gone)
        old = dict(ob.old)
        t0 = w.now_ms
        res, o, fired = h.step()
        for p, was in foreign.items():
            now = look(p)
            if now != was:
                raise Violation("a run %s the foreign %s" % ("removed" if now is None else "changed", os.path.relpath(p, w.root)), log=w.log[-8:], was=str(was)[:200], now=str(now)[:200])
        ctx.count("foreign_items_checked", len(foreign))
        v = w.view()
        if v.problems:
            raise Violation("published content was removed or altered: " + "; ".join(v.problems[:2]), log=w.log[-8:])
        if fired or not res.ok:
            clean = False
        now_clean = res.ok and not fired
        if clean:
            t_of = lambda p, since: since
        else:
            # An interrupted run may not have noted the time; that starts with the next complete run.
            t_of = lambda p, since: max(since, known[p]) if p in known else t0
        expired = 0
        if now_clean and before.key() != h.src.key():
            limit = t0 - o.cleanup * 1000 - 1000
            for p, (hh, since) in gone.items():
                if t_of(p, since) <= limit and p not in v.listed:
                    expired += 1
                    if os.path.lexists(p):
                        raise Violation("%s is still there; it is not published since %.1f s, cleanup-after is %d s" % (os.path.relpath(p, w.rrdp), (w.now_ms - since) / 1000, o.cleanup), log=w.log[-40:])
            for dp, dn, fn in os.walk(w.rrdp) if clean else ():
                if dp != w.rrdp and not dn and not fn and not is_foreign(dp, foreign):
                    raise Violation("the directory %s is left empty" % os.path.relpath(dp, w.rrdp), log=w.log[-10:])
            if o.rsync:
                for d, (dg, since) in old.items():
                    if t_of(d, since) <= limit and d != ob.cur[0]:
                        expired += 1
                        if os.path.lexists(d):
                            raise Violation("the rsync directory %s is still there; it is not current since %.1f s, cleanup-after is %d s" % (os.path.basename(d), (w.now_ms - since) / 1000, o.cleanup), log=w.log[-10:])
            ctx.count("expired_items_gone", expired)
        if fired or not res.ok:
            # ... nor had what it was about to publish again stopped being published, as far as it knows
            src = h.src
            for rel in [src.snap_rel] + [d[1] for d in src.deltas]:
                known.pop(os.path.join(w.rrdp, rel), None)
            for p in list(known):
                if re.fullmatch("session_%s_serial_%d(_[0-9]+)?" % (src.session, src.serial), os.path.basename(p)):
                    del known[p]
        for p in list(known):
            if p not in ob.gone and p not in ob.old:
                del known[p]
        if now_clean:
            for p in ob.gone:
                known.setdefault(p, w.now_ms)
            if o.rsync and before.key() != h.src.key():
                for p in ob.old:
                    known.setdefault(p, w.now_ms)
        s = h.steps[-1]
        ctx.case((s[0], s[1], s[2], o.cleanup, o.rsync, min(4, expired), min(3, len(foreign))), dict(log=w.log[-4:], expired=expired, foreign=[os.path.relpath(p, w.root) for p in foreign][:4]) if k == 5 else None)
        if r.random() < 0.6:
            w.advance(r.choice([max(0, c - 1), c, c + 2, 2 * c + 2, 5000]))


def again(ctx, i):
    """One session and serial is written several times; what was current each time is removed in the end."""
    r = ctx.rng
    c = r.choice([600, 3600, 100000])
    h = History(ctx, faults=0, rsync=(True,), delays=(0,), hosts=r.random() < 0.3)
    w, o = h.w, Opts(include_host=h.include_host, cleanup=c)
    ob = Retention(ctx)
    w.observers.append(ob)
    for k, late, res in rewrites(h, i, o, stops=0):
        pass
    n = len(ob.old)
    for k in range(2):
        w.advance(c + 2)
        h.src.publish()
        w.emit()
        w.must(o)
    ex, cur = view.current_dir(w.rsync)
    for d in os.listdir(w.rsync):
        p = os.path.join(w.rsync, d)
        if d.startswith("session_") and p != cur and p not in ob.old:
            raise Violation("the rsync directory %s is still there; it is not current for more than %d s, which is cleanup-after" % (d, c), log=w.log[-20:])
    if len(ob.old) > 1:
        raise Violation("%d rsync directories are kept after all but one have expired" % len(ob.old), log=w.log[-20:])
    ctx.case(("again", n, h.include_host, c), dict(log=w.log[-4:], superseded=n))


def many(ctx, i):
    """Many files and revisions whose time has come at once: nothing but what is published is left."""
    r = ctx.rng
    src = make_source(ctx, layout=LAYOUTS[i % len(LAYOUTS)], nobj=r.choice([0, 2]))
    w = World(ctx, src)
    if r.random() < 0.3:
        w.xdev = w.rrdp
    o = Opts(cleanup=r.choice([60, 3600]), rsync=r.random() < 0.8)
    n = r.choice([20, 33, 60, 101, 150, 257]) if i % 2 else r.choice([3, 12])
    runs = r.choice([1, 2]) if i % 2 else r.choice([12, 20, 35])
    if i % 2:
        src.publish_many(n)
    for k in range(runs):
        if k:
            src.publish()
        w.emit()
        w.must(o)
    if r.random() < 0.6:
        src.new_session(nobj=2)
    else:
        src.publish()
        src.drop_deltas(r.choice([0, 1]))
    w.emit()
    w.must(o)
    w.advance(o.cleanup + r.choice([1, 5, 4000]))
    src.publish()
    w.emit()
    before = set(w.view().listed)
    w.must(o)
    # what was listed until the last run waits for its time
    want = {os.path.join(w.rrdp, src.name)} | set(w.view().listed) | before
    have = {os.path.join(dp, f) for dp, _, fn in os.walk(w.rrdp) for f in fn}
    empty = [dp for dp, dn, fn in os.walk(w.rrdp) if not dn and not fn]
    late = have - want
    ctx.count("files_expired_at_once", n if i % 2 else runs)
    if late or empty:
        raise Violation("%d files whose time has come, and %d empty directories, are left: %s" % (len(late), len(empty), [os.path.relpath(p, w.rrdp) for p in sorted(late) + empty][:6]), log=w.log[-8:], left=sorted(late)[:40])
    if o.rsync:
        dirs = [d for d in os.listdir(w.rsync) if d != "current"]
        if len(dirs) > 2:
            raise Violation("%d rsync directories are left, most of which have expired: %s" % (len(dirs), sorted(dirs)[:6]), log=w.log[-8:])
    ctx.case(("many", src.layout, n, runs, o.cleanup, o.rsync, bool(w.xdev)), dict(left=len(late)))
