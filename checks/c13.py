"""C13: all effects stay inside the configured directories."""
import os, posixpath, re
from vlib import build, tls, view
from vlib.check import Violation
from vlib.history import History, make_source
from vlib.oracle import check_published
from vlib.run import execute
from vlib.source import sha
from vlib.world import Opts, World

ID, LEVEL = "C13", "exploration"
TECHNIQUE = "runtime monitoring: every mutating system call of an unprivileged process recorded, and refused outside the allowed directories; canary directories compared"
NOTE = "No effect outside the configured directories in any explored history with hostile URIs, for both transports and all directory arrangements; URIs leading elsewhere are refused."
RULE = ("One case is one run. Distinct: (hostile URI form, where it occurs, transport, include-host, first sync or update, outcome) or (directory arrangement, options, outcome).")
ASSUMPTIONS = ["no symbolic links are planted in the configured directories by others", "scripts that are configured are not judged"]

NOBODY = 65534

# what follows the base URI (%s: path of the canary directory without the leading slash)
FILES = ["../outside/x", "../../outside/x", "a/../../outside/x", "a/b/../../../outside/x", "./../outside/x", "../rrdp-evil/x", "../state/rrdp-state.json", "../rsync/current",
         "/%s/x", "//%s/x", "a//../../outside/x", "a//b", "a/./b", "a/../b", "..", ".", "a/..", "../..", "../state/pre-validate-staging/y", "%%2e%%2e/outside/x", "a/%%2e%%2e/%%2e%%2e/outside/x",
         ".%%2e/outside/x", "%%2E./outside/x", "..%%2foutside%%2fx", "a/", "/", "..;/outside/x", "a\\..\\..\\outside/x", "../src/notification.xml", "a/b/", "....//outside/x", "x?/../../outside/x", "x#/../../outside/x",
         "%%2E%%2E/outside/x", "a/%%2E%%2e/%%2e%%2E/outside/x", ".%%2E/outside/x", "%%2e/x", "a/%%2E/b", "./x", "a/.", "./NOTE", "a/../NOTE", "NOTE", "NOTE.tmp", "./NOTE.tmp", "%%2E/NOTE", "NOTE/", "/NOTE"]
OBJECTS = ["rsync://repo.example.net/repo/../outside/x", "rsync://repo.example.net/repo/../../outside/x", "rsync://repo.example.net/repo/a/../../outside/x", "rsync://repo.example.net/repo//%s/x",
           "rsync://repo.example.net/repo/./x", "rsync://repo.example.net/repo/a/./../x", "rsync://repo.example.net/repo/..", "rsync://repo.example.net/repo/a/..", "rsync://repo.example.net/repo/../../../../../%s/x",
           "rsync://repo.example.net/../outside/x", "rsync://repo.example.net/../../outside", "rsync://../repo/x", "rsync://../../x", "rsync://../../../x", "rsync://./repo/x", "rsync://./../x",
           "rsync://repo.example.net/%%2e%%2e/x", "rsync://repo.example.net/repo/%%2e%%2e/%%2e%%2e/outside/x", "rsync://%%2e%%2e/%%2e%%2e/x", "rsync://repo.example.net//x", "rsync:///%s/x",
           "rsync://repo.example.net/repo/", "rsync://repo.example.net/repo", "rsync://repo.example.net/", "rsync://repo.example.net/repo/a//b", "rsync://repo.example.net/repo/a/",
           "rsync://repo.example.net:873/repo/../x", "rsync://user@repo.example.net/repo/../../x", "rsync://[::1]/repo/../../x", "rsync://repo.example.net/repo/a\\..\\..\\x",
           "rsync://repo.example.net/repo/current/../../x", "RSYNC://repo.example.net/repo/../../outside/x", "rsync://..", "rsync://../", "rsync://../..", "rsync://../../..", "rsync://../.."]


def tasks(tier, seed):
    rep = 1 if tier == "quick" else 12
    for k in range(rep):
        for i in range(len(FILES)):
            yield "file_uri", dict(i=i, net=False, k=k)
            yield "file_uri", dict(i=i, net=True, k=k)
        for i in range(len(OBJECTS)):
            yield "object_uri", dict(i=i, k=k)
    for i in range(40 if tier == "quick" else 1000):
        yield "history", dict(i=i)
    for i in range(33 if tier == "quick" else 165):
        yield "arrangement", dict(i=i)
    for i in range(60 if tier == "quick" else 3000):
        yield "mutated", dict(i=i)


def up(rel):
    """A relative path that leads out of its directory."""
    if rel.startswith("/"):
        return True
    n = posixpath.normpath(rel)
    return n.startswith("..") and (n == ".." or n[2] == "/")


def dotted(rel, name=None):
    """Empty or dot segments, encoded or not; the notification itself."""
    return up(rel) or rel in (name, "%s.tmp" % name) or any(re.sub("%2e", ".", p, flags=re.I) in ("", ".", "..") for p in rel.split("/"))


def make(ctx, **kw):
    src = make_source(ctx, nobj=2, base=ctx.rng.choice(["https://rrdp.example.net/rrdp/", "https://rrdp.example.net/"]), **kw)
    w = World(ctx, src, uid=NOBODY)
    canary = os.path.join(w.root, "outside")
    os.makedirs(canary)
    for d, f in ((canary, "x"), (canary, "sub/keep"), (os.path.join(w.root, "rrdp-evil"), "x")):
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as o:
            o.write("keep me")
    os.system("chown -R %d '%s'" % (NOBODY, w.root))
    return src, w, canary


def outside(w, keep=()):
    """Everything in the scratch directory that the run must not touch."""
    return {n: view.fingerprint(os.path.join(w.root, n)) for n in sorted(os.listdir(w.root)) if os.path.join(w.root, n) not in (w.state, w.rrdp, w.rsync) and n != "src"}


def place(w, form, body):
    """Put body where a run that follows the URI would find it, unless that
    is in one of the directories that belong to krill-sync."""
    p = posixpath.normpath(os.path.join(w.srcdir, form))
    if not p.startswith(w.root + "/") or p == os.path.join(w.srcdir, w.src.name):
        return
    if any(p == d or p.startswith(d + "/") for d in (w.state, w.rrdp, w.rsync)) or os.path.isdir(p):
        return
    try:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(body)
    except (OSError, ValueError):
        pass
    os.system("chown -R %d '%s'" % (NOBODY, w.root))


def judged(ctx, w, o, key, must_fail=False):
    """A run, watched."""
    dirs = [w.state, w.rrdp, w.rsync]
    pub = w.published()
    was = outside(w)
    rs = view.fingerprint(w.rsync) if os.path.exists(w.rsync) else None
    res = w.run(o, allow=dirs)
    if res.escapes:
        raise Violation("an operation outside the configured directories: %s" % [repr(e).replace(w.root, "") for e in res.escapes][:4], log=w.log[-6:], key=key)
    if outside(w) != was:
        raise Violation("something outside the configured directories changed", log=w.log[-6:], key=key)
    if not o.rsync:
        bad = [repr(e) for e in res.events if e.path == w.rsync or e.path.startswith(w.rsync + "/")]
        if bad or (view.fingerprint(w.rsync) if os.path.exists(w.rsync) else None) != rs:
            raise Violation("rsync is disabled, but its directory is worked on: %s" % bad[:4], log=w.log[-6:])
    known_places(w, o)
    if must_fail:
        if res.rc != 1:
            raise Violation("a URI that leads elsewhere (%s) does not make the run fail: %s" % (key, res.brief()), log=w.log[-6:])
        if w.published() != pub:
            raise Violation("a run that refuses a URI (%s) changes what is published" % (key,), log=w.log[-6:])
    elif res.rc not in (0, 1):
        raise Violation("run ends with %s" % res.brief(), log=w.log[-6:])
    return res


def known_places(w, o):
    """RRDP files only in the RRDP directory, the rsync tree only in its own."""
    v = w.view()
    tmp = lambda n: n.endswith(".tmp") or n.endswith("-tmp")
    if os.path.isdir(w.rsync):
        for n in os.listdir(w.rsync):
            p = os.path.join(w.rsync, n)
            if not (os.path.islink(p) and (n == "current" or tmp(n)) or os.path.isdir(p) and not os.path.islink(p)):
                raise Violation("%s in the rsync directory is neither a revision nor 'current'" % n)


def file_uri(ctx, i, net, k):
    r = ctx.rng
    src, w, canary = make(ctx)
    form = FILES[i] % (canary[1:],) if "%s" in FILES[i] else FILES[i].replace("%%", "%")
    form = form.replace("NOTE", src.name)
    if net:
        w.serve_tls()
    hosts = r.random() < 0.5
    o = Opts(source="none" if net else None, include_host=hosts, rsync=r.random() < 0.8)

    host, bp = src.base[8:].split("/", 1)

    def put():
        if net:
            now = src.files()
            w.server.lookup = tls.from_files(lambda: {(host, "/" + bp): now})
        else:
            w.emit()
    for upd in (0, 1):
        for what in ("snapshot", "delta"):
            if upd and not w.view().note:
                put()
                w.must(o, allow=[w.state, w.rrdp, w.rsync])
            src.publish()
            files = src.files()
            snap, ds = (src.snap_rel, src.snap_bytes), list(src.deltas)
            if what == "snapshot":
                snap = (form, src.snap_bytes)
                body = src.snap_bytes
            else:
                ds[-1] = (ds[-1][0], form, ds[-1][2])
                body = ds[-1][2]
            note = files[src.name] = src.notification(deltas=ds, snap=snap)
            if net:
                known = dict(files)
                w.server.lookup = lambda host, path, hd: known.get(path[1 + len(bp):], body) if path.startswith("/" + bp) else body
            else:
                w.emit(files)
                place(w, form, body)
            w.log.append("%s at %s" % (what, form))
            res = judged(ctx, w, o, (what, form), must_fail=dotted(form, src.name))
            ctx.case((what, form.replace(canary[1:], "CANARY"), net, bool(upd), res.rc), dict(uri="BASE" + form.replace(canary[1:], "CANARY"), what=what, status=res.rc, err=res.err[-160:]) if k == 0 and upd else None)
    # and it recovers
    src.publish()
    put()
    w.must(o, allow=[w.state, w.rrdp, w.rsync], what="good URIs again")


def lead(uri, hosts):
    """Does the path of an object's URI lead out of the revision directory, or to no file at all?"""
    low = uri.lower()
    if not low.startswith("rsync://"):
        return True
    rest = uri[8:].split("/", 2)
    if len(rest) < 3:
        return True
    auth, mod, path = rest
    rel = "%s/%s/%s" % (auth, mod, path) if hosts else path
    return up(rel) or posixpath.normpath(rel) == "." or not auth or not mod


def object_uri(ctx, i, k):
    r = ctx.rng
    src, w, canary = make(ctx)
    form = OBJECTS[i] % (canary[1:],) if "%s" in OBJECTS[i] else OBJECTS[i].replace("%%", "%")
    for hosts in (False, True):
        for upd in (0, 1):
            o = Opts(include_host=hosts)
            if upd or hosts:
                src.publish()
                w.emit()
                w.must(o, allow=[w.state, w.rrdp, w.rsync])
            keep = src.save()
            src.publish([(form, b"evil")])
            w.emit()
            w.log.append("object at %s%s" % (form, " (hosts)" if hosts else ""))
            res = judged(ctx, w, o, (form, hosts), must_fail=False)
            if res.rc == 0 and lead(form, hosts):
                raise Violation("an object at %s does not make the run fail" % form, log=w.log[-6:])
            if res.rc == 1 and upd and w.view().key() == src.key():
                raise Violation("a run that refuses an object at %s publishes its snapshot" % form, log=w.log[-6:])
            ctx.case(("object", form.replace(canary[1:], "CANARY"), hosts, bool(upd), res.rc), dict(uri=form, hosts=hosts, status=res.rc, err=res.err[-160:]) if k == 0 and upd else None)
            src.load(keep)
            src.new_session(nobj=1)
    w.emit()
    w.must(Opts(), allow=[w.state, w.rrdp, w.rsync], what="good objects again")


def mutated(ctx, i):
    """Random URIs from hostile pieces."""
    r = ctx.rng
    src, w, canary = make(ctx)
    pieces = ["..", ".", "", "a", "b.xml", "outside", "x", "%2e%2e", canary[1:], "state", "rrdp", "rsync", "current", "rrdp-state.json", "~", "....", ". .", "..%00", "\u00e4", " ", "C:", "\\..", "%2f", "*", "con"]
    w.emit()
    w.must(Opts(), allow=[w.state, w.rrdp, w.rsync])
    for n in range(6):
        form = "/".join(r.choice(pieces) for _ in range(r.randrange(1, 6)))
        src.new_session(nobj=1) if r.random() < 0.3 else src.publish()
        kind = r.choice(["snapshot", "delta", "object", "object-host"])
        hosts = r.random() < 0.5
        o = Opts(include_host=hosts)
        files = None
        try:
            if kind.startswith("object"):
                uri = ("rsync://repo.example.net/repo/" if kind == "object" else "rsync://") + form
                keep = src.save()
                src.publish([(uri, b"evil")])
                files = src.files()
                must = False
                src.load(keep)
                src.serial += 1
            else:
                snap, ds = (src.snap_rel, src.snap_bytes), list(src.deltas)
                files = src.files()
                if kind == "snapshot" or not ds:
                    snap = (form, src.snap_bytes)
                    body = src.snap_bytes
                else:
                    ds[-1] = (ds[-1][0], form, ds[-1][2])
                    body = ds[-1][2]
                files[src.name] = src.notification(deltas=ds, snap=snap)
                must = dotted(form, src.name)
            w.emit(files)
            if not kind.startswith("object"):
                place(w, form, body)
        except (OSError, ValueError):
            continue
        os.system("chown -R %d '%s'" % (NOBODY, w.root))
        w.log.append("%s at %s" % (kind, form))
        res = judged(ctx, w, o, (kind, form), must_fail=must)
        ctx.case((kind, form.replace(canary[1:], "CANARY"), hosts, res.rc), dict(kind=kind, form=form, status=res.rc) if n == 0 else None)


def history(ctx, i):
    """Random histories with faults."""
    r = ctx.rng
    src, w, canary = make(ctx)
    if i % 4 == 3:
        # the directories lie apart, also inside one another's parent
        w.state, w.rrdp, w.rsync = (os.path.join(w.root, "p", n) for n in ("st", "www/rrdp", "rs"))
        os.makedirs(os.path.join(w.root, "p"))
        os.chown(os.path.join(w.root, "p"), NOBODY, NOBODY)
        for d in (w.state, w.rrdp, w.rsync):
            os.makedirs(d)
        os.system("chown -R %d '%s'" % (NOBODY, w.root))
    h = History(ctx, faults=0.25, src=src, world=w, xdev=None)
    allow = [w.state, w.rrdp, w.rsync]
    for k in range(r.randrange(5, 12)):
        h.source_op()
        o = h.options()
        was = outside(w) if i % 4 != 3 else None
        f, fd, fired = h.fault() if r.random() < 0.25 else (None, "", [])
        rs = view.fingerprint(w.rsync) if os.path.exists(w.rsync) else None
        res = w.run(o, fault=f, allow=allow)
        if res.escapes:
            raise Violation("an operation outside the configured directories: %s" % [repr(e).replace(w.root, "") for e in res.escapes][:4], log=w.log[-6:])
        if was is not None and outside(w) != was:
            raise Violation("something outside the configured directories changed", log=w.log[-6:])
        if not o.rsync and (view.fingerprint(w.rsync) if os.path.exists(w.rsync) else None) != rs:
            raise Violation("rsync is disabled, but its directory changed", log=w.log[-6:])
        known_places(w, o)
        if r.random() < 0.5:
            w.advance(r.choice([1, 700, 5000]))
        ctx.case(("history", o.rsync, o.include_host, o.cleanup, o.delay > 0, o.max_deltas, fd and fd[0], res.rc, w.xdev is not None))


ARR = ("state only", "state and rrdp", "state and rsync", "relative", "trailing slash", "rrdp below state", "existing", "relative state only", "not UTF-8", "state only not UTF-8", "odd names")


def arrangement(ctx, i):
    """Which directories are used for which options."""
    r = ctx.rng
    kind = ARR[i % len(ARR)]
    src, w, canary = make(ctx)
    S, R, Y = w.state, w.rrdp, w.rsync
    rsync = (i // len(ARR)) % 3 != 2
    cwd = "/"
    args = ["--state-dir", S]
    eR, eY = S + "/rrdp", S + "/rsync"
    if kind == "state and rrdp":
        args += ["--rrdp-dir", R]
        eR = R
    elif kind == "state and rsync":
        args += ["--rsync-dir", Y]
        eY = Y
    elif kind == "relative":
        cwd = w.root
        args = ["--state-dir", "state", "--rrdp-dir", "./rrdp", "--rsync-dir", "sub/../rsync"]
        os.makedirs(os.path.join(w.root, "sub"))
        os.chown(os.path.join(w.root, "sub"), NOBODY, NOBODY)
        eR, eY = R, Y
    elif kind == "relative state only":
        cwd = w.root
        args = ["--state-dir", "state"]
    elif kind == "trailing slash":
        args = ["--state-dir", S + "/", "--rrdp-dir", R + "/", "--rsync-dir", Y + "//"]
        eR, eY = R, Y
    elif kind in ("not UTF-8", "state only not UTF-8", "odd names"):
        S = w.root + ("/st at%20e;$HOME \u00fc\n\\" if kind == "odd names" else "/st\udcffa\udcc3te\udce2\udc82")
        args = ["--state-dir", S]
        eR, eY = S + "/rrdp", S + "/rsync"
        if kind == "not UTF-8":
            eR, eY = R, Y + "\udcc0"
            args += ["--rrdp-dir", eR, "--rsync-dir", eY]
    elif kind == "rrdp below state":
        args += ["--rrdp-dir", S + "/pub/www", "--rsync-dir", S + "/pub/rs"]
        eR, eY = S + "/pub/www", S + "/pub/rs"
    elif kind == "existing":
        for d in (S, R, Y):
            os.makedirs(d)
            os.chown(d, NOBODY, NOBODY)
        args += ["--rrdp-dir", R, "--rsync-dir", Y]
        eR, eY = R, Y
    if not rsync:
        args += ["--rsync-disable"]
    w.rrdp, w.rsync = eR, eY
    mine = {"state", "rrdp", "rsync"} | {os.path.basename(x) for x in (S, eR, eY)}
    for k in range(3):
        if k:
            src.publish()
        w.emit()
        was = view.fingerprint(canary), sorted(os.listdir(w.root))
        res = execute([build.KS] + args + ["--source-uri-base", w.srcdir + "/", "--", src.uri], now=w.now_ms, allow=[S, eR] + ([eY] if rsync or eY.startswith(S + "/") else []), uid=NOBODY, cwd=cwd)
        ctx.count("runs")
        ctx.count("events", len(res.events))
        if res.escapes:
            raise Violation("with %s: an operation outside: %s" % (args, [repr(e).replace(w.root, "") for e in res.escapes][:4]))
        refused = kind == "state only not UTF-8" and res.rc == 1 and res.err
        if res.rc != 0 and not refused:
            raise Violation("with %s: %s" % (args, res.brief()))
        if (view.fingerprint(canary), sorted(set(os.listdir(w.root)) - mine)) != (was[0], sorted(set(was[1]) - mine)):
            raise Violation("with %s: something else changed" % args)
        if refused:
            ctx.case((kind, rsync, k, "refused"))
            continue
        check_published(w, Opts(rsync=rsync), None)
        if rsync:
            if view.rsync_expected(src.objects, False) != (view.read_tree(view.current_dir(eY)[1]) if view.current_dir(eY)[1] else None):
                raise Violation("with %s: the rsync tree is not in %s" % (args, eY))
        elif os.path.exists(eY) and (kind != "existing" or os.listdir(eY)):
            raise Violation("with %s: rsync is disabled but %s exists" % (args, eY))
        for d in (R, Y):
            if d not in (eR, eY) and os.path.exists(d):
                raise Violation("with %s: %s is made" % (args, d))
        ctx.case((kind, rsync, k), dict(args=" ".join(args).replace(w.root, ""), rrdp=eR.replace(w.root, ""), rsync=eY.replace(w.root, "")) if k == 0 else None)
        w.now_ms += 10000
