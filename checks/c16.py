"""C16: pre-validation scripts see the staged content before anyone else."""
import os, re, shutil, stat

from checks import c15
from vlib import view
from vlib.check import Violation
from vlib.history import History, make_source
from vlib.oracle import check_published, check_rsync
from vlib.source import sha
from vlib.world import Opts, World

ID, LEVEL = "C16", "exploration"
TECHNIQUE = "runtime monitoring: the configured scripts are probes that copy what is staged and what is published at the moment they run; records compared offline"
NOTE = "In all explored histories each script runs once, in order, with everything staged and nothing published changed; failing scripts gate publication exactly when rejecting is configured."
RULE = ("One case is one run with scripts. Distinct: (how each script ends, rejecting, first sync / update / other session / no change, limit, rsync, corrupt source, outcome).")
ASSUMPTIONS = ["every configured script can be started"]

ENDS = ("0", "0", "0", "0", "0", "0", "1", "2", "3", "10", "16", "64", "126", "127", "128", "192", "254", "255", "kill", "term")
TALK = ("", "echo hello; echo trouble >&2", "printf '\\377\\376\\000x'; printf '\\200' >&2", "head -c 300000 /dev/zero | tr '\\0' a; head -c 300000 /dev/zero | tr '\\0' b >&2",
        "head -c 200000 /dev/zero >&2", "exec 1>&-", "exec 2>&-", "cat >/dev/null", "sleep 0.05", "cd /; umask 077")


def tasks(tier, seed):
    for i in range(110 if tier == "quick" else 4000):
        yield "history", dict(i=i)
    for i in range(36):
        yield "endings", dict(i=i)
    for i in range(14 if tier == "quick" else 600):
        yield "validated", dict(i=i)


class Scripts:
    """A set of scripts and the records they make."""

    def __init__(self, ctx, w):
        self.ctx, self.w, self.rng = ctx, w, ctx.rng
        self.dir = ctx.scratch()
        self.rec = os.path.join(self.dir, "rec")
        self.n = 0

    def make(self, ends):
        r = self.rng
        shutil.rmtree(self.rec, ignore_errors=True)
        os.makedirs(self.rec)
        w, out = self.w, []
        for k, e in enumerate(ends):
            self.n += 1
            p = os.path.join(self.dir, r.choice(["check%d.sh", "a check %d", "\u00fc%d.sh", "check%d --tal"]) % self.n)
            end = {"kill": "kill -9 $$", "term": "kill -15 $$"}.get(e, "exit %s" % e)
            if e != "0" and r.random() < 0.3:
                end += "\nexit 0"
            with open(p, "w") as f:
                f.write("""#!/bin/sh
n=$(ls '%(rec)s' | wc -l)
d='%(rec)s'/$(printf '%%03d' $n)-%(k)d
mkdir "$d"
cp -a '%(st)s' "$d/staging" 2>/dev/null
cp -a '%(rrdp)s' "$d/rrdp" 2>/dev/null
cp -a '%(rsync)s' "$d/rsync" 2>/dev/null
%(talk)s
%(end)s
""" % dict(rec=self.rec, k=k, st=os.path.join(w.state, "pre-validate-staging"), rrdp=w.rrdp, rsync=w.rsync, talk=r.choice(TALK), end=end))
            os.chmod(p, 0o755)
            out.append(p)
        self.ends = list(ends)
        # what is public before the run
        self.before = (files(w.rrdp), files(w.rsync), link(w.rsync), w.view())
        return tuple(out)

    def records(self):
        return [(int(n.split("-")[1]), os.path.join(self.rec, n)) for n in sorted(os.listdir(self.rec))]

    def check(self, fault=False):
        """What holds for every script that ran -> number that ran"""
        w = self.w
        recs = self.records()

        def bad(msg):
            raise Violation(msg, log=w.log[-8:], ends=self.ends, ran=[k for k, _ in recs])
        if [k for k, _ in recs] != list(range(len(recs))):
            bad("the scripts ran as %s" % [k for k, _ in recs])
        if recs and not fault and len(recs) != len(self.ends):
            bad("only %d of %d scripts ran" % (len(recs), len(self.ends)))
        rrdp0, rsync0, cur0, v0 = self.before
        for k, d in recs:
            self.ctx.count("script_records")
            new = {p: h for p, h in files(os.path.join(d, "rrdp")).items() if rrdp0.get(p) != h}
            if new:
                bad("when script %d ran, the RRDP directory already had %s" % (k, sorted(new)[:4]))
            gone = set(os.path.relpath(p, w.rrdp) for p in v0.listed) | ({v0.name} if v0.note else set())
            gone -= set(files(os.path.join(d, "rrdp")))
            if gone:
                bad("when script %d ran, published files were gone: %s" % (k, sorted(gone)[:4]))
            now = files(os.path.join(d, "rsync"))
            new = {p for p, h in now.items() if rsync0.get(p) != h}
            if new or link(os.path.join(d, "rsync")) != cur0:
                bad("when script %d ran, the rsync directory had already changed: %s %s" % (k, sorted(new)[:4], (cur0, link(os.path.join(d, "rsync")))))
            if cur0:
                c = os.path.basename(cur0) + "/"
                if {p: h for p, h in rsync0.items() if p.startswith(c)} != {p: h for p, h in now.items() if p.startswith(c)}:
                    bad("when script %d ran, the current rsync tree had changed" % k)
            st = os.path.join(d, "staging")
            b = view.read_file(os.path.join(st, w.src.name))
            if b is None:
                bad("when script %d ran, no notification was staged" % k)
            try:
                note = view.Notification(b)
            except view.Bad as e:
                bad("when script %d ran, the staged notification was incomplete: %s" % (k, e))
            need = [note.snapshot]
            same = v0.note is not None and v0.note.session == note.session
            for s, uri, h in note.deltas:
                if not same or s > v0.note.serial:
                    need.append((uri, h))
            for uri, h in need:
                p = os.path.join(st, uri[len(w.src.base):])
                x = view.read_file(p)
                if x is None or sha(x) != h.lower():
                    bad("when script %d ran, %s was %s" % (k, uri, "not staged" if x is None else "not completely staged"))
                self.ctx.count("staged_files_verified")
            if (note.session, note.serial) != w.src.key():
                bad("when script %d ran, the staged notification was of %s/%d" % (k, note.session, note.serial))
        return len(recs)


def files(d):
    return {p: h for p, h in view.read_tree(d).items()} if os.path.isdir(d) else {}


def link(d):
    p = os.path.join(d, "current")
    return os.readlink(p) if os.path.islink(p) else None


def gated(ctx, w, sc, o, res, v0, pub, changed, weak=False, corrupt=False):
    """A run without injected faults."""
    ran = sc.check()
    failing = any(e != "0" for e in sc.ends)
    if corrupt:
        if res.ok or w.published() != pub:
            raise Violation("corrupt source: %s" % res.brief(), log=w.log[-8:])
    elif changed:
        if ran != len(sc.ends):
            raise Violation("there is new content, but %d of %d scripts ran: %s" % (ran, len(sc.ends), res.brief()), log=w.log[-8:], ends=sc.ends)
        if failing and o.reject:
            if res.rc != 1:
                raise Violation("scripts end with %s and rejecting is configured, but the run ends with %s" % (sc.ends, res.brief()), log=w.log[-8:])
            if w.published() != pub:
                raise Violation("a run that rejects content because of scripts %s changes what is published" % sc.ends, log=w.log[-8:])
            ctx.count("runs_rejected")
        else:
            if res.rc != 0:
                raise Violation("scripts end with %s, rejecting is %s, and the run fails: %s" % (sc.ends, o.reject, res.brief()), log=w.log[-8:])
            check_published(w, o, v0, weak=weak)
            if o.rsync:
                check_rsync(w, w.src.objects, o.include_host)
            ctx.count("runs_published")
    return ran


def endings(ctx, i):
    """Every combination of how two scripts end, rejecting or not, in a plain sequence of updates."""
    r = ctx.rng
    src = make_source(ctx, nobj=3)
    w = World(ctx, src)
    sc = Scripts(ctx, w)
    e2 = ("0", "1", "kill", "2", "term", "255")
    a, b = e2[i // 6], e2[i % 6]
    pend = False
    for reject in (True, False, True):
        for ends in ((a, b), (b, "0", a), (a,), ("0", "0")):
            v0, pub = w.view(), None
            src.publish()
            w.emit()
            o = Opts(scripts=sc.make(ends), reject=reject, verbose=r.choice([0, 1, 2]))
            pub = w.published()
            res = w.run(o)
            gated(ctx, w, sc, o, res, v0, pub, True)
            ctx.case((ends, reject, v0.note is None, res.rc), dict(ends=ends, reject=reject, status=res.rc) if i == 7 else None)


def history(ctx, i):
    r = ctx.rng
    faults = 0.3 if i % 3 == 0 else 0
    h = History(ctx, faults=0, layout=None)
    w = h.w
    sc = Scripts(ctx, w)
    weak = False
    for k in range(r.randrange(5, 11)):
        op = h.source_op()
        o = h.options()
        n = r.choice([1, 1, 2, 3, 6])
        ends = [r.choice(ENDS) if r.random() < 0.7 else "0" for _ in range(n)]
        o["reject"] = r.random() < 0.5
        v0 = w.view()
        o["scripts"] = sc.make(ends)
        pub = w.published()
        changed = v0.key() != h.src.key()
        regress = v0.note is not None and v0.note.session == h.src.session and h.src.serial < v0.note.serial
        corrupt = False
        if changed and not regress and r.random() < 0.25:
            # the snapshot, or the newest delta that has to be fetched, is corrupt
            fs = h.src.files()
            rels = [h.src.snap_rel]
            lst = h.src.listed(o.max_deltas)
            if lst and (v0.note is None or v0.note.session != h.src.session or lst[-1][0] > v0.note.serial):
                rels.append(lst[-1][1])
            rel = r.choice(rels)
            if not os.path.exists(os.path.join(w.state, "pre-validate-staging", rel)) and not os.path.exists(os.path.join(w.rrdp, rel)):
                if r.random() < 0.5:
                    del fs[rel]
                else:
                    fs[rel] = fs[rel][:len(fs[rel]) // 2]
                corrupt = True
                w.emit(fs)
        f, fd, fired = (None, "", [])
        if r.random() < faults:
            f, fd, fired = h.fault()
        res = w.run(o, fault=f)
        w.log[-1] = re.sub(r"scripts=\([^)]*\)", "scripts=%s" % ends, w.log[-1])
        if fired:
            sc.check(fault=True)
            weak = True
        elif regress or (weak and not changed):
            sc.check()
        else:
            gated(ctx, w, sc, o, res, v0, pub, changed, weak=weak, corrupt=corrupt)
        if not fired and res.events:
            h.last_n = max(10, len(res.events))
        if corrupt:
            w.emit()
        ctx.case((tuple(ends), o.reject, op, changed, corrupt, o.max_deltas, o.rsync, fd and fd[0], res.rc) if changed else None,
                 dict(ends=ends, reject=o.reject, op=op, status=res.rc) if k == 3 else None)
        if r.random() < 0.4:
            w.advance(r.choice([1, 700, 5000]))


def validated(ctx, i):
    """The scripts next to the internal validator: neither stands in for the other."""
    r = ctx.rng
    net, kind = c15.make(ctx, i, nrepos=1)
    w = net.w
    sc = Scripts(ctx, w)
    good = net.build()
    for k in range(6):
        hk, name = None, "none"
        if r.random() < 0.4:
            ti = r.randrange(len(net.trees))
            t = net.trees[ti]
            name, hk, _ = r.choice(c15.defects(t, r.choice(t.cas), r))
        net.set(net.build(hk, ti) if hk else good, fresh=True)
        n = r.choice([1, 2, 3])
        ends = [r.choice(ENDS) if r.random() < 0.4 else "0" for _ in range(n)]
        reject = r.random() < 0.6
        v0, pub = w.view(), None
        scripts = sc.make(ends)
        pub = w.published()
        o = net.opts(scripts=scripts, reject=reject)
        res = net.run(o)
        if hk and reject:
            sc.check()
            if res.rc != 1 or w.published() != pub:
                raise Violation("%s: rejected content is published, or %s" % (name, res.brief()), log=w.log[-4:], ends=ends)
        else:
            gated(ctx, w, sc, o, res, v0, pub, True)
        ctx.count("runs_with_validator")
        ctx.case(("validated", tuple(ends), reject, hk is None, res.rc), dict(ends=ends, reject=reject, defect=name, status=res.rc) if k == 2 else None)
