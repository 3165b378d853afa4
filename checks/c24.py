"""C24: what is published can be read by the servers that serve it."""
import os, stat
from vlib import view
from vlib.check import Violation
from vlib.history import History
from vlib.oracle import Observer, within
from vlib.world import Opts

ID, LEVEL = "C24", "exploration"
TECHNIQUE = "runtime monitoring: permission bits of everything published, observed between any two operations of the running program and after every run, under different umasks and source permissions, with fault injection"
NOTE = "In all explored histories everything published has the read (and for directories search) permissions that the umask leaves, and no write permission that it takes away."
RULE = "One case is one run. Distinct: (umask, permissions of the source's files, staging on another file system, HTTPS, source operation, fault kind, outcome, include-host)."
ASSUMPTIONS = ["directories that exist before the first run are not judged, and files under the umask of an earlier run neither (it does not change within a history)"]

UMASKS = (0o022, 0o022, 0o002, 0o027, 0o000, 0o077)
MODES = (None, 0o600, 0o400, 0o777, 0o4755, 0o640)


def tasks(tier, seed):
    for i in range(150 if tier == "quick" else 3000):
        yield "history", dict(i=i)


class Permissions(Observer):
    def __init__(self, ctx, umask, existing):
        self.ctx, self.umask, self.existing = ctx, umask, existing

    def save(self):
        return {}

    def relevant(self, ev):
        return within(ev, self.w.rrdp) or within(ev, self.w.rsync)

    def judge(self, p, ev):
        try:
            m = os.lstat(p).st_mode
        except OSError:
            return          # others look after that
        if stat.S_ISLNK(m) or p in self.existing:
            return
        need = (0o555 if stat.S_ISDIR(m) else 0o444) & ~self.umask
        if m & need != need:
            self.fail("%s is published with mode %04o, the umask %03o leaves more" % (os.path.relpath(p, self.w.root), m & 0o7777, self.umask), ev)
        if m & 0o222 & self.umask:
            self.fail("%s is published with mode %04o, which the umask %03o excludes" % (os.path.relpath(p, self.w.root), m & 0o7777, self.umask), ev)
        self.ctx.count("modes_seen")

    def sight(self, t, ev):
        w = self.w
        if ev is None or within(ev, w.rrdp):
            v = w.view()
            seen = set()
            if v.note is not None:
                for p in [os.path.join(w.rrdp, v.name)] + list(v.listed):
                    while len(p) >= len(w.rrdp) and p not in seen:
                        seen.add(p)
                        self.judge(p, ev)
                        p = os.path.dirname(p)
        if ev is None or within(ev, w.rsync) and ev.op in ("rename", "symlink"):
            ex, cur = view.current_dir(w.rsync)
            if cur:
                self.judge(w.rsync, ev)
                for dp, dn, fn in os.walk(cur):
                    self.judge(dp, ev)
                    for n in fn:
                        self.judge(os.path.join(dp, n), ev)


def history(ctx, i):
    r = ctx.rng
    um = UMASKS[i % len(UMASKS)]
    mode = r.choice(MODES)
    h = History(ctx, faults=r.choice([0, 0, 0.4]), delays=(0, 0, 5), hosts=i % 4 == 3, net=0.2, xdev=i % 3 == 1)
    w = h.w
    w.umask = um
    existing = set()
    if r.random() < 0.2:
        for d in (w.rrdp, w.rsync):
            os.makedirs(d)
            os.chmod(d, 0o755)
            existing.add(d)
    if r.random() < 0.3:
        w.rrdp, w.rsync = os.path.join(w.state, "rrdp"), os.path.join(w.state, "rsync")
        if w.xdev:
            w.xdev = w.rrdp
    w.observers.append(Permissions(ctx, um, existing))
    if mode is not None and not w.net:
        emit = w.emit

        def changed(files=None):
            emit(files)
            for dp, dn, fn in os.walk(w.srcdir):
                for n in fn:
                    os.chmod(os.path.join(dp, n), mode)
        w.emit = changed
    for _ in range(r.choice([3, 5, 7])):
        res, o, fired = h.step()
        ctx.case((um, mode, bool(w.xdev), w.net, h.steps[-1][0], h.steps[-1][1], res.rc, o.include_host), dict(umask="%03o" % um, mode=mode and "%04o" % mode, status=res.rc))
