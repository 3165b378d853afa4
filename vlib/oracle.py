"""Online monitors. Each watches the public directories between any two operations of
the running program and raises Violation with the operation that led there."""
import copy, os

from . import view
from .check import Violation
from .world import Opts


class Observer:
    """at(ev, t): the state before operation ev, at virtual time t (ms)."""

    def begin(self, w, o, t):
        self.w, self.o, self.prev = w, o, None
        self.touched = True
        self.sight(t, None)

    def relevant(self, ev):
        return True

    def at(self, ev, t):
        if self.prev is not None and self.relevant(self.prev):
            self.sight(t, self.prev)
        self.prev = ev

    def end(self, w, o, r, t):
        self.sight(t, self.prev)

    def sight(self, t, ev):
        raise NotImplementedError

    def save(self):
        return {k: copy.deepcopy(v) for k, v in self.__dict__.items() if k not in ("w", "o", "prev")}

    def restore(self, s):
        self.__dict__.update(copy.deepcopy(s))

    def fail(self, msg, ev=None, **d):
        raise Violation(msg, after_operation=repr(ev), log=self.w.log[-12:], options={k: v for k, v in self.o.items() if v != Opts.DEFAULTS.get(k)}, **d)


def within(ev, d):
    return ev.path.startswith(d) or ev.path2.startswith(d) or ev.op == "sleep"


class PublicView(Observer):
    """C01: the notification and everything it lists."""

    def __init__(self, ctx):
        self.ctx, self.seen = ctx, False
        self.states = set()

    def save(self):
        return dict(seen=self.seen)

    def relevant(self, ev):
        return within(ev, self.w.rrdp)

    def sight(self, t, ev):
        v = self.w.view()
        self.ctx.count("instants_rrdp")
        if v.problems:
            self.fail("public RRDP view broken: " + "; ".join(v.problems[:3]), ev, instant=t)
        if v.note is None and self.seen:
            self.fail("the notification file is gone", ev)
        if v.note is not None:
            self.seen = True
            self.ctx.distinct.add("v" + str((v.note.session, v.note.serial, len(v.note.deltas)))[:60])
            self.ctx.count("files_verified", len(v.listed))


class RsyncRevision(Observer):
    """C06: what 'current' resolves to, and that it never changes while it exists."""

    def __init__(self, ctx, complete):
        self.ctx, self.complete = ctx, complete      # complete(tree) -> bool
        self.seen = False
        self.dirs = {}           # real path -> fingerprint at the moment it became current

    def save(self):
        return dict(seen=self.seen, dirs=dict(self.dirs))

    def restore(self, s):
        self.seen, self.dirs = s["seen"], dict(s["dirs"])

    def relevant(self, ev):
        return within(ev, self.w.rsync)

    def sight(self, t, ev):
        ex, cur = view.current_dir(self.w.rsync)
        self.ctx.count("instants_rsync")
        if self.seen and not ex:
            self.fail("'current' is gone", ev)
        if ex and cur is None:
            self.fail("'current' does not resolve to a directory (%s)" % os.readlink(os.path.join(self.w.rsync, "current")), ev)
        if ex:
            self.seen = True
            if cur not in self.dirs:
                tree = view.read_tree(cur)
                if not self.complete(tree):
                    self.fail("'current' resolves to %s, whose content is not that of any source snapshot (%d files)" % (os.path.basename(cur), len(tree)), ev, files=sorted(tree)[:20])
                self.dirs[cur] = view.fingerprint(cur)
                self.ctx.count("revisions_seen")
        for d, fp in list(self.dirs.items()):
            if not os.path.isdir(d):
                if d == cur:
                    self.fail("current directory removed", ev)
                del self.dirs[d]
                continue
            now = view.fingerprint(d)
            if now != fp:
                gone = all(now.get(k) == v or k not in now or v[0] == "d" for k, v in fp.items()) and all(k in fp for k in now)
                if d == cur or not gone:
                    self.fail("directory %s, which 'current' %s, was altered: %s" % (os.path.basename(d), "points to" if d == cur else "pointed to", view.diff(fp, now)), ev)


class Retention(Observer):
    """C08: what was published stays for the cleanup-after time."""

    def __init__(self, ctx, rsync=True):
        self.ctx = ctx
        self.listed = {}         # path -> hash of what is listed now
        self.gone = {}           # path -> (hash, time it stopped being listed)
        self.cur = None          # (real path, tree digest)
        self.old = {}            # real path -> (digest, time)
        self.with_rsync = rsync

    def save(self):
        return copy.deepcopy(dict(listed=self.listed, gone=self.gone, cur=self.cur, old=self.old))

    def sight(self, t, ev):
        keep = self.o.cleanup * 1000
        if ev is None or within(ev, self.w.rrdp):
            v = self.w.view()
            if not v.problems or v.note is not None:
                now = v.listed
                if v.note is not None:
                    for p, h in self.listed.items():
                        if p not in now:
                            self.gone[p] = (h, t)
                            self.ctx.count("files_superseded")
                    for p in now:
                        self.gone.pop(p, None)
                    self.listed = dict(now)
        if ev is None or within(ev, self.w.rrdp):
            for p, (h, since) in list(self.gone.items()):
                got = view.file_hash(p)
                if got != h:
                    if t - since < keep - 999:
                        self.fail("superseded file %s %s %.1f s after it stopped being listed; cleanup-after is %d s" % (os.path.relpath(p, self.w.rrdp), "is gone" if got is None else "was changed", (t - since) / 1000, self.o.cleanup), ev)
                    del self.gone[p]
                    self.ctx.count("files_expired")
        if self.with_rsync and (ev is None or within(ev, self.w.rsync)):
            ex, cur = view.current_dir(self.w.rsync)
            if cur is not None and (self.cur is None or self.cur[0] != cur):
                if self.cur is not None:
                    self.old[self.cur[0]] = (self.cur[1], t)
                    self.ctx.count("revisions_superseded")
                self.old.pop(cur, None)
                self.cur = (cur, view.tree_digest(view.read_tree(cur)))
            for d, (dg, since) in list(self.old.items()):
                got = view.tree_digest(view.read_tree(d)) if os.path.isdir(d) else None
                if got != dg:
                    if t - since < keep - 999:
                        self.fail("superseded rsync directory %s %s %.1f s after it stopped being current; cleanup-after is %d s" % (os.path.basename(d), "is gone" if got is None else "was changed", (t - since) / 1000, self.o.cleanup), ev)
                    del self.old[d]
                    self.ctx.count("revisions_expired")


def check_published(w, o, before, src=None, weak=False):
    """C02: what a successful run has to have published. before: RrdpView before the run.
    weak: an earlier run was interrupted, so which old deltas are kept is not predicted."""
    src = src or w.src
    v = w.view()

    def bad(msg):
        raise Violation(msg, log=w.log[-10:], source=(src.session, src.serial, [d[0] for d in src.deltas]), published=v.key(), deltas=[d[0] for d in v.note.deltas] if v.note else None)
    if v.note is None:
        bad("no notification was published: %s" % v.problems)
    n = v.note
    if (n.session, n.serial) != (src.session, src.serial):
        bad("published %s serial %d, the source has %s serial %d" % (n.session, n.serial, src.session, src.serial))
    if v.problems:
        bad("; ".join(v.problems[:3]))
    rel = n.snapshot[0][len(src.base):]
    if n.snapshot[0] != src.base + src.snap_rel or view.read_file(os.path.join(w.rrdp, rel)) != src.snap_bytes:
        bad("published snapshot %s is not the source's %s" % (n.snapshot[0], src.base + src.snap_rel))
    have = {s: (rel, x) for s, rel, x in src.deltas}
    for s, uri, h in n.deltas:
        if s not in have:
            bad("published delta %d is not listed by the source" % s)
        rel, x = have[s]
        if uri != src.base + rel or view.read_file(os.path.join(w.rrdp, rel)) != x:
            bad("published delta %d (%s) is not the source's" % (s, uri))
    ser = [s for s, _, _ in n.deltas]
    if ser and (ser != list(range(ser[0], ser[0] + len(ser))) or ser[-1] != n.serial):
        bad("published deltas %s do not lead up to %d" % (ser, n.serial))
    lst = [s for s, _, _ in src.listed(o.max_deltas)]
    if before is None or before.note is None or before.note.session != src.session:
        must = set(lst)
    elif before.note.serial == src.serial:
        must = None
    else:
        old = {s for s, _, _ in before.note.deltas}
        must = {s for s in lst if s in old or s > before.note.serial}
    if must is not None and weak:
        must = {s for s in must if s > before.note.serial} if before is not None and before.note and before.note.session == src.session else set()
    if must is not None and not must <= set(ser):
        bad("deltas %s are missing from the published %s" % (sorted(must - set(ser)), ser))
    if must is not None and not set(ser) <= set(lst):
        bad("deltas %s are published beyond what the source lists within the limit" % sorted(set(ser) - set(lst)))
    return v


def check_rsync(w, objects, include_host, what="rsync tree"):
    """C05"""
    ex, cur = view.current_dir(w.rsync)
    if cur is None:
        raise Violation("%s: 'current' %s" % (what, "is dangling" if ex else "does not exist"), log=w.log[-10:])
    exp = view.rsync_expected(objects, include_host)
    got = view.read_tree(cur)
    if exp != got:
        raise Violation("%s differs from the snapshot: %s" % (what, view.diff(exp, got)), log=w.log[-10:])
    dirs = {os.path.dirname(p) for p in exp}
    alld = set()
    for d in dirs:
        while d:
            alld.add(d)
            d = os.path.dirname(d)
    real = {os.path.relpath(os.path.join(dp, x), cur) for dp, dn, _ in os.walk(cur) for x in dn}
    if real != alld:
        raise Violation("%s has directories %s that hold no object" % (what, sorted(real - alld)[:5]), log=w.log[-10:])
    return cur, exp
