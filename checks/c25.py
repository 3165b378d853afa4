"""C25: what version 0.3.1 left on disk is taken up."""
import base64, datetime, json, os, shutil

from vlib import view
from vlib.check import Violation
from vlib.history import make_source
from vlib.oracle import check_published, check_rsync
from vlib.rpki import DAY
from vlib.rpkinet import Net
from vlib.source import Style, sha
from vlib.world import Opts, World

ID, LEVEL = "C25", "exploration"
TECHNIQUE = "runtime monitoring: installations as version 0.3.1 leaves them, written by a model of that version, are handed to the real program; opens, requests, fingerprints and published content of the following runs are checked"
NOTE = "In all explored histories of version 0.3.1 the runs after the upgrade repeat nothing that was done, publish what the source has, keep and remove what 0.3.1 left as its records say, and use the validation data it cached."
RULE = "One case is one run after the upgrade. Distinct: (family, history of the old version, source operation, options, time passed, what had expired, outcome)."
ASSUMPTIONS = ["the model of what 0.3.1 leaves was compared with what the original code writes; files of runs of 0.3.1 that were interrupted while copying are left out"]


def tasks(tier, seed):
    for i in range(150 if tier == "quick" else 4000):
        yield "upgrade", dict(i=i)
    for i in range(16 if tier == "quick" else 500):
        yield "validation", dict(i=i)


class Old:
    """krill-sync 0.3.1 as far as what it leaves on disk is concerned."""

    def __init__(self, w, include_host, rsync):
        self.w, self.include_host, self.rsync = w, include_host, rsync
        self.snap, self.deltas, self.deprecated = None, [], []
        self.cur, self.old = None, []
        self.validator = None

    def path(self, rel):
        return os.path.join(self.w.rrdp, rel)

    def put(self, p, b):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)

    def run(self, limit=None, record=True):
        """What a successful run leaves. record: False if it was killed after the notification, before its state was written."""
        w, s, now = self.w, self.w.src, self.w.now
        keep = (self.snap, list(self.deltas), list(self.deprecated))
        same = self.snap is not None and self.snap[0] == s.session
        if same and self.snap[1] == s.serial:
            return
        listed = s.listed(limit)
        if self.snap is not None:
            self.deprecated.append((now, self.path(self.snap[3])))
        first = listed[0][0] if listed else s.serial + 1
        had = {d[1]: d for d in self.deltas} if same else {}
        if same:
            # it does not go back for deltas that it did not want before
            listed = [x for x in listed if x[0] in had or x[0] > self.snap[1]]
        for d in self.deltas:
            if not same or d[1] < first:
                self.deprecated.append((now, self.path(d[3])))
        self.deltas = [had.get(n) or (now, n, sha(x), rel) for n, rel, x in reversed(listed)]
        for n, rel, x in listed:
            self.put(self.path(rel), x)
        self.put(self.path(s.snap_rel), s.snap_bytes)
        self.snap = (s.session, s.serial, sha(s.snap_bytes), s.snap_rel, now)
        x = ['<notification xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="%s" serial="%d">' % (s.session, s.serial)]
        esc = lambda u: u.replace("&", "&amp;").replace("'", "&apos;")
        x.append('  <snapshot uri="%s" hash="%s"/>' % (esc(s.base + s.snap_rel), self.snap[2]))
        for _, n, h, rel in self.deltas:
            x.append('  <delta serial="%d" uri="%s" hash="%s"/>' % (n, esc(s.base + rel), h))
        self.put(self.path(s.name), ("\n".join(x) + "\n</notification>").encode())
        if self.rsync:
            d = "session_%s_serial_%d" % (s.session, s.serial)
            top = os.path.join(w.rsync, d)
            shutil.rmtree(top, ignore_errors=True)
            os.makedirs(top)
            for rel, b in view.rsync_expected(s.objects, self.include_host).items():
                self.put(os.path.join(top, rel), s_bytes(s, rel, self.include_host))
            cur = os.path.join(w.rsync, "current")
            if os.path.islink(cur):
                os.unlink(cur)
            os.symlink(d, cur)
            if record:
                if self.cur:
                    self.old.append((now, self.cur))
                self.cur = (s.session, s.serial)
        if not record:
            self.snap, self.deltas, self.deprecated = keep
        self.listed_last = listed

    def used(self):
        return {self.path(self.snap[3])} | {self.path(d[3]) for d in self.deltas}

    def clean(self, after):
        """Its cleaning, except that what is in use is left alone."""
        t = self.w.now - after
        for since, p in self.deprecated:
            if since <= t and p not in self.used() and os.path.exists(p):
                os.unlink(p)
                d = os.path.dirname(p)
                while d != self.w.rrdp and not os.listdir(d):
                    os.rmdir(d)
                    d = os.path.dirname(d)
        self.deprecated = [x for x in self.deprecated if x[0] > t]
        for since, rev in self.old:
            if since <= t and rev != self.cur:
                shutil.rmtree(os.path.join(self.w.rsync, "session_%s_serial_%d" % rev), ignore_errors=True)
        self.old = [x for x in self.old if x[0] > t]

    def record(self):
        w, s = self.w, self.w.src
        j = dict(notification_source=dict(uri=s.uri, name=s.name, etag=None), mappings=dict(base_uri=s.base, rrdp_dir=w.rrdp),
                 snapshot=dict(session_id=self.snap[0], serial=self.snap[1], hash=self.snap[2], rel_path=self.snap[3], since=self.snap[4]),
                 deltas=[dict(since=t, serial=n, hash=h, rel_path=rel) for t, n, h, rel in self.deltas],
                 deprecated_files=[dict(since=t, path=p) for t, p in self.deprecated])
        if self.validator:
            j["validator"] = self.validator
        self.put(os.path.join(w.state, "rrdp-state.json"), json.dumps(j, indent=2).encode())
        self.put(os.path.join(w.state, "krill-sync.lock"), b"")
        if self.rsync:
            j = dict(current=dict(session_id=self.cur[0], serial=self.cur[1]), old=[dict(since=t, revision=dict(session_id=a, serial=b)) for t, (a, b) in self.old])
            self.put(os.path.join(w.state, "rsync-state.json"), json.dumps(j, indent=2).encode())

    def litter(self):
        """Its staging area keeps what was fetched last."""
        s = self.w.src
        d = os.path.join(self.w.state, "pre-validate-staging")
        self.put(os.path.join(d, s.name), s.notification())
        for _, rel, _ in self.listed_last:
            os.makedirs(os.path.dirname(os.path.join(d, rel)), exist_ok=True)
        os.makedirs(os.path.dirname(os.path.join(d, s.snap_rel)), exist_ok=True)

    def left(self):
        """{path: (fingerprint, since)} of what is on record as no longer used. Of two records of one item either may count."""
        out = {}
        double = [p for _, p in self.deprecated] + [os.path.join(self.w.rsync, "session_%s_serial_%d" % rev) for _, rev in self.old]
        double = {p for p in double if double.count(p) > 1}
        for since, p in self.deprecated:
            if os.path.exists(p) and p not in self.used():
                out[p] = (view.file_hash(p), since)
        for since, rev in self.old:
            p = os.path.join(self.w.rsync, "session_%s_serial_%d" % rev)
            if os.path.isdir(p) and rev != self.cur:
                out[p] = (view.tree_digest(view.read_tree(p)), since)
        return {p: x for p, x in out.items() if p not in double}


def s_bytes(s, rel, include_host):
    for u, b in s.objects.items():
        if list(view.rsync_expected({u: b}, include_host)) == [rel]:
            return b
    raise KeyError(rel)


def now_is(p):
    return view.tree_digest(view.read_tree(p)) if os.path.isdir(p) else view.file_hash(p)


def upgrade(ctx, i):
    r = ctx.rng
    src = make_source(ctx)
    w = World(ctx, src)
    if i % 5 == 4:
        w.over_tls()
    host, rsync, cleanup = r.random() < 0.3, r.random() < 0.85, r.choice([0, 60, 600, 3600])
    old = Old(w, host, rsync)
    parked, what = [], []
    for k in range(r.choice([1, 2, 3, 4])):
        if k:
            x = r.random()
            if x < 0.2:
                parked.append(src.save())
                src.new_session(nobj=r.choice([0, 2, 5]))
                what.append("session")
            elif x < 0.4 and parked:
                parked.append(src.save())
                src.load(parked.pop(0))
                what.append("return")
            else:
                for _ in range(r.choice([1, 1, 3])):
                    src.publish()
                if r.random() < 0.3:
                    src.drop_deltas(r.choice([0, 1, 2]))
                what.append("publish")
            w.advance(r.choice([1, 30, 400, 3000, 9000]))
        old.run(r.choice([None, None, None, 1]))
        if r.random() < 0.7:
            old.clean(cleanup)
    ahead = r.random() < 0.15
    if ahead:
        src.publish()
        w.advance(10)
        old.run(record=False)
        what.append("killed")
    old.record()
    if r.random() < 0.8:
        old.litter()
    w.log.append("0.3.1: %s" % what)
    if w.view().problems:
        raise RuntimeError("the model is wrong: %s" % w.view().problems)
    left = old.left()
    ctx.count("old_items", len(left))
    o = Opts(include_host=host, rsync=rsync, cleanup=cleanup)
    if not ahead and r.random() < 0.6:
        # nothing new
        style = src.style
        if r.random() < 0.4:
            st = Style(r)
            st.attr = style.attr
            src.style = st
        w.emit()
        src.style = style
        w.advance(r.choice([0, 5, 700, 10**5]))
        before = view.fingerprint(w.rrdp), view.fingerprint(w.rsync)
        if w.net:
            del w.server.log[:]
        res = w.must(o, "after the upgrade, nothing new", watch=[w.srcdir])
        det = dict(log=w.log[-6:], history=what)
        if w.net:
            got = [x[2] for x in w.server.log if not x[2].endswith("/" + src.name)]
        else:
            got = [e.path for e in res.infos if e.op == "open" and e.path != os.path.join(w.srcdir, src.name) and e.path.startswith(w.srcdir + "/") and os.path.isfile(e.path)]
        if got:
            raise Violation("after the upgrade there is nothing new, but files are fetched again: %s" % got[:3], **det)
        for a, b in zip(before, (view.fingerprint(w.rrdp), view.fingerprint(w.rsync))):
            a, b = ({k: v for k, v in x.items() if v[0] != "dir"} for x in (a, b))
            if a != b:
                raise Violation("after the upgrade there is nothing new, but what is published is touched: %s" % view.diff(a, b), **det)
        ctx.count("repeats_without_effect")
        ctx.case(("same", tuple(what), w.net, rsync, host, bool(left)), dict(history=what))
    if not rsync and r.random() < 0.3:
        o["rsync"] = True
    for k in range(r.choice([1, 2, 3])):
        x = r.random()
        if ahead and not k and x < 0.5:
            op = "same"
        elif x < 0.75:
            for _ in range(r.choice([1, 1, 2])):
                src.publish()
            if r.random() < 0.3:
                src.drop_deltas(r.choice([0, 1, 2]))
            op = "publish"
        elif x < 0.9 and parked:
            parked.append(src.save())
            src.load(parked.pop(0))
            op = "return"
        else:
            parked.append(src.save())
            src.new_session(nobj=r.choice([0, 2, 5]))
            op = "session"
        w.emit()
        w.advance(r.choice([0, 1, 30, 400, 3000, 9000]))
        if r.random() < 0.2:
            o["cleanup"] = r.choice([0, 60, 600, 3600])
        v0 = w.view()
        current = view.current_dir(w.rsync)[1]
        was = {p: view.file_hash(p) for p in v0.listed}
        new = (v0.note.session, v0.note.serial) != src.key()
        res = w.must(o, "after the upgrade, %s" % op)
        w.log.append(op)
        v = check_published(w, o, v0, weak=ahead)
        if o.rsync:
            check_rsync(w, src.objects, host)
        det = dict(log=w.log[-6:], history=what, left=sorted((os.path.relpath(p, w.root), s) for p, (_, s) in left.items()), now=w.now, deprecated=sorted((os.path.relpath(p, w.root), s) for s, p in old.deprecated))
        expired = 0
        cur = view.current_dir(w.rsync)[1]
        if new or op != "same":
            for p, (fp, since) in list(left.items()):
                age = w.now - since
                rel = os.path.relpath(p, w.root)
                if p in v.listed or p == cur:
                    del left[p]       # back in use
                    continue
                if within_dir(p, w.rsync) and not o.rsync:
                    continue
                have = now_is(p) if os.path.lexists(p) else None
                if age < o.cleanup - 1 and have != fp:
                    raise Violation("%s was on record as unused for %d s, cleanup-after is %d s, and it is %s" % (rel, age, o.cleanup, "gone" if have is None else "changed"), **det)
                if age > o.cleanup + 1:
                    if have is not None:
                        raise Violation("%s is on record as unused for %d s, cleanup-after is %d s, and it is still there" % (rel, age, o.cleanup), **det)
                    expired += 1
                if have is None:
                    del left[p]
            # what was in use until now
            for p, fp in was.items():
                if p not in v.listed:
                    if o.cleanup > 1 and (not ahead or k or p in old.used()):
                        if view.file_hash(p) != fp:
                            raise Violation("%s was listed until this run, cleanup-after is %d s, and it is gone" % (os.path.relpath(p, w.root), o.cleanup), **det)
                        left[p] = (fp, w.now)
            if o.rsync and current and current != cur and o.cleanup > 1 and (not ahead or k):
                if not os.path.isdir(current):
                    raise Violation("%s was current until this run, cleanup-after is %d s, and it is gone" % (os.path.relpath(current, w.root), o.cleanup), **det)
                left[current] = (now_is(current), w.now)
            ctx.count("old_items_expired", expired)
        ctx.case(("update", tuple(what), op, k, w.net, o.rsync, host, expired, min(3, len(left)), o.cleanup), dict(history=what, op=op, expired=expired))


def within_dir(p, d):
    return p.startswith(d + "/")


def stamp(t):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%SZ")


def validation(ctx, i):
    """Offline validation with what 0.3.1 had cached of another repository."""
    r = ctx.rng
    net = Net(ctx, 2, r.choice([1, 2]), [(0, 1), (1, 0), (2, 0)][:r.choice([2, 3])], layout=None, ta_repo=1, items=["roa", "aspa"])
    w = net.w
    good = net.build()
    net.set(good)
    other = net.sources[1]
    old = Old(w, False, True)
    w.bases = []
    old.run()
    tals = []
    for t, p in zip(net.trees, net.tals):
        text = open(p).read()
        key = "".join(text.split("\n\n", 1)[1].split())
        uris = [u for u in text.split("\n\n", 1)[0].split("\n") if u and not u.startswith("#")]
        tals.append(dict(name=p, source=dict(Uri=[[u for u in uris if u.startswith("https:")][0], "Insecure"]), public_key=key))

    def data(s, etag):
        return dict(etag=etag, last_fetch=stamp(w.now), session_id=s.session, serial=s.serial,
                    objects={u: dict(bytes=base64.b64encode(b).decode()) for u, b in s.objects.items()})
    # the other repository as it was, or with a defect in it that the source repository does not have
    cached = r.choice(["good", "good", "defect"])
    if cached == "defect":
        for u in [u for u in other.objects if u.endswith(".mft")]:
            other.objects[u] = other.objects[u][:-3] + b"???"
    old.validator = dict(tals=tals, repositories=dict(
        fetchers={net.src.uri: dict(notification_uri=net.src.uri, fetch_map=dict(base_uri=net.src.base, base_fetch=dict(File=os.path.join(w.state, "pre-validate-staging"))), mode="Insecure")},
        data={net.src.uri: data(net.src, None), other.uri: data(other, r.choice([None, '"abc"']))}))
    old.record()
    old.litter()
    # now
    out = net.build()
    out[net.repos[0].notify]["%sx.gbr" % net.repos[0].rsync] = b"new"
    net.set(out, only=[0])
    w.advance(r.choice([10, 3000, 5 * 3600, 2 * DAY]))
    host = net.repos[1].notify[8:].split("/")[0]
    net.down = {host}
    o = net.opts(offline=True, reject=True)
    v0 = w.view()
    res = net.run(o)
    asked = [x for x in net.server.log if x[1] == host]
    det = dict(log=w.log[-5:], requests=net.server.log[:20], err=res.err[-500:], out=res.out[-800:], cached=cached)
    if asked:
        raise Violation("offline validation, but another repository is contacted: %s" % asked[:2], **det)
    if cached == "good":
        if res.rc != 0:
            raise Violation("version 0.3.1 had cached all that is needed, but offline validation after the upgrade fails: %s" % res.brief(), **det)
        check_published(w, o, v0)
        ctx.count("validations_from_old_cache")
    else:
        # without a valid manifest the other repository does not lead to the source repository
        if res.rc != 1:
            raise Violation("what version 0.3.1 had cached does not lead to the source repository, but the run succeeds", **det)
    ctx.case(("validation", cached, len(net.trees), res.rc), dict(cached=cached, status=res.rc))
