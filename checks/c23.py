"""C23: offline validation contacts no third party repository."""
import collections

from vlib.check import Violation
from vlib.oracle import check_published
from vlib.rpki import DAY
from vlib.rpkinet import Net
from vlib.world import Opts

from . import c15

ID, LEVEL = "C23", "exploration"
TECHNIQUE = "runtime monitoring: local TLS servers stand for all repositories of generated CA trees and log every request; name look-ups and connections of the process are recorded; requests and verdicts compared with a model of the cache"
NOTE = "In all explored histories offline runs request nothing of third party repositories and use what is cached; other runs fetch what is missing, each repository at most once."
RULE = "One case is one run. Distinct: (offline, number of other repositories and TAs, which of them are cached, which answer, expected verdict, number of requests to others)."
ASSUMPTIONS = ["a fetch that failed may be repeated within a run", "TA certificates are always fetched"]


def tasks(tier, seed):
    for i in range(32 if tier == "quick" else 1500):
        yield "history", dict(i=i, n=10)
    for i in range(8 if tier == "quick" else 200):
        yield "stale", dict(i=i)
    for i in range(12 if tier == "quick" else 300):
        yield "partly", dict(i=i)


def hostname(net, k):
    return net.repos[k].notify[8:].split("/")[0]


def judge(net, o, res, missing, what, up):
    """Requests of one run. missing: indices of repositories that must be fetched. up: those that answer."""
    w = net.w
    log = list(net.server.log)
    det = dict(log=w.log[-10:], requests=log[:30], tree=c15.describe(net, ""))
    src = hostname(net, 0)
    third = {hostname(net, k): k for k in range(1, len(net.repos))}
    names = {e.path for e in res.infos if e.op == "resolve"}
    by = collections.Counter((h, p) for _, h, p in log)
    if o.offline:
        odd = [x for x in by if x[0] not in (src, "ta.example.net")]
        odd += [n for n in names if any(h in n for h in third)]
        odd += [n for n in net.server.handshakes if n in third]
        if odd:
            raise Violation("%s: offline validation, but others are contacted: %s" % (what, odd[:4]), **det)
    for (h, p), n in by.items():
        if h == src and n > 1:
            raise Violation("%s: the source is asked %d times for %s" % (what, n, p), **det)
        if h in third and third[h] in up and n > 1:
            raise Violation("%s: a repository is fetched %d times in one run: %s" % (what, n, (h, p)), **det)
    if not o.offline:
        for k in missing:
            s = net.sources[k]
            path = "/" + s.base[8:].split("/", 1)[1]
            if by[(hostname(net, k), path + s.name)] < 1 or by[(hostname(net, k), path + s.snap_rel)] < 1:
                raise Violation("%s: data of %s is missing, but is not fetched" % (what, net.repos[k].notify), **det)
    return sum(n for (h, p), n in by.items() if h in third)


class Cache:
    def __init__(self, net):
        self.net = net
        self.tals, self.have = (), set()

    def look(self, o, up):
        """(cached now, to be fetched, source reached)"""
        net = self.net
        have = set(self.have) if self.tals == tuple(o.tals) else set()
        fetch, reach = set(), False
        for t, p in zip(net.trees, net.tals):
            if p not in o.tals:
                continue
            ok = {None: True}
            for c in t.cas:
                k = net.repos.index(c.repo)
                there = k == 0 or k in have or not o.offline and k in up
                ok[c] = ok[c.parent] and there
                if ok[c.parent] and k and k not in have and not o.offline and k in up:
                    fetch.add(k)
                if ok[c.parent] and k == 0:
                    reach = True
        return have, fetch, reach


def history(ctx, i, n):
    r = ctx.rng
    nrepos, ntas = r.choice([2, 2, 3, 4]), r.choice([1, 1, 2])

    def shape(rng):
        n = rng.choice([2, 4, 7])
        return [(rng.randrange(max(0, k - 2), k + 1), rng.randrange(nrepos) if k < n - 1 else 0) for k in range(n)]
    net = Net(ctx, nrepos, ntas, shape, layout=None, ta_repo=r.randrange(nrepos), items=["roa"])
    w, c = net.w, Cache(net)
    good = net.build()
    net.set(good)
    spent = 0
    for k in range(n):
        if k:
            out = {u: dict(x.objects) for u, x in zip([q.notify for q in net.repos], net.sources)}
            for j, repo in enumerate(net.repos):
                if j == 0 or r.random() < 0.4:
                    out[repo.notify]["%sx%d.gbr" % (repo.rsync, k)] = r.randbytes(12)
            net.set(out, fresh=r.random() < 0.1)
            for j in range(1, nrepos):
                if r.random() < 0.3:
                    net.sources[j].drop_deltas(r.choice([0, 1]))
                    net.serve(j)
        adv = r.choice([0, 10, 1000, 3700, 40000])
        if spent + adv < 5 * DAY:
            spent += adv
            w.advance(adv)
        tals = tuple(net.tals if r.random() < 0.8 else r.sample(net.tals, r.randrange(1, ntas + 1)))
        o = net.opts(tals=tals, offline=r.random() < 0.45, reject=r.random() < 0.7)
        have0 = c.have if c.tals == tals else set()
        up = {j for j in range(1, nrepos) if r.random() < 0.85 or (not o.offline and j in have0)}
        net.down = {hostname(net, j) for j in range(1, nrepos)} - {hostname(net, j) for j in up}
        have, fetch, reach = c.look(o, up)
        v0 = w.view()
        res = net.run(o)
        what = "run %d" % k
        asked = judge(net, o, res, fetch, what, up)
        det = dict(log=w.log[-10:], requests=net.server.log[:30], tree=c15.describe(net, ""), err=res.err[-500:], cached=sorted(have), up=sorted(up), fetched=sorted(fetch))
        if o.reject and not reach:
            if res.rc != 1:
                raise Violation("%s: validation cannot reach the source repository, but the run succeeds" % what, **det)
        else:
            if res.rc != 0:
                raise Violation("%s: everything needed is %s, but the run fails: %s" % (what, "cached" if o.offline else "there", res.brief()), **det)
            check_published(w, o, v0)
            c.tals, c.have = tals, have | fetch
        ctx.case((o.offline, nrepos, ntas, len(have), len(up), len(fetch), reach, res.rc, asked), dict(offline=o.offline, requests=net.server.log[:8], cached=sorted(have)) if o.offline and have else None)
        ctx.count("requests_to_others", asked)
        ctx.count("offline_runs" if o.offline else "online_runs")
        if o.offline and have and reach and res.rc == 0:
            ctx.count("offline_runs_from_cache")


def stale(ctx, i):
    """Offline, the data that was cached counts and not what the other repository has now."""
    r = ctx.rng
    net = Net(ctx, 2, 1, [(0, 1), (1, 0), (2, 0)][:r.choice([2, 3])], layout=None, ta_repo=1, items=["roa", "aspa"])
    w, t = net.w, net.trees[0]
    child = t.cas[2]
    good = net.build()
    net.set(good)
    cached = "good"
    res = net.run(reject=True)
    judge(net, net.opts(), res, {1}, "first run", {1})
    if not res.ok:
        raise Violation("a good tree is refused: %s" % res.brief(), log=w.log)
    now = "good"
    for k in range(7):
        now = r.choice(["good", "fewer", "fewer"]) if k != 1 else "fewer"
        hk = c15.hook("child", child.parent, lambda x: x.update(data=t.child_cert(child, v4=["10.250.0.0/16"])) if x["child"] is child else None) if now == "fewer" else None
        net.set(net.build(hk), only=[1], fresh=r.random() < 0.2)
        src = dict(net.src.objects)
        src["%sx%d.gbr" % (net.repos[0].rsync, k)] = r.randbytes(10)
        net.set({net.repos[0].notify: src}, only=[0])
        w.advance(r.choice([3700, 20000]))
        o = net.opts(reject=True, offline=r.random() < 0.5 or k == 1)
        if o.offline:
            net.down = {hostname(net, 1)} if r.random() < 0.3 else set()
        else:
            net.down = set()
        used = cached if o.offline else now
        res = net.run(o)
        judge(net, o, res, (), "run %d" % k, {1} if not net.down else ())
        det = dict(log=w.log[-10:], requests=net.server.log[:20], err=res.err[-400:], cached=cached, now=now)
        if (res.rc == 0) != (used == "good"):
            raise Violation("%s: the data to be used (%s) makes the content %s, but the run ends with %s" % ("offline" if o.offline else "online", used, "valid" if used == "good" else "invalid", res.rc), **det)
        if res.rc == 0:
            cached = used
        ctx.case(("stale", o.offline, used, now, bool(net.down), res.rc), dict(cached=cached, now=now, offline=o.offline, status=res.rc) if used != now else None)
        ctx.count("offline_runs" if o.offline else "online_runs")


def partly(ctx, i):
    """Some repositories are cached and some not, for any time, when offline runs come."""
    r = ctx.rng
    nrepos = r.choice([3, 4, 5])
    # every other repository directly below the TA, so that each is reached whatever the others do
    sh = [(0, k) for k in range(nrepos)] + [(1 + r.randrange(nrepos), r.randrange(nrepos)) for _ in range(2)]
    net = Net(ctx, nrepos, 1, sh, layout=None, ta_repo=0, items=["roa"])
    w = net.w

    def long(stage, ca, x):
        """Everything is in order for 280 days."""
        if stage == "crl":
            x["a"]["nxt"] = net.now + 290 * DAY
        elif stage == "mft":
            x["nxt"] = x["ee"]["na"] = net.now + 290 * DAY
        return x
    net.set(net.build(long))
    third = set(range(1, nrepos))
    have = set()
    up = set(r.sample(sorted(third), r.randrange(1, nrepos - 1)))
    for k in range(6):
        offline = k > 0 and (k == 1 or r.random() < 0.75)
        if k and not offline:
            up = set(r.sample(sorted(third), r.randrange(nrepos)))
        # all of them answer offline runs
        net.down = set() if offline else {hostname(net, j) for j in third - up}
        src = dict(net.src.objects)
        src["%sx%d.gbr" % (net.repos[0].rsync, k)] = r.randbytes(10)
        net.set({net.repos[0].notify: src}, only=[0], fresh=r.random() < 0.15)
        for j in third:
            if k and r.random() < 0.3:
                new = dict(net.sources[j].objects)
                new["%sx%d.gbr" % (net.repos[j].rsync, k)] = r.randbytes(10)
                net.set({net.repos[j].notify: new}, only=[j], fresh=r.random() < 0.2)
        o = net.opts(offline=offline, reject=False, verbose=r.choice([0, 3]))
        v0 = w.view()
        res = net.run(o)
        asked = judge(net, o, res, () if offline or w.now - net.now >= 280 * DAY else up - have, "run %d with %s cached, after %s" % (k, sorted(have), w.log[-2:]), up)
        if w.now - net.now < 280 * DAY:
            if res.rc != 0:
                raise Violation("content is not to be rejected, but the run fails: %s" % res.brief(), log=w.log[-6:])
            check_published(w, o, v0)
        if res.rc == 0 and not offline:
            have |= up
        ctx.case(("partly", offline, nrepos, len(have), k, (w.now - net.now) // DAY > 0, (w.now - net.now) // (30 * DAY) > 0, res.rc, asked), None)
        ctx.count("offline_runs" if offline else "online_runs")
        ctx.count("repositories_not_contacted", len(third) if offline else 0)
        w.advance(r.choice([0, 60, 5000, DAY, 2 * DAY, 8 * DAY, 35 * DAY, 35 * DAY, 80 * DAY]))
