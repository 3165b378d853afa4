"""C14: rejecting validation gates every publication."""
from vlib import rpki
from vlib.check import Violation
from vlib.oracle import check_published, check_rsync
from vlib.rpki import DAY
from vlib.rpkinet import Net
from vlib.world import Opts

from . import c15

ID, LEVEL = "C14", "exploration"
TECHNIQUE = "runtime monitoring: histories of runs over generated RPKI content with known validity under the configured TALs; exit status, published and recorded state of every run compared with a model of the gate"
NOTE = "In all explored histories invalid or unreached content is never published by a run that is to reject it, leaves everything as it was, and all other content is published."
RULE = "One case is one run. Distinct: (expected verdict, defect, options, how the content reaches us, cached data, content seen before, outcome)."
ASSUMPTIONS = ["how a defect makes content invalid is the model of C15; runs in which the age of cached data of another repository decides are not judged"]


def tasks(tier, seed):
    for i in range(40 if tier == "quick" else 2500):
        yield "history", dict(i=i, n=12)
    for i in range(10 if tier == "quick" else 300):
        yield "parent", dict(i=i)
    for i in range(8 if tier == "quick" else 200):
        yield "interrupted", dict(i=i, n=12 if tier == "quick" else 40)
    for i in range(8 if tier == "quick" else 200):
        yield "half", dict(i=i, n=10 if tier == "quick" else 40)
    for i in range(5 if tier == "quick" else 60):
        yield "large", dict(i=i)
    for i in range(8 if tier == "quick" else 200):
        yield "anchors", dict(i=i)
    for i in range(6 if tier == "quick" else 200):
        yield "switch", dict(i=i, n=14)


def chain(ca):
    while ca is not None:
        yield ca
        ca = ca.parent


class Model:
    """What is known of the content served and of the cached data."""

    def __init__(self, net):
        self.net, self.w = net, net.w
        self.bad = None                # (tree, CA, defect, valid until or None, cut) of the content served
        self.cached, self.ctals = False, None     # None: not known
        self.broken = False            # an interrupted run may have left anything

    def third(self, trees):
        return any(c.repo is not self.net.repos[0] for t in trees for c in t.cas)

    def available(self, o):
        """Is data of other repositories there? True, False or None."""
        up = not o.offline and not self.net.down
        if up:
            return True
        have = self.cached if self.ctals == tuple(o.tals) else (False if self.ctals is not None or not self.cached else None)
        if have is False:
            return False
        return True if have and o.offline else None

    def verdict(self, o):
        """accept, reject or any."""
        if not o.reject or not o.tals:
            return "accept"
        net = self.net
        trees = [t for t, p in zip(net.trees, net.tals) if p in o.tals]
        av = self.available(o) if self.third(trees) else True
        cut, wrong = [], None
        if self.bad:
            t, ca, name, until, below = self.bad
            if t in trees and (until is None or self.w.now > until):
                wrong, cut = ca, below
        # CAs of the source repository that validation arrives at: surely, perhaps
        home = net.repos[0]
        sure, perhaps = [], []
        for t in trees:
            for c in c15.reached(t, cut):
                if c.repo is home:
                    if av is True or all(x.repo is home for x in chain(c)):
                        sure.append(c)
                    elif av is None:
                        perhaps.append(c)
        if wrong is not None and wrong.repo is home:
            if wrong in sure:
                return "reject"
            if wrong in perhaps:
                return "any"
        if sure:
            return "accept"
        return "any" if perhaps else "reject"

    def done(self, o, rc, published):
        """After a run."""
        if rc == 0 and published:
            if not o.tals:
                self.cached, self.ctals = False, ()
            else:
                trees = [t for t, p in zip(self.net.trees, self.net.tals) if p in o.tals]
                if not self.third(trees):
                    self.cached = False
                elif self.bad is None and self.available(o) is True:
                    self.cached = True
                elif self.available(o) is False:
                    self.cached = False
                else:
                    self.cached = None
                self.ctals = tuple(o.tals)


def check_run(ctx, m, o, what, res, before, v0, same):
    net, w = m.net, m.w
    e = m.verdict(o)
    det = dict(log=w.log[-12:], defect=str(m.bad and (m.bad[1].handle, m.bad[2], m.bad[3])), tree=c15.describe(net, ""), err=res.err[-500:], requests=net.server.log[-8:])
    pub = (w.published(), w.state_files())
    if same:
        if pub[0] != before[0]:
            raise Violation("%s: nothing new at the source, but what is published changes" % what, **det)
    elif e == "reject":
        if res.rc != 1:
            raise Violation("%s: content with an issue is not rejected: %s" % (what, res.brief()), **det)
        if pub[0] != before[0]:
            raise Violation("%s: the run rejects the content, but what is published changes" % what, **det)
        if pub[1] != before[1]:
            raise Violation("%s: the run rejects the content, but recorded state changes" % what, **det)
    elif e == "accept":
        if res.rc != 0:
            raise Violation("%s: content that is not to be rejected is not published: %s" % (what, res.brief()), **det)
        if w.view().key() != net.src.key():
            raise Violation("%s: the run ends well, but publishes something else" % what, **det)
        check_published(w, o, None if m.broken else v0)
        if o.rsync:
            check_rsync(w, net.src.objects, o.include_host)
        m.broken = False
    elif res.rc == 1 and pub[0] != before[0]:
        raise Violation("%s: the run fails, but what is published changes" % what, **det)
    return e


def run(ctx, m, o, what, key=()):
    w, net = m.w, m.net
    same = w.view().key() == net.src.key() and not m.broken
    before, v0 = (w.published(), w.state_files()), w.view()
    res = net.run(o)
    e = check_run(ctx, m, o, what, res, before, v0, same)
    k = (e, m.bad and m.bad[2], o.reject, o.offline, len(o.tals), bool(net.down), m.cached, same, res.rc) + tuple(key)
    ctx.case(k if not same else None, dict(expected=e, defect=m.bad and m.bad[2], status=res.rc, err=res.err[-160:]) if e == "reject" else None)
    ctx.count("expect_" + ("same" if same else e))
    m.done(o, res.rc, not same)
    return res


def pick_defect(ctx, net):
    """(tree, CA, name, until, cut), hook"""
    r = ctx.rng
    ti = r.randrange(len(net.trees))
    t = net.trees[ti]
    ca = r.choice(t.cas)
    if r.random() < 0.25:
        # valid for a while
        until = net.w.now + r.choice([30, 1000, 4000, 50000])
        if r.random() < 0.5:
            hk = c15.hook("mft", ca, lambda x: x.update(nxt=until))
            return (t, ca, "mft until", until, ca.children), hk, ti
        hk = c15.hook("crl", ca, lambda x: x["a"].update(nxt=until))
        return (t, ca, "crl until", until, ca.children), hk, ti
    t.now = net.w.now
    d = c15.defects(t, ca, r)
    t.now = net.now
    # (what is not yet valid may be so at the time of the run)
    name, hk, cut = r.choice([x for x in d if "not yet" not in x[0]])
    return (t, ca, name, None, cut), hk, ti


def make(ctx, i, nrepos, ntas, nca=(1, 2, 4)):
    r = ctx.rng

    def shape(rng):
        n = rng.choice(nca)
        return [(rng.randrange(k + 1), rng.randrange(nrepos) if k < n - 1 else 0) for k in range(n)]
    return Net(ctx, nrepos, ntas, shape, layout=None, ta_repo=r.randrange(nrepos) if r.random() < 0.5 else 0, items=r.choice([None, ["roa", "aspa"], ["router", "roa"]]))


def history(ctx, i, n):
    r = ctx.rng
    net = make(ctx, i, r.choice([1, 1, 2]), r.choice([1, 1, 2]))
    m = Model(net)
    w = net.w
    good = net.build()
    spent = 0
    # reject is on most of the time
    for k in range(n):
        x = r.random()
        steps = 1 if x < 0.75 or k == 0 else r.choice([0, 2, 3])
        what = []
        for _ in range(steps):
            if r.random() < 0.55:
                bad, hk, ti = pick_defect(ctx, net)
                out = net.build(hk, ti)
                only = None if not net.sources[-1].objects else [0]
                if only and bad[1].repo is not net.repos[0]:
                    # contents of other repositories stay as they are
                    bad, out = None, dict(good)
            else:
                bad, out = None, dict(good)
                only = None if not net.sources[-1].objects else [0]
            # something unlisted and new, so that there is always a change
            out[net.repos[0].notify] = dict(out[net.repos[0].notify])
            if r.random() < 0.5 or out[net.repos[0].notify] == net.src.objects:
                out[net.repos[0].notify]["%sextra-%d.gbr" % (net.repos[0].rsync, k)] = r.randbytes(20)
            if only is None and bad and bad[1].repo is not net.repos[0]:
                bad, out2 = None, dict(good)
                out2[net.repos[0].notify] = dict(good[net.repos[0].notify])
                out = out2
            fresh = r.random() < 0.15
            net.set(out, fresh=fresh, only=only)
            m.bad = bad
            what.append("%s%s" % (bad[2] if bad else "good", " (new session)" if fresh else ""))
        w.log.append("; ".join(what))
        if r.random() < 0.1 and len(net.repos) > 1:
            net.down = {"rrdp1.example.net"} if not net.down else set()
        adv = r.choice([0, 1, 60, 1000, 4000, 20000, 60000])
        if spent + adv < 5 * DAY:
            spent += adv
            w.advance(adv)
        if m.bad and m.bad[3] is not None and abs(m.bad[3] - w.now) <= 1:
            w.advance(2)
        tals = net.tals if r.random() < 0.7 else r.sample(net.tals, r.randrange(len(net.tals) + 1))
        o = net.opts(tals=tuple(tals), reject=r.random() < 0.8, offline=r.random() < 0.2, rsync=r.random() < 0.8, include_host=False, max_deltas=r.choice([None, None, 0, 1, 3]),
                     verbose=r.choice([0, 0, 0, 3]), cleanup=r.choice([0, 3600]))
        run(ctx, m, o, "run %d" % k, (steps,))


def interrupted(ctx, i, n):
    """A run on content that is to be rejected is stopped anywhere; the runs after it reject as well."""
    r = ctx.rng
    net = make(ctx, i, 1, 1)
    m = Model(net)
    w = net.w
    good = net.build()
    o = net.opts(reject=True)
    if i % 2:
        net.set(good)
        run(ctx, m, o, "good run")
    bad, hk, ti = pick_defect(ctx, net)
    while bad[3] is not None:
        bad, hk, ti = pick_defect(ctx, net)
    net.set(net.build(hk, ti), fresh=r.random() < 0.3)
    m.bad = bad
    w.log.append(bad[2])
    sv, ssv = w.save(), None
    res = run(ctx, m, o, "whole run")
    total = len(res.events)
    ctx.count("events_of_rejected_runs", total)
    for at in sorted(r.sample(range(1, total + 1), min(n, total))):
        w.restore(sv)
        for kind in r.sample(["k", "K", "e28", "e13", "e5"], 2):
            before = (w.published(), w.state_files())
            res = w.run(o, fault={at: kind})
            if (w.published(), w.state_files()) != before:
                raise Violation("a run on invalid content (%s), disturbed at operation %d (%s), changes what is published or recorded" % (bad[2], at, kind), log=w.log[-8:])
            ctx.case(("interrupted", bad[2], kind, res.rc))
        run(ctx, m, o, "run after an interrupted one", ("after",))
    # and good content comes through
    net.set(good)
    m.bad = None
    run(ctx, m, o, "run with repaired content", ("repaired",))


def half(ctx, i, n):
    """A run that publishes content that is in order is stopped anywhere; content that is not is rejected all the same afterwards."""
    r = ctx.rng
    net = make(ctx, i, 1, 1)
    m = Model(net)
    w = net.w
    o = net.opts(reject=True)

    def extra(out, k):
        out[net.repos[0].notify] = dict(out[net.repos[0].notify])
        out[net.repos[0].notify]["%sextra-%d.gbr" % (net.repos[0].rsync, k)] = r.randbytes(20)
        return out
    if i % 4:
        net.set(net.build())
        run(ctx, m, o, "good run")
    net.set(extra(net.build(), 1))
    sv, at_src = w.save(), [s.save() for s in net.sources]
    res = net.run(o)
    if res.rc != 0:
        raise Violation("content that is in order is not published: %s" % res.brief(), log=w.log[-6:], err=res.err[-500:])
    total = len(res.events)
    # most of what a run does last comes after the content was accepted
    points = {p for p in range(total - 30, total + 1) if p > 0}
    points = sorted(r.sample(sorted(points), min(n * 2 // 3, len(points))) + r.sample(range(1, total + 1), min(n // 3, total)))
    for at in points:
        w.restore(sv)
        m.bad = None
        for s, x in zip(net.sources, at_src):
            s.load(x)
        for k in range(len(net.sources)):
            net.serve(k)
        w.run(o, fault={at: r.choice(["k", "k", "K", "e28"])})
        bad, hk, ti = pick_defect(ctx, net)
        while bad[3] is not None:
            bad, hk, ti = pick_defect(ctx, net)
        net.set(extra(net.build(hk, ti), 2), fresh=r.random() < 0.2)
        m.bad, m.broken = bad, True
        w.log.append(bad[2])
        run(ctx, m, o, "run after one stopped at operation %d of %d" % (at, total), ("half",))
        ctx.count("runs_after_partial_publication")
        if r.random() < 0.3:
            m.bad = None
            net.set(extra(net.build(), 3))
            run(ctx, m, o, "content in order after one stopped at operation %d" % at, ("half",))


def large(ctx, i):
    """A single issue among very many objects that are in order."""
    r = ctx.rng
    many = r.choice([70, 150, 240])
    if i % 2:
        # one CA with all of them
        net = Net(ctx, 1, 1, [(0, 0)][:i % 3], layout=None, items=[r.choice(["roa", "roa", "aspa", "router", "gbr"]) for _ in range(many)])
    else:
        # many CAs with a few each
        n = many // 10
        net = Net(ctx, 1, 1, [(r.randrange(k + 1), 0) for k in range(n)], layout=None, items=["roa"] * 6 + ["aspa"])
    m = Model(net)
    w = net.w
    objs = sum(len(c.items) for c in net.trees[0].cas)
    for k in range(4):
        bad, hk, ti = pick_defect(ctx, net)
        while bad[3] is not None or (k % 2 and bad[2].startswith(("mft", "crl"))):
            bad, hk, ti = pick_defect(ctx, net)
        net.set(net.build(hk, ti), fresh=r.random() < 0.2)
        m.bad = bad
        w.log.append("%s at %s; %d objects, %d CAs" % (bad[2], bad[1].handle, objs, len(net.trees[0].cas)))
        run(ctx, m, net.opts(reject=True), "one issue among %d objects" % objs, ("large",))
    m.bad = None
    net.set(net.build(), fresh=True)
    run(ctx, m, net.opts(reject=True), "%d objects in order" % objs, ("large",))
    ctx.count("objects_in_large_trees", objs)


def parent(ctx, i):
    """The verdict on the source's content depends on a CA in another repository, which changes."""
    r = ctx.rng
    net = Net(ctx, 2, 1, [(0, 1), (1, 0), (2, 0)][:r.choice([2, 3])] , layout=None, ta_repo=1, items=["roa", "aspa"])
    m = Model(net)
    w = net.w
    t = net.trees[0]
    child = t.cas[2]
    state = "good"
    build = net.build
    if i % 5 == 0:
        # much data in the other repository
        big = {net.repos[1].rsync + "big%d.bin" % k: r.randbytes(1_300_000) for k in range(2)}

        def more(*a):
            out = build(*a)
            out[net.repos[1].notify].update(big)
            return out
        net.build = more
    net.set(net.build())
    o = net.opts(reject=True)
    run(ctx, m, o, "first run")
    gone_back = False
    back = None                     # an earlier state of the parent's repository
    for k in range(8):
        was, kept = state, net.sources[1].save()
        state = r.choice(["good", "fewer", "revoked", "fewer AS", "withdrawn", "good"])
        hk = None
        if state == "fewer":
            hk = c15.hook("child", child.parent, lambda x: x.update(data=t.child_cert(child, v4=["10.250.0.0/16"])) if x["child"] is child else None)
        elif state == "fewer AS":
            hk = c15.hook("child", child.parent, lambda x: x.update(data=t.child_cert(child, asn=[65001])) if x["child"] is child else None)
        elif state == "withdrawn":
            hk = c15.hook("files", child.parent, lambda x: x["files"].pop(child.handle + ".cer", None))
        elif state == "revoked":
            hk = c15.hook("crl", child.parent, lambda x: x["a"].update(revoked=[1000000 + t.cas.index(child)]))
        out = net.build(hk)
        if r.random() < 0.3 and state != "good" and not gone_back:
            # the parent changes more than once
            net.set(net.build(), only=[1])
        net.set(out, fresh=r.random() < 0.2 or gone_back, only=[1])
        gone_back = False
        x = r.random()
        how = ""
        if x < 0.12 and net.sources[1].deltas:
            # a delta that is not what the notification says
            s1 = net.sources[1]
            ser, rel, b = s1.deltas[-1]
            net.served[("rrdp1.example.net", "/" + s1.base[8:].split("/", 1)[1])][rel] = s1.delta_xml([], {}, serial=ser)
            how = "tampered"
        elif x < 0.22 and state != "good":
            # no deltas lead there, and instead of the snapshot there is an older one
            s1 = net.sources[1]
            s1.drop_deltas(0)
            net.serve(1)
            net.served[("rrdp1.example.net", "/" + s1.base[8:].split("/", 1)[1])][s1.snap_rel] = s1.snapshot_xml(objects=dict(kept[2])) if r.random() < 0.5 else kept[5]
            how = "older snapshot"
        elif x < 0.32 and net.sources[1].deltas:
            how = "lag"
            # a notification whose deltas do not lead up to its serial
            net.sources[1].deltas.pop()
            net.serve(1)
        elif x < 0.45 and back and net.sources[1].session == back[1][0]:
            # the repository goes back to an earlier serial, restored from a backup
            state = back[0]
            net.sources[1].load(back[1])
            gone_back = True        # no serial is used for other content
            net.serve(1)
        elif x < 0.64:
            net.sources[1].drop_deltas(r.choice([0, 1]))
            net.serve(1)
        src = dict(net.src.objects)
        src["%sx%d.gbr" % (net.repos[0].rsync, k)] = r.randbytes(10)
        net.set({net.repos[0].notify: src}, only=[0])
        w.advance(r.choice([3700, 5000, 20000]))
        if back is None or r.random() < 0.4:
            back = (was, kept)
        w.log.append("parent: %s %s" % (state, how))
        before, v0 = (w.published(), w.state_files()), w.view()
        res = net.run(o)
        det = dict(log=w.log[-12:], err=res.err[-500:], requests=net.server.log[-8:])
        if state == "good":
            if res.rc != 0 or w.view().key() != net.src.key():
                raise Violation("the content is in order again, but is not published: %s" % res.brief(), **det)
            check_published(w, o, v0)
        else:
            if res.rc != 1:
                raise Violation("the content is not in order under its parent CA's current certificate (%s), but is not rejected: %s" % (state, res.brief()), **det)
            if (w.published(), w.state_files()) != before:
                raise Violation("a rejecting run changes what is published or recorded", **det)
        ctx.case(("parent", state, res.rc, len(net.server.log), how or ("back" if gone_back else "")))


def anchors(ctx, i):
    """TA certificates that do not lead to the source repository."""
    r = ctx.rng
    net = make(ctx, i, 1, 1)
    m = Model(net)
    w = net.w
    t = net.trees[0]
    good = net.build()
    if i % 2:
        net.set(good)
        run(ctx, m, net.opts(reject=True), "good run")
    other = rpki.Tree(r, [rpki.Repo("https://rrdp9.example.net/n.xml", "rsync://repo9.example.net/x/")], net.now, shape=[(0, 0)])
    o9 = other.build()[other.repos[0].notify]
    cases = {
        "expired": t.ta_cert(na=t.now - 5), "not yet valid": t.ta_cert(nb=t.now + 500), "corrupt": t.ta_cert(corrupt=True), "other key": other.ta_cert(), "garbage": r.randbytes(100), "missing": None,
        "other manifest": t.ta_cert(mft=t.cas[0].base + "other.mft"), "elsewhere": t.ta_cert(notify="https://rrdp8.example.net/none.xml"), "signed by another": t.ta_cert(signer=t.other),
        "no resources for the children": t.ta_cert(v4=["172.16.0.0/16"], v6=None, asn=[1]),
    }
    # a whole tree in the same place in which everything is in order, only under another key
    twin = rpki.Tree(r, net.repos, net.now, shape=[(0, 0)], host="ta.example.net")
    while twin.cas[0].key is t.cas[0].key:
        twin = rpki.Tree(r, net.repos, net.now, shape=[(0, 0)], host="ta.example.net")
    cases["everything under another key"] = twin.ta_cert()
    keys = sorted(cases)
    r.shuffle(keys)
    for k, name in enumerate(keys[:6] if "under" in " ".join(keys[:6]) else keys[:5] + ["everything under another key"]):
        out = dict(good) if "under" not in name else twin.build()
        out[net.repos[0].notify] = dict(out[net.repos[0].notify])
        out[net.repos[0].notify]["%sy%d.gbr" % (net.repos[0].rsync, k)] = r.randbytes(10)
        net.set(out, fresh=r.random() < 0.2)
        net.tas["/ta.cer"] = cases[name]
        before, v0 = (w.published(), w.state_files()), w.view()
        res = net.run(reject=True)
        w.log.append("TA certificate: " + name)
        if res.rc != 1:
            raise Violation("a TA certificate that is wrong (%s): content is not rejected: %s" % (name, res.brief()), log=w.log[-6:])
        if (w.published(), w.state_files()) != before:
            raise Violation("a rejecting run changes what is published or recorded (TA certificate: %s)" % name, log=w.log[-6:])
        ctx.case(("anchor", name, res.rc, v0.note is None), dict(ta=name, err=res.err[-200:]))
        # the right one again
        net.tas["/ta.cer"] = t.ta_cert()
        if "under" in name:
            # now the key of the TAL
            with open(net.tals[0], "rb") as f:
                tal = f.read()
            if r.random() < 0.7:
                with open(net.tals[0], "wb") as f:
                    f.write(twin.tal())
                net.tas["/ta.cer"] = twin.ta_cert()
                v0 = w.view()
                res = net.run(reject=True)
                if res.rc != 0 or w.view().key() != net.src.key():
                    raise Violation("the TAL has the key now that all is in order under, but the content is not published: %s" % res.brief(), log=w.log[-6:], err=res.err[-500:])
                check_published(w, net.opts(), v0)
                ctx.case(("anchor", "TAL changed", res.rc))
                # and content that is in order under the TAL before only
                net.set(good)
                net.tas["/ta.cer"] = t.ta_cert()
                before = (w.published(), w.state_files())
                res = net.run(reject=True)
                if res.rc != 1 or (w.published(), w.state_files()) != before:
                    raise Violation("the content is in order under a TAL that is not used any more, but is not rejected: %s" % res.brief(), log=w.log[-6:], err=res.err[-500:])
                ctx.case(("anchor", "TAL changed, old content", res.rc))
                with open(net.tals[0], "wb") as f:
                    f.write(tal)
            net.set(good)
            out = dict(good)
            out[net.repos[0].notify] = dict(good[net.repos[0].notify])
            out[net.repos[0].notify]["%sz%d.gbr" % (net.repos[0].rsync, k)] = r.randbytes(10)
            net.set(out)
        run(ctx, m, net.opts(reject=True), "run after a wrong TA certificate (%s)" % name, (name,))


def switch(ctx, i, n):
    """Other TALs from run to run; the content is in order under one of them only."""
    r = ctx.rng
    net = make(ctx, i, 1, r.choice([2, 3]))
    m = Model(net)
    w = net.w
    size = r.choice([1, 1, 2])
    for k in range(n):
        # what only depends on the tree the defect is in
        while True:
            bad, hk, ti = pick_defect(ctx, net)
            if bad[3] is None:
                break
        out = net.build(hk, ti)
        out[net.repos[0].notify]["%sextra-%d.gbr" % (net.repos[0].rsync, k)] = r.randbytes(20)
        net.set(out, fresh=r.random() < 0.1)
        m.bad = bad
        w.log.append("%s in %s" % (bad[2], bad[0].name))
        w.advance(r.choice([0, 60, 4000]))
        tals = tuple(r.sample(net.tals, size))
        o = net.opts(tals=tals, reject=True, offline=r.random() < 0.2, rsync=False)
        run(ctx, m, o, "run %d" % k, ("switch",))
