"""C15: validation flags every invalid object and no valid one."""
import hashlib, shutil, os, zlib

from vlib import rpki
from vlib.check import Violation
from vlib.rpki import DAY, MFT, ROA, ASPA
from vlib.rpkinet import Net

ID, LEVEL = "C15", "exploration"
TECHNIQUE = "runtime monitoring: generated RPKI trees with at most one known defect are synchronised with rejection of invalid content; the verdict (exit status, nothing published) compared with the defect"
NOTE = "In all explored trees a run that rejects invalid content accepts a tree without a defect and refuses the same tree with one defect."
RULE = "One case is one synchronisation of one tree. Distinct: (defect, type of object, depth of the CA, number of CAs, several TAs or repositories, verdict)."
ASSUMPTIONS = ["defects are those named in the property; dates of manifests and CRLs in the future, unlisted objects and Ghostbuster records are not judged"]

OVER4, OVER6, OVERAS = "172.16.0.0/16", "2001:dead::/32", 4200000000


def hook(stage, ca, f):
    """A defect of one CA at one stage."""
    def d(st, c, x):
        if st == stage and c is ca:
            f(x)
        return x
    return d


# A defect is a name and a hook: defects(net, tree, ca) lists all that are possible at a CA.
def defects(t, ca, rng):
    now, out = t.now, []
    k = ca.key
    other = t.other
    m, c = ca.mft_name, ca.crl_name

    def add(name, stage, f, cut=None, about=None):
        # cut: the CAs below that nothing valid leads to any more; about: the file that is not in order
        cut = ca.children if name[:3] in ("mft", "crl") else [] if cut is None else cut
        h = hook(stage, ca, f)
        h.about = about or dict(mft=m, crl=c)[name[:3]]
        out.append((name, h, cut))

    # ---- manifest
    def mft(**kw):
        def f(x):
            for a, b in kw.items():
                if a in ("ee", "sig"):
                    x[a] = dict(x[a], **b)
                else:
                    x[a] = b
        return f

    def remove(n):
        return lambda x: x["files"].pop(n)

    def change(n, g):
        def f(x):
            x["files"][n] = g(x["files"][n])
        return f
    add("mft missing", "files", remove(m))
    add("mft garbage", "mft", mft(data=rng.randbytes(200)))
    add("mft empty", "mft", mft(data=b""))
    add("mft truncated", "files", change(m, lambda b: b[:-rng.randrange(1, len(b))]))
    add("mft signature", "mft", mft(sig=dict(corrupt=True)))
    add("mft signed by another key", "mft", mft(sig=dict(signer=other)))
    add("mft digest", "mft", mft(sig=dict(digest_of=b"something else")))
    add("mft EE signature", "mft", mft(ee=dict(corrupt=True)))
    add("mft EE signed by another key", "mft", mft(ee=dict(signer=other)))
    add("mft EE expired", "mft", mft(ee=dict(na=now - 2)))
    add("mft EE expired long ago", "mft", mft(ee=dict(nb=now - 400 * DAY, na=now - 300 * DAY)))
    add("mft EE not yet valid", "mft", mft(ee=dict(nb=now + 3)))
    add("mft stale", "mft", mft(nxt=now - 2))
    add("mft stale long", "mft", mft(this=now - 90 * DAY, nxt=now - 80 * DAY))
    add("mft revoked", "crl", lambda x: x["a"].update(revoked=[ca.serial + 1000]))
    add("mft revoked among many", "crl", lambda x: x["a"].update(revoked=[ca.serial + 1000] + [10_000_000 + i for i in range(rng.randrange(1, 300))]))
    add("mft of the wrong type", "mft", lambda x: x.update(data=rpki.cms(ROA, rpki.mft_content(x["number"], x["this"], x["nxt"], x["entries"]), t.ee[0], rpki.cert(serial=x["serial"], **x["ee"]), now - DAY)))
    add("mft overclaims", "mft", mft(ee=dict(v4=[OVER4])))
    if ca.parent is not None:
        add("mft EE signed by the parent", "mft", mft(ee=dict(signer=ca.parent.key)))
        add("mft of the parent", "mft", mft(ee=dict(issuer=ca.parent.key)))
    # ---- CRL
    add("crl missing", "files", remove(c))
    add("crl not listed", "entries", lambda x: x["e"].pop(c))
    add("crl garbage", "crl", lambda x: x.update(data=rng.randbytes(100)))
    add("crl empty", "crl", lambda x: x.update(data=b""))
    add("crl hash", "files", change(c, lambda b: rpki.crl(k, ca.number + 1, now - DAY, now + 7 * DAY)))
    add("crl signature", "crl", lambda x: x["a"].update(corrupt=True))
    add("crl signed by another key", "crl", lambda x: x["a"].update(signer=other))
    add("crl stale", "crl", lambda x: x["a"].update(nxt=now - 2))
    add("crl stale long", "crl", lambda x: x["a"].update(this=now - 90 * DAY, nxt=now - 60 * DAY))
    if ca.parent is not None:
        add("crl of the parent", "crl", lambda x: x["a"].update(issuer=ca.parent.key))
    add("crl listed twice, once with another hash", "mft", lambda x: twice(rng, x, c))
    # ---- listed objects
    names = [(it["name"], it["kind"], it["serial"], []) for it in ca.items] + [(ch.handle + ".cer", "ca", 1000000 + t.cas.index(ch), [ch]) for ch in ca.children]
    for n, kind, serial, cut in names:
        add(kind + " missing", "files", remove(n), cut, n)
        add(kind + " bit flipped", "files", change(n, lambda b: flipped(rng, b)), cut, n)
        add(kind + " hash", "entries", lambda x, n=n: x["e"].update({n: hashlib.sha256(b"x").digest()}), cut, n)
        add(kind + " listed twice, once with another hash", "mft", lambda x, n=n: twice(rng, x, n), cut, n)
        if kind == "gbr":
            continue        # what is in it does not count
        add(kind + " revoked", "crl", lambda x, s=serial: x["a"].update(revoked=[s]), cut, n)
        add(kind + " revoked among many", "crl", lambda x, s=serial: x["a"].update(revoked=[s, 3] + [10_000_000 + i for i in range(rng.randrange(1, 300))]), cut, n)
    for it in ca.items:
        kind = it["kind"]
        if kind == "gbr":
            continue

        def obj(name, it=it, data=None, **kw):
            def f(x):
                if x["it"] is it:
                    x["data"] = t.obj(ca, it, **kw) if data is None else data(x["data"])
            add(it["kind"] + " " + name, "item", f, None, it["name"])
        obj("garbage", data=lambda b: rng.randbytes(150))
        obj("empty", data=lambda b: b"")
        obj("truncated", data=lambda b: b[:-rng.randrange(1, len(b))])
        e = "EE " if kind != "router" else ""
        obj(e + "signature", ee=dict(corrupt=True))
        obj(e + "signed by another key", ee=dict(signer=other))
        obj(e + "expired", ee=dict(na=now - 2))
        obj(e + "expired long ago", ee=dict(nb=now - 500 * DAY, na=now - 200 * DAY))
        obj(e + "not yet valid", ee=dict(nb=now + 3))
        if ca.parent is not None:
            obj(e + "signed by the parent", ee=dict(signer=ca.parent.key))
            obj(e + "issued by the parent", ee=dict(issuer=ca.parent.key))
        if kind == "router":
            obj("overclaims", ee=dict(asn=[OVERAS]))
            obj("overclaims besides", ee=dict(asn=it["asns"] + [OVERAS]))
            if not ca.whole and ca.asn == [(64496, 65500)]:
                obj("overclaims the parent's", ee=dict(asn=[65534]))
            continue
        obj("signature", sig=dict(corrupt=True))
        obj("signed by another key", sig=dict(signer=other))
        obj("digest", sig=dict(digest_of=b"x"))
        obj("of the wrong type", data=lambda b, it=it: wrong_type(t, ca, it))
        if kind == "roa":
            p4, p6 = [p for p, _ in it["prefixes"] if ":" not in p], [p for p, _ in it["prefixes"] if ":" in p]
            obj("EE overclaims", ee=dict(v4=p4 + [OVER4]))
            obj("EE overclaims v6", ee=dict(v6=p6 + [OVER6]))
            obj("prefix not in EE", content=rpki.roa_content(it["asn"], it["prefixes"] + [(OVER4, None)]))
            obj("prefix v6 not in EE", content=rpki.roa_content(it["asn"], it["prefixes"] + [(OVER6, None)]))
            obj("prefix larger than EE", content=rpki.roa_content(it["asn"], [(p4[0].replace("/24", "/23") if int(p4[0].split(".")[2]) % 2 == 0 else p4[0].rsplit(".", 2)[0] + ".0.0/16", None)]))
            obj("EE and prefix overclaim", ee=dict(v4=[OVER4], v6=None), content=rpki.roa_content(it["asn"], [(OVER4, None)]))
            if not ca.whole and ca.v4 != ["10.0.0.0/8", "192.168.0.0/16"]:
                obj("EE and prefix of a relative", ee=dict(v4=["10.250.0.0/16"], v6=None), content=rpki.roa_content(it["asn"], [("10.250.0.0/16", 24)]))
        else:
            obj("EE overclaims", ee=dict(asn=[it["customer"], OVERAS]))
            obj("customer not in EE", content=rpki.aspa_content(it["customer"] + 500, it["providers"]))
            obj("EE and customer overclaim", ee=dict(asn=[OVERAS]), content=rpki.aspa_content(OVERAS, it["providers"]))
            if not ca.whole and ca.asn == [(64496, 65500)]:
                obj("EE and customer of a relative", ee=dict(asn=[65534]), content=rpki.aspa_content(65534, it["providers"]))
    for ch in ca.children:
        def child(name, ch=ch, data=None, **kw):
            def f(x):
                if x["child"] is ch:
                    x["data"] = t.child_cert(ch, **kw) if data is None else data(x["data"])
            add("ca " + name, "child", f, [ch], ch.handle + ".cer")
        child("garbage", data=lambda b: rng.randbytes(150))
        child("empty", data=lambda b: b"")
        child("truncated", data=lambda b: b[:-rng.randrange(1, len(b))])
        child("signature", corrupt=True)
        child("signed by another key", signer=other)
        child("signed by itself", signer=ch.key)
        child("expired", na=now - 2)
        child("expired long ago", nb=now - 500 * DAY, na=now - 200 * DAY)
        child("not yet valid", nb=now + 3)
        child("overclaims v4", v4=(ch.v4 or []) + [OVER4])
        child("overclaims v6", v6=(ch.v6 or []) + [OVER6])
        child("overclaims AS", asn=ch.asn[:1] + [OVERAS] if ch.asn else [OVERAS])
        if ca.parent is not None:
            child("issued by the grandparent", issuer=ca.parent.key)
            child("signed by the grandparent", signer=ca.parent.key)
        if not ca.whole and ca.v4 != ["10.0.0.0/8", "192.168.0.0/16"]:
            child("has resources of a relative", v4=ch.v4 + ["10.250.0.0/16"])
        if not ca.whole and ca.asn == [(64496, 65500)]:
            child("has AS of a relative", asn=[(64496, 65534)])
        if ca.v6 is None and not ca.whole:
            child("has v6 where the issuer has none", v6=["2001:db8:fa00::/40"])
    return out


def reached(t, cut):
    bad, out = set(cut), []
    for c in t.cas:
        if c in bad or c.parent in bad:
            bad.add(c)
        else:
            out.append(c)
    return out


def twice(rng, x, n):
    e = list(x["entries"])
    e.insert(rng.choice([0, len(e)]), (n, rng.randbytes(32)))
    x["entries"] = e


def flipped(rng, b):
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:]


def wrong_type(t, ca, it):
    """Right content, but the CMS says it is something else."""
    import copy
    save = rpki.ROA, rpki.ASPA
    try:
        rpki.ROA, rpki.ASPA = rpki.ASPA, rpki.ROA
        return t.obj(ca, it)
    finally:
        rpki.ROA, rpki.ASPA = save


def tasks(tier, seed):
    n = 40 if tier == "quick" else 1500
    for i in range(n):
        yield "tree", dict(i=i, n=18 if tier == "quick" else 60)
    for i in range(12 if tier == "quick" else 200):
        yield "good", dict(i=i)


def shape(rng, kind, nrepos):
    def repo():
        return rng.randrange(nrepos) if rng.random() < 0.5 else 0
    if kind == "chain":
        n = rng.choice([2, 3, 5, 9])
        return [(i, repo() if i < n - 1 else 0) for i in range(n)]
    if kind == "wide":
        return [(0, repo()) for _ in range(rng.choice([0, 2, 6]))] + [(0, 0)]
    n = rng.choice([1, 2, 4, 6])
    return [(rng.randrange(i + 1), repo() if i < n - 1 else 0) for i in range(n)]


def make(ctx, i, nrepos=None, **kw):
    r = ctx.rng
    kind = ("chain", "wide", "random")[i % 3]
    nrepos = nrepos or (1 if r.random() < 0.6 else r.choice([2, 3]))
    ntas = 1 if r.random() < 0.7 else 2
    net = Net(ctx, nrepos, ntas, lambda rng: shape(rng, kind, nrepos), layout=None, ta_repo=r.randrange(nrepos), **kw)
    return net, kind


def describe(net, kind):
    return dict(shape=kind, cas=[[(c.handle, c.depth, net.repos.index(c.repo), [it["kind"] for it in c.items]) for c in t.cas] for t in net.trees])


def accepted(net, res):
    return res.rc == 0 and net.w.view().key() == net.src.key()


def clear(net):
    for n in os.listdir(net.w.root):
        shutil.rmtree(os.path.join(net.w.root, n))
    del net.w.log[:]


def tree(ctx, i, n):
    r = ctx.rng
    net, kind = make(ctx, i)
    good = net.build()
    net.set(good)
    cand = []
    for ti, t in enumerate(net.trees):
        for ca in t.cas:
            for name, hk, cut in defects(t, ca, r):
                cand.append((name, ti, ca, hk, cut))
    # all kinds of defects rather than all places, and each kind in turn
    r.shuffle(cand)
    kinds = {}
    for x in cand:
        kinds.setdefault(x[0], x)
    pick = [kinds[k] for k in sorted(kinds, key=lambda k: (zlib.crc32(k.encode()), k))]
    at = i * n % len(pick)
    pick = (pick + pick)[at:at + n]
    info = describe(net, kind)
    net.w.log.append("good")
    res = net.run(reject=True, verbose=r.choice([0, 1]))
    if not accepted(net, res):
        raise Violation("a tree in which everything is in order is refused: %s" % res.brief(), tree=info, err=res.err[-600:])
    ctx.case(("none", kind, len(net.trees), len(net.repos), res.rc), dict(tree=info, status=res.rc))
    for name, ti, ca, hk, cut in pick:
        fresh = r.random() < 0.5
        if fresh:
            clear(net)
        net.set(net.build(hk, ti), fresh=fresh)
        here = ca.repo is net.repos[0]
        if "listed twice" in name and not here:
            continue        # whether what lies below is still reached is open
        v0 = net.w.published()
        if not fresh and len(net.repos) > 1:
            # data of other repositories may be kept for an hour
            clear(net)
            v0 = net.w.published()
        res = net.run(reject=True)
        seen = any(c.repo is net.repos[0] for tj, t in enumerate(net.trees) for c in reached(t, cut))
        if here or not seen:
            if accepted(net, res) or res.rc == 0:
                raise Violation("%s at %s (depth %d): the repository is accepted: %s" % (name, ca.handle, ca.depth, res.brief()), tree=info, defect=name, ca=ca.handle)
            if net.w.published() != v0:
                raise Violation("%s at %s: the run fails but changes what is published" % (name, ca.handle), tree=info)
        elif not accepted(net, res):
            raise Violation("the source repository is refused although the only defect is in another one (%s at %s in %s): %s" % (name, ca.handle, ca.repo.notify, res.brief()),
                            tree=info, err=res.err[-600:])
        ctx.case((name, ca.depth, kind, len(net.trees), len(net.repos), here, res.rc), dict(defect=name, ca=ca.handle, depth=ca.depth, status=res.rc, err=res.err[-200:]) if ca.depth > 1 else None)
        ctx.count("defects")
        ctx.count("at_depth_%d" % ca.depth)
        if r.random() < 0.3:
            net.set(good, fresh=r.random() < 0.5)
            if len(net.repos) > 1:
                clear(net)
            res = net.run(reject=True)
            if not accepted(net, res):
                raise Violation("after a repair everything is in order, but the tree is refused: %s" % res.brief(), tree=info, defect=name, err=res.err[-600:])
            ctx.case(("repaired", kind, len(net.trees), len(net.repos), res.rc))


def good(ctx, i):
    """Larger trees, long chains, dates close to their limits: all in order."""
    r = ctx.rng
    nrepos = r.choice([1, 2])
    if i % 2:
        n = r.choice([4, 8, 12, 20])
        sh = [(k, r.randrange(nrepos)) for k in range(n)]
    else:
        sh = [(r.randrange(k + 1), r.randrange(nrepos)) for k in range(r.choice([8, 15, 25, 41]) if i % 4 else 41)]
        if i % 8 == 0:
            sh = [(0 if k % 2 else k, p) for k, (_, p) in enumerate(sh)]
    net = Net(ctx, nrepos, 1, sh, items=None if i % 3 else ["roa", "aspa", "router", "gbr", "roa"], layout=None)
    t = net.trees[0]
    tight = r.random() < 0.6

    def d(stage, ca, x):
        if not tight:
            return x
        if stage == "item" and x["it"]["kind"] != "gbr":
            x["data"] = t.obj(ca, x["it"], ee=dict(nb=t.now - r.choice([2, 50, DAY]), na=t.now + r.choice([3, 60, DAY])))
        elif stage == "child":
            x["data"] = t.child_cert(x["child"], nb=t.now - r.choice([2, 50, DAY]), na=t.now + r.choice([3, 60, DAY]))
        elif stage == "crl":
            x["a"].update(nxt=t.now + r.choice([3, 60]), this=t.now - r.choice([2, 100]), revoked=[10_000_000 + j for j in range(r.choice([0, 1, 100, 1000]))])
        elif stage == "mft":
            x.update(nxt=t.now + r.choice([3, 60]), this=t.now - r.choice([2, 100]))
            x["ee"] = dict(x["ee"], nb=t.now - 2, na=t.now + 3)
        return x
    net.set(net.build(d))
    res = net.run(reject=True, verbose=1)
    if not accepted(net, res):
        raise Violation("a tree in which everything is in order is refused: %s" % res.brief(), tree=describe(net, "good"), err=res.err[-800:])
    ctx.case(("good", len(sh), max(c.depth for c in t.cas), nrepos, tight), dict(cas=len(t.cas), depth=max(c.depth for c in t.cas), objects=len(net.src.objects)))
    ctx.count("objects", len(net.src.objects))
