"""C26: what goes wrong is reported, and nothing else."""
import os, re

from checks import c03, c15
from vlib.check import Violation
from vlib.history import History, make_source
from vlib.oracle import check_published
from vlib.world import Opts, World

ID, LEVEL = "C26", "exploration"
TECHNIQUE = "runtime monitoring: the output of real runs over sources, CA trees and scripts with known problems is parsed and compared with these problems, in both directions"
NOTE = "In all explored runs every invalid object of the source repository, every failed script and every refused file is named at the level that fits, and what is in order is not."
RULE = "One case is one run. Distinct: (family, problems there are, rejecting, verbosity, outcome, number of lines)."
ASSUMPTIONS = ["the wording of messages is not judged, only that they carry the level and the name (URI, or path) of what they are about",
               "objects below a CA that nothing valid leads to are not looked at, and need not be named"]

LINE = re.compile(r"^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d (ERROR|WARN|INFO|DEBUG|TRACE)\b(.*)$")


def tasks(tier, seed):
    for i in range(40 if tier == "quick" else 1500):
        yield "named", dict(i=i, n=10)
    for i in range(30 if tier == "quick" else 1000):
        yield "scripts", dict(i=i)
    for i in range(60 if tier == "quick" else 1500):
        yield "silent", dict(i=i)
    for i in range(60 if tier == "quick" else 1500):
        yield "refused", dict(i=i, net=i % 3 == 2)


def lines(res):
    """[(level, text)]; what belongs to no level goes with the line before."""
    out = []
    for x in res.out.split("\n"):
        m = LINE.match(x)
        if m:
            out.append([m.group(1), m.group(2)])
        elif x and out:
            out[-1][1] += "\n" + x
        elif x:
            out.append(["", x])
    return out


def at(ls, *levels):
    return "\n".join(t for l, t in ls if l in levels)


def about_times(ls, w):
    """Without the lines on objects whose time of modification cannot be set from what is in them."""
    return [(l, t) for l, t in ls if w.rsync + "/" not in t]


def named(ctx, i, n):
    r = ctx.rng
    net, kind = c15.make(ctx, i)
    src = net.repos[0]
    net.set(net.build())
    for k in range(n):
        hooks, kinds, want, pairs, cut = [[] for _ in net.trees], [], set(), {}, [set() for _ in net.trees]
        p = r.choice([0, 0.3, 0.3, 0.7, 1])
        for ti, t in enumerate(net.trees):
            for ca in t.cas:
                if ca in cut[ti] or ca.parent in cut[ti]:
                    cut[ti].add(ca)
                    continue
                if r.random() >= p:
                    continue
                some = c15.defects(t, ca, r)
                r.shuffle(some)
                have = set()
                for name, h, below in some[:r.choice([1, 1, 2, 3, 6])]:
                    whole = name[:3] in ("mft", "crl")
                    if h.about in have or have and whole or "twice" in name or "revoked" in name and have:
                        continue
                    if "mft" == name[:3] and "CRL" in name or "listed" in name and ca.repo is not src:
                        continue
                    have.add(h.about)
                    hooks[ti].append(h)
                    kinds.append(name)
                    cut[ti] |= set(below)
                    if ca.repo is src:
                        want.add(ca.base + h.about)
                        if whole:
                            # the two that stand for the whole publication point
                            pairs[ca.base + h.about] = {ca.base + ca.mft_name, ca.base + ca.crl_name}
                    if whole or "revoked" in name:
                        break
        out = {x.notify: {} for x in net.repos}
        for ti, t in enumerate(net.trees):
            def defect(st, ca, x, ti=ti):
                for h in hooks[ti]:
                    x = h(st, ca, x)
                return x
            for u, objs in t.build(defect).items():
                out[u].update(objs)
        out[src.notify][src.rsync + "unlisted%d.gbr" % k] = b"%d" % k
        c15.clear(net)
        net.set(out, fresh=r.random() < 0.5)
        seen = any(c.repo is src for ti, t in enumerate(net.trees) for c in c15.reached(t, cut[ti]))
        reject, mode = r.random() < 0.4, r.choice(["", "", "q", "v"])
        o = net.opts(reject=reject, quiet=mode == "q", verbose=int(mode == "v"))
        res = net.run(o)
        ls = lines(res)
        det = dict(tree=c15.describe(net, kind), defects=kinds, out=res.out[-1500:], err=res.err[-300:], wanted=sorted(want))
        bad = bool(want) or not seen
        if res.rc != (1 if bad and reject else 0):
            raise Violation("with %d defects in the source repository, rejecting %s, the run ends with %s" % (len(want), reject, res.brief()), **det)
        if reject and bad:
            said = at(ls, "ERROR") + res.err
        elif mode == "q":
            if res.out or res.err:
                raise Violation("nothing stands in the way, but with --quiet there is output: %s" % (res.out + res.err)[:200], **det)
            ctx.case(("named", "quiet", len(want), seen, res.rc))
            continue
        else:
            said = at(ls, "WARN")
        uris = set(re.findall(r"rsync://[^\s,;'\"]+", said))
        uris = {u.rstrip(":.)") for u in uris}
        objects = set(out[src.notify])
        if seen:
            for u in sorted(want):
                if not uris & pairs.get(u, {u}):
                    raise Violation("%s is invalid and not named in what is printed (%s)" % (u, "ERROR" if reject else "WARN"), **det)
            for u in sorted(uris & objects - want.union(*pairs.values())):
                raise Violation("%s is in order, but is named in what is printed" % u, **det)
        elif src.notify not in said:
            raise Violation("validation does not reach the source repository, and its URI is not named in what is printed", **det)
        ls = about_times(ls, net.w)
        if not bad and (at(ls, "WARN", "ERROR", "") or res.err) and len(net.repos) == 1 and not any(hooks):
            raise Violation("everything is in order, but there are warnings or errors: %s" % (at(ls, "WARN", "ERROR", "") + res.err)[:200], **det)
        ctx.count("objects_named", len(want))
        ctx.case(("named", tuple(sorted(set(kinds)))[:4], len(want), seen, reject, mode, res.rc), dict(wanted=sorted(want)[:5], printed=said[:400]) if want else None)


def scripts(ctx, i):
    r = ctx.rng
    src = make_source(ctx, nobj=1)
    w = World(ctx, src)
    d = ctx.scratch()
    for k in range(4):
        src.publish()
        w.emit()
        ps, bad = [], []
        for j in range(r.choice([1, 2, 4])):
            p = os.path.join(d, r.choice(["check-%d-%d.sh", "my check %d.%d"]) % (k, j))
            end = r.choice(["exit 0", "exit 0", "exit 1", "exit 77", "kill -9 $$"])
            text = "trouble %d-%d" % (k, j)
            with open(p, "w") as f:
                f.write("#!/bin/sh\necho 'said %s'\necho '%s' >&2\n%s\n" % (text, text, end))
            os.chmod(p, 0o755)
            ps.append(p)
            if end != "exit 0":
                bad.append((p, text))
        mode = r.choice(["", "q"])
        o = Opts(scripts=ps, reject=r.random() < 0.5, quiet=mode == "q")
        v0 = w.view()
        res = w.run(o)
        det = dict(out=res.out[-800:], err=res.err[-300:], failing=bad, scripts=ps)
        if res.rc != int(bool(bad) and o.reject):
            raise Violation("%d of %d scripts fail, rejecting %s: the run ends with %s" % (len(bad), len(ps), o.reject, res.brief()), **det)
        said = at(lines(res), "ERROR") + res.err
        for p, text in bad:
            if p not in said:
                raise Violation("the script %s fails and is not named among the errors" % os.path.basename(p), **det)
            if text not in said:
                raise Violation("the script %s fails and what it says (stderr) is not among the errors" % os.path.basename(p), **det)
        for p in ps:
            if p not in [q for q, _ in bad] and p in at(lines(res), "ERROR", "WARN") + res.err:
                raise Violation("the script %s ends well, but is named among the errors" % os.path.basename(p), **det)
        if not bad and (res.err or at(about_times(lines(res), w), "ERROR", "WARN", "")):
            raise Violation("all scripts end well, but there are warnings or errors: %s" % (res.out + res.err)[:200], **det)
        if not res.rc:
            check_published(w, o, v0)
        ctx.case(("scripts", len(ps), len(bad), o.reject, mode, res.rc), dict(failing=bad, out=res.out[-300:]) if bad else None)
        ctx.count("scripts_failed", len(bad))


def silent(ctx, i):
    """Nothing wrong, nothing printed."""
    r = ctx.rng
    src = make_source(ctx, junk=0)
    for u in [u for u in src.objects if u.endswith(".txt")]:
        del src.objects[u]
    h = History(ctx, faults=0, src=src)
    w = h.w
    plain = src.blob
    src.blob = lambda ext: plain(ext if ext in ("cer", "roa", "mft", "crl") else "roa")
    new = src.new_uri
    src.new_uri = lambda: re.sub(r"\.\w+$", lambda m: m.group(0) if m.group(0) in (".cer", ".roa", ".mft", ".crl") else ".roa", new())
    src.new_session(nobj=2)
    h.remember()
    for _ in range(6):
        inner = h.options

        def options():
            o = inner()
            o["quiet"] = r.random() < 0.3
            return o
        res, o, _ = h.step()
        if res.rc:
            raise Violation("a run fails although nothing is wrong: %s" % res.brief(), log=w.log[-6:])
        if res.out or res.err:
            raise Violation("nothing is wrong, but there is output: %s" % (res.out + res.err)[:300], log=w.log[-6:])
        ctx.case(("silent", h.steps[-1][0], w.net, o.rsync, bool(w.xdev)))
        ctx.count("silent_runs")


def refused(ctx, i, net):
    """What is refused is named."""
    r = ctx.rng
    src, w = c03.start(ctx, net, junk=0)
    o = Opts(source="none" if net else None, quiet=r.random() < 0.5)
    if r.random() < 0.7:
        c03.put(w, src.files())
        w.must(o, "first sync")
    for k in range(5):
        src.publish()
        files = src.files()
        what = r.choice(["snapshot", "delta", "notification"])
        new = [x for x in src.listed(None) if w.view().note is None or x[0] > w.view().note.serial]
        rel = dict(snapshot=src.snap_rel, delta=new[-1][1], notification=src.name)[what]
        kinds = [q for q in c03.PLAIN + (c03.NET if net else ()) if what != "notification" or q in ("missing", "404", "500", "truncate", "empty", "reset")]
        kind = r.choice([q for q in kinds if not (net and q == "dir")])
        was = files[rel]
        if what != "notification" and r.random() < 0.4:
            # a wrong document, announced with its own hash
            kind = r.choice(c03.HONEST)
            nb = files[rel] = c03.honest(src, kind, what, src.serial, was, r)
            files[src.name] = src.notification(snap=(rel, nb) if what == "snapshot" else None, deltas=[(s, q, nb if q == rel else x) for s, q, x in src.deltas])
        else:
            c03.corrupt(src, files, rel, kind, r)
        if files.get(rel) == was or what == "notification" and isinstance(files.get(rel), bytes) and files[rel].rstrip() in (was.rstrip(), was.rstrip()[:-1]):
            files.pop(rel, None)         # white space, or what is a finding of C04
        c03.put(w, files)
        w.log.append("%s of %s" % (kind, what))
        res = w.run(o)
        det = dict(log=w.log[-5:], out=res.out[-400:], err=res.err[-600:])
        if res.rc != 1:
            raise Violation("%s of the %s: the run ends with %s" % (kind, what, res.brief()), **det)
        names = [src.base + rel, os.path.join(w.srcdir, rel)]
        said = res.err + res.out
        if not any(x in said for x in names) and not (what == "notification" and "notification" in said.lower()):
            raise Violation("%s of the %s: the run fails, but the message does not name %s" % (kind, what, names[0]), **det)
        ctx.case(("refused", what, kind, net, res.rc), dict(err=res.err[-300:]))
        ctx.count("messages_read")
        c03.put(w, src.files())
        if r.random() < 0.6:
            w.must(o, "the source is in order again")
