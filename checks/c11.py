"""C11: without a change at the source a run changes nothing."""
import os
from vlib import view
from vlib.check import Violation
from vlib.history import History, make_source
from vlib.oracle import check_published
from vlib.source import Style
from vlib.tls import Reply
from vlib.world import Opts, World

ID, LEVEL = "C11", "exploration"
TECHNIQUE = "runtime monitoring: recorded opens and HTTPS requests, file fingerprints before and after repeated runs"
NOTE = "Repeated runs on an unchanged source, in many histories and with changed options, clock and notification formatting, fetch only the notification and alter nothing."
RULE = ("One case is one repeated run after a history of successful runs. Distinct: (transport, how the notification was rewritten, options changed, time passed, deltas published).")
ASSUMPTIONS = []


def tasks(tier, seed):
    n = 150 if tier == "quick" else 3000
    for i in range(n):
        yield "repeat", dict(i=i, net=i % 4 == 3)


def repeat(ctx, i, net):
    r = ctx.rng
    src = make_source(ctx)
    w = World(ctx, src)
    so = "none" if net else None
    if net:
        w.serve_tls()
        etag = {}
        inner = w.server.lookup

        def lookup(host, path, hd):
            b = inner(host, path, hd)
            if isinstance(b, bytes) and path.endswith("/" + src.name):
                t = '"%d-%d"' % (src.serial, hash(b) % 10**9)
                if hd.get("if-none-match") == t:
                    return Reply(b"", 304, headers=[("ETag", t)])
                return Reply(b, headers=[("ETag", t)])
            return b
        w.server.lookup = lookup
    h = History(ctx, faults=0, src=src, world=w, delays=(0, 0, 5), xdev=False)
    hosts = h.include_host
    for k in range(r.randrange(2, 6)):
        if k:
            h.source_op()
        o = h.options()
        o["source"] = so
        w.served = None
        w.emit()
        w.must(o)
        if r.random() < 0.4:
            w.advance(r.choice([5, 700, 5000]))
        for m in range(r.choice([1, 1, 2, 3])):
            # the same session and serial, told differently
            how = r.choice(["same", "style", "fewer", "none", "style"])
            keep = src.style, src.deltas
            if how == "style":
                st = Style(r)
                st.attr = src.style.attr
                src.style = st
            deltas = src.deltas
            if how == "fewer" and deltas:
                deltas = deltas[-r.randrange(1, len(deltas) + 1):]
            if how == "none":
                deltas = []
            files = src.files()
            files[src.name] = src.notification(deltas=deltas)
            src.style = keep[0]
            if net:
                w.served = files
            else:
                w.emit(files)
            o2 = h.options() if r.random() < 0.5 else Opts(**o)
            o2["source"] = so
            dt = r.choice([0, 0, 1, 61, 4000, 10**6, 3 * 10**8])
            w.advance(dt)
            before = dict(rrdp=view.fingerprint(w.rrdp), rsync=view.fingerprint(w.rsync))
            nodirs(before)
            st0 = w.state_files()
            if net:
                del w.server.requests[:]
            res = w.run(o2, watch=[w.srcdir])
            if not res.ok:
                raise Violation("a run without a change at the source fails: " + res.brief(), log=w.log[-8:], how=how)
            if net:
                got = [p for _, p, _ in w.server.requests]
                want = ["/" + src.uri[8:].split("/", 1)[1]]
            else:
                got = [e.path for e in res.infos if e.op == "openr" and e.path.startswith(w.srcdir)]
                want = [os.path.join(w.srcdir, src.name)]
            if set(got) != set(want):
                raise Violation("a run without a change at the source fetches %s" % [g for g in got if g not in want], log=w.log[-8:], how=how, wanted=want)
            after = dict(rrdp=view.fingerprint(w.rrdp), rsync=view.fingerprint(w.rsync))
            nodirs(after)
            st1 = w.state_files()
            d = [x for k2 in after for x in view.diff(before[k2], after[k2])] + view.diff(st0, st1)
            if d:
                raise Violation("a run without a change at the source changes %s" % d, log=w.log[-8:], how=how, options=dict(o2))
            ctx.count("fetches", len(got))
            ctx.count("files_compared", sum(map(len, after.values())))
            ctx.case((net, how, o2 != o, o2.delay > 0, o2.rsync == o.rsync, o2.cleanup, o2.max_deltas, dt > 3600, min(3, len(deltas))), dict(log=w.log[-3:], fetched=got) if k == 1 else None)


def nodirs(fp):
    """Directories count, but not their time stamps."""
    for t in fp.values():
        for k, v in t.items():
            if v[0] == "d":
                t[k] = ("d",)
