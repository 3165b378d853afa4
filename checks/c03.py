"""C03: corrupt, missing or unparsable source files are never published."""
from vlib import view
from vlib.check import Violation
from vlib.history import make_source
from vlib.oracle import check_published, check_rsync
from vlib.source import sha
from vlib.tls import Reply
from vlib.world import Opts, World

ID, LEVEL = "C03", "exploration"
TECHNIQUE = "runtime monitoring: corrupting source (files and local HTTPS server), published state compared before and after"
NOTE = "Every explored corruption of a file that a run has to fetch makes the run fail with an unchanged published state, and the next good source is published."
RULE = ("One case is one run whose source corrupts one or more files that the run has to fetch. Distinct: (transport, corrupted files, kind of corruption, first sync or not, "
        "whether a staged copy may exist, outcome).")
ASSUMPTIONS = ["a file that an earlier failed run already fetched and verified (same URI and hash) need not be fetched again"]

# kinds that keep the announced hash: what is served differs from it
PLAIN = ("missing", "dir", "truncate", "bitflip", "append", "empty", "swap", "case")
NET = ("404", "500", "304", "204", "short", "reset", "redirect-loop", "chunked-short")
# kinds whose hash is announced truthfully
HONEST = ("session", "serial+", "serial-", "cut", "text", "none", "other-root", "base64", "nouri", "ns", "version", "nosession", "noserial", "nested", "unclosed", "element")


def tasks(tier, seed):
    n = 250 if tier == "quick" else 5000
    for i in range(n):
        yield "rounds", dict(i=i, net=i % 4 == 3)
    for i in range(40 if tier == "quick" else 600):
        yield "restaged", dict(i=i, net=i % 2 == 1)
    yield "last", {}
    for what in ("snapshot", "delta"):
        for k in PLAIN + NET + HONEST:
            yield "each", dict(what=what, kind=k)


def honest(src, kind, what, serial, b, rng):
    """A wrong document, to be announced with its own hash."""
    t = b.decode()
    if kind == "session":
        return t.replace(src.session, "12345678-1234-4234-9234-123456789abc").encode()
    if kind in ("serial+", "serial-"):
        q = '"' if 'serial="' in t else "'"
        return t.replace("serial=%s%d%s" % (q, serial, q), "serial=%s%d%s" % (q, serial + (1 if kind == "serial+" else -1), q), 1).encode()
    if kind == "cut":
        b = b.rstrip()
        return b[:max(1, len(b) - rng.choice([2, 3, 12, len(b) // 2]))]
    if kind == "last":
        return b.rstrip()[:-1]
    if kind == "text":
        return b"this is no XML"
    if kind == "none":
        return b""
    if kind == "other-root":
        return (src.delta_xml([("rsync://repo.example.net/repo/x", b"1")], {}) if what == "snapshot" else src.snapshot_xml(serial=serial))
    end = "</%s>" % what
    if kind == "base64":
        x = "<publish uri='rsync://repo.example.net/repo/bad.cer'>!!!?</publish>"
    elif kind == "nouri":
        x = "<publish>AAAA</publish>"
    elif kind == "nested":
        x = "<publish uri='rsync://repo.example.net/repo/bad.cer'><publish uri='rsync://repo.example.net/repo/bad2.cer'>AAAA</publish></publish>"
    elif kind == "unclosed":
        x = "<publish uri='rsync://repo.example.net/repo/bad.cer'>AAAA"
    elif kind == "element":
        x = "<other uri='rsync://repo.example.net/repo/bad.cer'>AAAA</other>"
    else:
        x = None
    if x:
        return t.replace(end, x + end).encode()
    if kind == "ns":
        return t.replace("http://www.ripe.net/rpki/rrdp", "http://www.example.net/rpki/rrdp").encode()
    if kind == "version":
        return t.replace('version="1"', 'version="2"').replace("version='1'", "version='2'").encode()
    if kind == "nosession":
        return t.replace("session_id=", "sess=").encode()
    if kind == "noserial":
        return t.replace("serial=", "ser=").encode()
    raise ValueError(kind)


def corrupt(src, files, rel, kind, rng):
    b = files[rel]
    other = [x for r, x in files.items() if r not in (rel, src.name) and isinstance(x, bytes) and x != b]
    if kind == "missing":
        del files[rel]
    elif kind == "dir":
        files[rel + "/x"] = b
        del files[rel]
    elif kind == "truncate":
        files[rel] = b[:rng.randrange(len(b))]
    elif kind == "bitflip":
        i = rng.randrange(len(b))
        files[rel] = b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
    elif kind == "append":
        files[rel] = b + rng.choice([b"\n", b" ", b"\0", b"<x/>"])
    elif kind == "empty":
        files[rel] = b""
    elif kind == "swap":
        files[rel] = rng.choice(other) if other else files[src.name]
    elif kind == "case":
        files[rel] = b.upper()
    elif kind in ("404", "500"):
        files[rel] = Reply(b, int(kind))
    elif kind == "304":
        files[rel] = Reply(b"", 304)
    elif kind == "204":
        files[rel] = Reply(b"", 204)
    elif kind == "short":
        files[rel] = Reply(b, short=rng.randrange(len(b)))
    elif kind == "chunked-short":
        files[rel] = Reply(b[:len(b) // 2], chunked=True, short=1)
    elif kind == "reset":
        files[rel] = Reply(b, reset=True)
    elif kind == "redirect-loop":
        files[rel] = Reply(b"", 302, headers=[("Location", src.base + rel)])
    else:
        raise ValueError(kind)


def start(ctx, net, **kw):
    src = make_source(ctx, **kw)
    w = World(ctx, src)
    if net:
        w.serve_tls()
    return src, w


def put(w, files):
    if w.server:
        w.served = files
    else:
        w.emit(files)


def attack(ctx, src, w, o, targets, kinds, offered, net):
    """One run against a corrupted source."""
    r = ctx.rng
    files = src.files()
    deltas = {rel: s for s, rel, _ in src.deltas}
    snap, ds = (src.snap_rel, src.snap_bytes), list(src.deltas)
    fatal = False
    for rel, k in zip(targets, kinds):
        if k in HONEST or k == "last":
            serial = deltas.get(rel, src.serial)
            what = "delta" if rel in deltas else "snapshot"
            nb = honest(src, k, what, serial, files[rel], r)
            if nb == files[rel]:
                raise Violation("harness: corruption %s changes nothing" % k)
            files[rel] = nb
            if what == "snapshot":
                snap = (rel, nb)
            else:
                ds = [(s, q, nb if q == rel else x) for s, q, x in ds]
            fatal = True
        else:
            was = files[rel]
            corrupt(src, files, rel, k, r)
            if files.get(rel) == was:
                del files[rel]
            if rel not in offered:
                fatal = True
    files[src.name] = src.notification(deltas=ds, snap=snap)
    before, v0 = w.published(), w.view()
    put(w, files)
    w.log.append("corrupt %s of %s/%d" % (list(zip(kinds, ["delta %d" % deltas[t] if t in deltas else "snapshot" for t in targets])), src.session[:4], src.serial))
    res = w.run(o)
    after = w.published()
    if res.rc == 0:
        if fatal and kinds == ["last"]:
            return True
        if fatal:
            raise Violation("a run succeeds although it had to fetch corrupt files: %s" % w.log[-2], log=w.log[-8:], published=str(w.view().key()))
        check_published(w, o, v0)
        out = "staged"
    else:
        if res.rc != 1:
            raise Violation("the run ends with %s" % res.brief(), log=w.log[-8:])
        if after != before:
            raise Violation("a run that failed on corrupt files changed what is published: %s" % (view.diff(before["rrdp"], after["rrdp"]) or "rsync tree"), log=w.log[-8:], err=res.err[-300:])
        out = "refused"
    ctx.case((net, tuple(sorted(kinds)), tuple(t in deltas for t in targets), v0.note is None, fatal, out), dict(log=w.log[-2:], err=res.err[-200:]))
    ctx.count("outcome_" + out)


def rounds(ctx, i, net):
    r = ctx.rng
    src, w = start(ctx, net)
    hosts = r.random() < 0.3
    offered = set()
    if r.random() < 0.8:
        put(w, src.files())
        w.must(Opts(source="none" if net else None, include_host=hosts), what="first sync")
    for k in range(r.randrange(3, 7)):
        x = r.random()
        if x < 0.75:
            for _ in range(r.choice([1, 1, 2, 4])):
                src.publish()
        elif x < 0.9:
            src.new_session()
            for _ in range(r.choice([0, 1, 3])):
                src.publish()
        if src.key() == w.view().key():
            src.publish()
        o = Opts(source="none" if net else None, include_host=hosts, max_deltas=r.choice([None, None, 0, 1, 3]))
        for _ in range(r.choice([1, 1, 2, 3])):
            v = w.view()
            base = v.note.serial if v.note and v.note.session == src.session else -1
            needed = [src.snap_rel] + [rel for s, rel, _ in src.listed(o.max_deltas) if s > base]
            t = r.sample(needed, min(len(needed), r.choice([1, 1, 1, 2])))
            kinds = [r.choice(HONEST if r.random() < 0.4 else PLAIN + NET if net else PLAIN) for _ in t]
            kinds = ["missing" if net and q == "dir" else q for q in kinds]
            attack(ctx, src, w, o, t, kinds, offered, net)
            offered |= {q for q in needed if q not in t}
            if w.view().key() == src.key():
                break
            if r.random() < 0.3:
                src.publish()
        if r.random() < 0.7:
            v0 = w.view()
            put(w, src.files())
            w.log.append("good %s/%d" % (src.session[:4], src.serial))
            w.must(o, what="correct files again")
            check_published(w, o, v0)
            check_rsync(w, src.objects, hosts)
            ctx.count("recoveries")


def each(ctx, what, kind):
    """Every kind on a first sync and on an update, and the recovery afterwards."""
    net = kind in NET
    for upd in (False, True):
        if what == "delta" or upd:
            pass
        src = make_source(ctx, nobj=3)
        w = World(ctx, src, name="w%d" % upd)
        if net:
            w.serve_tls()
        o = Opts(source="none" if net else None)
        if upd:
            put(w, src.files())
            w.must(o)
        src.publish()
        src.publish()
        t = src.snap_rel if what == "snapshot" else src.deltas[-1][1]
        for _ in range(2):
            attack(ctx, src, w, o, [t], [kind], set(), net)
        v0 = w.view()
        put(w, src.files())
        w.must(o, what="correct files again")
        check_published(w, o, v0)
        check_rsync(w, src.objects, False)
        ctx.count("recoveries")


def restaged(ctx, i, net):
    """A file that a failed run has fetched is announced with other content in the meantime, and then cannot be fetched."""
    r = ctx.rng
    src, w = start(ctx, net, nobj=3)
    o = Opts(source="none" if net else None)
    if r.random() < 0.7:
        put(w, src.files())
        w.must(o)
    for _ in range(r.choice([1, 3])):
        src.publish()
    target = r.choice([None, None, src.deltas[0][1]])
    if w.view().note:
        target = None
    late = src.deltas[-1][1]
    for k in range(3):
        files, v0 = src.files(), w.view()
        del files[late]
        put(w, files)
        w.log.append("without %s" % late)
        if w.run(o).ok:
            # fine when that was staged before
            if not k:
                raise Violation("a run succeeds without a file that is to be published", log=w.log[-8:])
            check_published(w, o, v0)
            src.publish()
            late, target = src.deltas[-1][1], None
            ctx.count("staged_before")
            continue
        target = target or src.snap_rel
        # what is staged is right up to here; from now on it is not
        was = src.files()[target]
        nb = was + r.choice([b"\n", b"\n\n", b" "])
        if target == src.snap_rel:
            src.snap_bytes = nb
        else:
            src.deltas = [(s, rel, nb if rel == target else x) for s, rel, x in src.deltas]
        kind = r.choice((("304", "304") + NET + PLAIN) if net else PLAIN + ("stale", "stale", "stale"))
        kind = "missing" if net and kind == "dir" else kind
        if kind == "stale":
            files = src.files()
            files[target] = was
            before = w.published()
            put(w, files)
            w.log.append("stale %s" % target)
            res = w.run(o)
            if res.rc != 1 or w.published() != before:
                raise Violation("a run with a file that does not have the announced hash: %s" % res.brief(), log=w.log[-8:])
            ctx.case((net, "stale", k))
        else:
            attack(ctx, src, w, o, [target], [kind], set(), net)
    v0 = w.view()
    put(w, src.files())
    w.must(o, what="correct files again")
    check_published(w, o, v0)
    check_rsync(w, src.objects, False)
    ctx.count("recoveries")


def last(ctx):
    """The final '>' of a document is missing."""
    acc = []
    for what in ("snapshot", "delta"):
        src = make_source(ctx, nobj=3)
        w = World(ctx, src, name=what)
        src.publish()
        if attack(ctx, src, w, Opts(), [src.snap_rel if what == "snapshot" else src.deltas[-1][1]], ["last"], set(), False):
            acc.append(what)
    if acc:
        raise Violation("a %s whose last character, the > of the end tag, is missing is accepted and published" % " or ".join(acc), sig="last-character-missing")
