"""C12: at most one run is active per state directory."""
import os, signal, threading, time
from vlib import view
from vlib.check import Inconclusive, Violation
from vlib.history import make_source
from vlib.oracle import check_published, check_rsync
from vlib.world import Opts, World

ID, LEVEL = "C12", "exploration"
TECHNIQUE = "runtime monitoring: a run stopped at each of its operations while competing runs are started and watched; simultaneous starts; lock checked after every kind of end"
NOTE = ("A competitor was started at every monitored operation of the holder, reads included, in all prepared situations; real simultaneous starts only as often as they happened to occur.")
RULE = ("One case is one competing start. Distinct: (situation, operation the holder is stopped at, how the competitor names the directory and what it is to do), "
        "(way the holder ended), or (number of simultaneous starts, outcome).")
ASSUMPTIONS = ["a local file system whose file locks work"]

HELD = "another krill-sync process holds the lock"
SITUATIONS = ("first", "update", "unchanged", "session", "failing", "delay", "script", "killed-before", "cleanup")
ENDS = ("ok", "source-gone", "reject", "killed", "signal-term", "signal-int", "enospc", "background-child", "background-child-failed")


def tasks(tier, seed):
    n = 3 if tier == "quick" else 40
    for v in range(n):
        for s in SITUATIONS:
            parts = 4
            for p in range(parts):
                yield "stopped", dict(situation=s, variant=v, part=p, parts=parts)
    for i in range(60 if tier == "quick" else 3000):
        yield "together", dict(i=i)
    for i in range(3 if tier == "quick" else 40):
        for e in ENDS:
            yield "after", dict(end=e, i=i)
    for v in range(1 if tier == "quick" else 12):
        for s in SITUATIONS:
            yield "relay", dict(situation=s, variant=v)
    for i in range(24 if tier == "quick" else 400):
        yield "settings", dict(i=i)


def prepare_situation(ctx, name):
    r = ctx.rng
    src = make_source(ctx, nobj=2)
    w = World(ctx, src)
    o = Opts()
    if name not in ("first",):
        w.emit()
        w.must(o)
        if name != "unchanged":
            src.publish()
    if name == "session":
        src.new_session(nobj=2)
    if name == "delay":
        o = Opts(delay=20)
    if name == "cleanup":
        w.emit()
        w.must(o)
        w.advance(5000)
        src.publish()
    if name == "script":
        p = os.path.join(w.root, "scripts", "ok.sh")
        os.makedirs(os.path.dirname(p))
        with open(p, "w") as f:
            f.write("#!/bin/sh\nexit 0\n")
        os.chmod(p, 0o755)
        o = Opts(scripts=(p,))
    if name == "killed-before":
        w.emit()
        w.run(o, fault={r.randrange(10, 40): "k"})
    w.emit()
    if name == "failing":
        f = src.files()
        f[src.snap_rel] = b"corrupt"
        w.emit(f)
    return src, w, o


class As:
    """The way a competitor is started."""

    def __init__(self, w, kind):
        self.kind = kind
        self.state, self.rrdp, self.rsync = w.state, w.rrdp, w.rsync
        self.src = w.src
        if kind == "symlink":
            self.state = os.path.join(w.root, "links", "state-link")
        elif kind == "dots":
            self.state = os.path.join(w.root, "rrdp-x", "..", "state", ".")
        elif kind == "other dirs":
            self.rrdp, self.rsync = os.path.join(w.root, "rrdp2"), os.path.join(w.root, "rsync2")


def add_names(w):
    """Other names for the state directory."""
    os.makedirs(os.path.join(w.root, "links"))
    os.makedirs(os.path.join(w.root, "rrdp-x"))
    os.symlink(w.state, os.path.join(w.root, "links", "state-link"))


def competitor(w, o, how, reads=True):
    """Starts a run beside the stopped one and returns its result."""
    a = As(w, how)
    keep = w.state, w.rrdp, w.rsync, w.observers, w.now_ms, w.last
    w.state, w.rrdp, w.rsync, w.observers = a.state, a.rrdp, a.rsync, []
    try:
        return w.run(Opts(**{k: v for k, v in o.items() if k != "delay"}), reads=reads, observe=False)
    finally:
        w.state, w.rrdp, w.rsync, w.observers, w.now_ms, w.last = keep


def touched(res, w):
    """What a refused competitor did apart from looking for the lock."""
    lock = os.path.join(w.state, "krill-sync.lock")
    out = []
    for ev in res.events:
        if ev.path == lock and ev.op in ("open-w", "open-r", "flock", "read"):
            continue
        if ev.op == "mkdir":
            continue
        out.append(repr(ev))
    out += [repr(i) for i in res.infos if i.op in ("connect", "resolve")]
    return out


def stopped(ctx, situation, variant, part, parts):
    ctx.rng.seed("%s|%s|%s" % (situation, variant, ctx.seed))     # the same situation in every part
    src, w, o = prepare_situation(ctx, situation)
    lock = os.path.join(w.state, "krill-sync.lock")
    add_names(w)
    st = dict(started=False, n=0, won=0)
    kinds = ("same", "symlink", "dots", "other dirs")

    def step(ev):
        st["n"] += 1
        early = not st["started"] and (ev.op == "mkdir" or ev.path == lock)
        if not early:
            st["started"] = True
        n = st["n"]
        if n % parts != part:
            return None
        how = kinds[(n // parts) % len(kinds)]
        if early or ev.path == lock:
            return None      # about to take the lock, or to give it up with nothing else left to do
        before = view.fingerprint(w.root)
        res = competitor(w, o, how)
        what = "a run (%s) while another is stopped before %r" % (how, ev)
        if res.rc == 0 or HELD not in res.err:
            raise Violation("%s is not refused with the message that another process holds the lock: %s" % (what, res.brief()), log=w.log[-6:])
        if res.rc != 1:
            raise Violation("%s ends with %d" % (what, res.rc), log=w.log[-6:])
        t = touched(res, w)
        if t:
            raise Violation("%s is refused, but does more than that: %s" % (what, t[:5]), log=w.log[-6:])
        if view.fingerprint(w.root) != before:
            raise Violation("%s changes files" % what, log=w.log[-6:])
        ctx.case((situation, ev.op, os.path.basename(ev.path), how), dict(situation=situation, stopped_at=repr(ev), how=how) if n % 7 == 0 else None)
        return None

    res = w.run(o, fault=step, reads=True)
    if situation == "failing":
        if res.rc != 1:
            raise Violation("the holder does not fail on a corrupt source: %s" % res.brief())
    else:
        if res.rc != 0:
            raise Violation("the holder fails after competing runs were refused: %s" % res.brief(), log=w.log[-6:])
        check_published(w, o, None)
        check_rsync(w, src.objects, o.include_host)
    if st["n"] < 4:
        raise Inconclusive("hardly any operation seen")
    # and the lock is free again
    w.emit()
    w.must(Opts(), what="after the holder ended")


def together(ctx, i):
    """Real simultaneous starts, the first winner's run slowed down at random operations."""
    r = ctx.rng
    src = make_source(ctx, nobj=3)
    w = World(ctx, src)
    if i % 3:
        w.emit()
        w.must(Opts())
        src.publish()
    w.emit()
    n = r.choice([2, 3, 5, 8])
    pauses = [r.choice([0, 0, 0.001, 0.01]) for _ in range(n)]
    spans, out = [], [None] * n
    mu = threading.Lock()
    lock = os.path.join(w.state, "krill-sync.lock")
    from vlib.run import execute
    barrier = threading.Barrier(n)

    def go(k):
        span = [None, None]

        def step(ev):
            if not (ev.op == "mkdir" or ev.path == lock):
                t = time.monotonic()
                if span[0] is None:
                    span[0] = t
                span[1] = t
                if pauses[k]:
                    time.sleep(pauses[k])
            return None
        barrier.wait()
        res = execute(w.cmd(Opts()), now=w.now_ms, allow=[w.root], step=step, reads=True)
        with mu:
            out[k] = (res, tuple(span))
    ts = [threading.Thread(target=go, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    won = 0
    for res, span in out:
        ctx.count("runs")
        if res.hung:
            raise Inconclusive("watchdog")
        if res.rc == 0:
            won += 1
            spans.append(span)
        elif res.rc != 1 or HELD not in res.err:
            raise Violation("one of %d simultaneous runs ends with %s" % (n, res.brief()))
        elif touched(res, w):
            raise Violation("a refused run does more than that: %s" % touched(res, w)[:4])
    spans = sorted(s for s in spans if s[0])
    for a, b in zip(spans, spans[1:]):
        # a's last operation was announced before b's first: an overlap shows two holders
        if b[0] < a[1]:
            raise Violation("two of %d simultaneous runs were active at the same time" % n)
    if not won:
        raise Violation("none of %d simultaneous runs got the lock" % n)
    check_published(w, Opts(), None)
    check_rsync(w, src.objects, False)
    ctx.case(("together", n, won, i % 3 == 0))
    ctx.count("simultaneous_starts", n)
    ctx.count("refused", n - won)


def script(w, name, body):
    p = os.path.join(w.root, "scripts", name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write("#!/bin/sh\n" + body)
    os.chmod(p, 0o755)
    return p


def after(ctx, end, i):
    """The lock is free after every kind of end."""
    r = ctx.rng
    src = make_source(ctx, nobj=2)
    w = World(ctx, src)
    if i % 2:
        w.emit()
        w.must(Opts())
        src.publish()
    w.emit()
    pidfile = os.path.join(w.root, "scripts", "child.pid")
    o, kw, want = Opts(), {}, 0
    child = None
    if end == "source-gone":
        w.emit({"other": b""})
        want = 1
    elif end == "reject":
        o, want = Opts(scripts=(script(w, "no.sh", "exit 3\n"),), reject=True), 1
    elif end == "killed":
        kw, want = dict(fault={r.randrange(3, 40): "k"}), -signal.SIGKILL
    elif end in ("signal-term", "signal-int"):
        sig = signal.SIGTERM if end == "signal-term" else signal.SIGINT
        proc = []
        n = r.randrange(3, 40)

        def step(ev):
            if ev.seq == n:
                proc[0].send_signal(sig)
                time.sleep(0.05)
            return None
        kw, want = dict(fault=step, on_start=proc.append), -sig
    elif end == "enospc":
        kw, want = dict(fault={r.randrange(8, 30): "e28"}), 1
    elif end.startswith("background-child"):
        bg = "setsid sleep 300 </dev/null >/dev/null 2>&1 &\necho $! > '%s'\n" % pidfile
        fail = end.endswith("failed")
        o = Opts(scripts=(script(w, "bg.sh", bg + "exit %d\n" % (1 if fail else 0)),), reject=fail)
        want = 1 if fail else 0
    try:
        res = w.run(o, **kw)
        if res.rc != want and not (end in ("enospc", "signal-term", "signal-int") and res.rc == 0):
            raise Violation("the holder ends with %s" % res.brief())
        if os.path.exists(pidfile):
            child = int(open(pidfile).read())
            os.kill(child, 0)
        src.publish()
        w.emit()
        w.must(Opts(), what="after a run that ended by %s" % end)
        check_published(w, Opts(), None)
        check_rsync(w, src.objects, False)
    finally:
        if child:
            try:
                os.kill(child, signal.SIGKILL)
            except OSError:
                pass
    ctx.case(("after", end), dict(ended=end))


def relay(ctx, situation, variant):
    """Three runs: the first is about to give up the lock, the second is waiting to take it or has
    just taken it, and a third is started while the second is at work."""
    ctx.rng.seed("relay|%s|%s|%s" % (situation, variant, ctx.seed))
    src, w, o = prepare_situation(ctx, situation)
    lock = os.path.join(w.state, "krill-sync.lock")
    from vlib.run import execute
    saved, srcsaved = w.save("relay"), src.save()
    probe = w.run(o, reads=True)
    last = len(probe.events) + 1
    ends = []           # the operations on the lock that close the first run
    for ev in reversed(probe.events):
        if ev.path != lock:
            break
        ends.append(ev.seq)
    ends = ends or [last - 1]
    begin = [ev.seq for ev in probe.events if ev.path == lock][:4]
    begin = [n for n in begin if n not in ends]
    work = Opts(**{k: v for k, v in o.items() if k != "delay"})

    def one(stop, hold, m):
        """The first run stops before operation `stop` (or is started when it has ended), the second
        is held before its operation `hold` on the lock, if any, until the first has ended, and
        then at its m-th other operation while the third runs."""
        src.load(srcsaved)
        w.restore(saved)
        go, at, done = threading.Event(), threading.Event(), threading.Event()
        b = dict(lock=0, work=0, res=None, held=False, active=False)

        def stepb(ev):
            if ev.path == lock and not b["work"]:
                b["lock"] += 1
                if b["lock"] == hold:
                    b["held"] = True
                    at.set()
                    go.wait(100)
            elif ev.path != lock and ev.op != "mkdir":
                b["work"] += 1
                if b["work"] == m:
                    b["active"] = True
                    at.set()
                    done.wait(100)
            return None

        def second():
            try:
                b["res"] = execute(w.cmd(work), now=w.now_ms, allow=[w.root], step=stepb, reads=True)
            finally:
                at.set()
        t = threading.Thread(target=second)

        def stepa(ev):
            if ev.seq == stop:
                t.start()
                at.wait(100)
                if b["held"]:
                    at.clear()
            return None
        try:
            a = w.run(o, fault=stepa, reads=True, observe=False)
            if a.rc != probe.rc:
                raise Violation("a run ends with %s when another is started before its operation %d" % (a.brief(), stop))
            if not t.ident:
                return
            go.set()
            at.wait(100)
            if b["active"]:
                for how in ("same", "symlink"):
                    before = view.fingerprint(w.root)
                    c = competitor(w, work, how)
                    what = "a run (%s) while a second one is at work that was started before operation %d of %d of a first one" % (how, stop, last - 1)
                    if c.rc != 1 or HELD not in c.err:
                        raise Violation("%s is not refused: %s" % (what, c.brief()))
                    if touched(c, w) or view.fingerprint(w.root) != before:
                        raise Violation("%s does more than to be refused: %s" % (what, touched(c, w)[:5]))
                    ctx.count("third_runs_refused")
        finally:
            go.set()
            done.set()
            if t.ident:
                t.join()
        rb = b["res"]
        if rb.hung:
            raise Inconclusive("watchdog")
        refused = rb.rc == 1 and HELD in rb.err
        if refused and b["work"]:
            raise Violation("a refused run works on files: %s" % rb.brief())
        if not refused and rb.rc != probe.rc:
            raise Violation("a run that took over the lock ends with %s" % rb.brief())
        if b["held"] and refused and hold <= 1:
            raise Violation("a run that looked for the lock after the other had ended is refused: %s" % rb.brief())
        w.emit()
        w.must(Opts(), what="after the relay")
        ctx.case(("relay", situation, stop, hold, m, refused), dict(situation=situation, first_stopped_before=stop, second_held_before=hold, second_paused_at=m) if m == 2 else None)

    src.load(srcsaved)
    w.restore(saved)
    add_names(w)
    saved = w.save("relay")
    for stop in ends:
        for hold in range(0, len(begin) + 1):
            for m in ((1, 12) if hold else (1, 5, 12)):
                one(stop, hold, m)
    one(max(1, last // 2), 1, 3)
    one(max(1, last // 2), 2, 3)


def given(o):
    return {k: v for k, v in o.items() if v != Opts.DEFAULTS[k]}


def settings(ctx, i):
    """The lock does not depend on what the two runs are asked to do."""
    r = ctx.rng
    src, w, _ = prepare_situation(ctx, r.choice(SITUATIONS[:4]))
    add_names(w)

    def some(k):
        o = Opts()
        for f in (lambda: o.update(rsync=False), lambda: o.update(include_host=True), lambda: o.update(insecure=True), lambda: o.update(verbose=r.choice([1, 2, 3])),
                  lambda: o.update(max_deltas=r.choice([0, 2, 1000])), lambda: o.update(cleanup=r.choice([0, 2 ** 31])), lambda: o.update(delay=9),
                  lambda: o.update(offline=True), lambda: o.update(reject=True)):
            if r.random() < 0.25:
                f()
        return o
    a, b = some(0), some(1)
    # each setting in turn, alone, for either of the two
    single = (dict(rsync=False), dict(include_host=True), dict(insecure=True), dict(verbose=2), dict(max_deltas=0), dict(cleanup=0), dict(delay=9), dict(offline=True), dict(reject=True))
    x = i % (2 * len(single) + 6)
    if x < len(single):
        a, b = Opts(**single[x]), Opts()
    elif x < 2 * len(single):
        a, b = Opts(), Opts(**single[x - len(single)])
    lock = os.path.join(w.state, "krill-sync.lock")
    st = dict(n=0, started=False)

    def step(ev):
        if not st["started"] and (ev.op == "mkdir" or ev.path == lock):
            return None
        st["started"] = True
        if ev.path == lock:
            return None
        st["n"] += 1
        if st["n"] not in (1, 2, 5, 10, 20, 30):
            return None
        how = r.choice(["same", "symlink", "dots", "other dirs"])
        before = view.fingerprint(w.root)
        keep = w.state, w.rrdp, w.rsync, w.observers, w.now_ms, w.last
        s = As(w, how)
        w.state, w.rrdp, w.rsync, w.observers = s.state, s.rrdp, s.rsync, []
        try:
            res = w.run(b, reads=True, observe=False)
        finally:
            w.state, w.rrdp, w.rsync, w.observers, w.now_ms, w.last = keep
        what = "a run (%s, %s) while another (%s) is stopped before %r" % (how, given(b), given(a), ev)
        if res.rc != 1 or HELD not in res.err:
            raise Violation("%s is not refused: %s" % (what, res.brief()), log=w.log[-6:])
        if touched(res, w) or view.fingerprint(w.root) != before:
            raise Violation("%s is refused, but does more than that: %s" % (what, touched(res, w)[:5]), log=w.log[-6:])
        ctx.case(("settings", tuple(sorted(map(str, a.items()))), tuple(sorted(map(str, b.items()))), st["n"], how), dict(first=given(a), second=given(b), how=how) if st["n"] == 5 else None)
        return None
    res = w.run(a, fault=step, reads=True, observe=False)
    if res.rc != 0:
        raise Violation("the holder (%s) fails after competing runs were refused: %s" % (given(a), res.brief()), log=w.log[-6:])
    if not st["n"]:
        raise Inconclusive("no operation seen")
