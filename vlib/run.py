"""Runs a program under the monitor library and serves its events."""
import os, resource, select, signal, subprocess, tempfile, time

from . import build


class Ev:
    __slots__ = ("kind", "seq", "op", "path", "path2", "num")

    def __init__(self, line):
        f = line.split("\t")
        self.kind = f[0]
        self.seq = int(f[1])
        self.op = f[2]
        self.path = f[3]
        self.path2 = f[4]
        self.num = int(f[5])

    def __repr__(self):
        s = "%s%d %s %s" % (self.kind if self.kind in "!i" else "", self.seq, self.op, self.path)
        if self.path2:
            s += " => " + self.path2
        if self.num:
            s += " (%d)" % self.num
        return s


class Result:
    def __init__(self):
        self.rc = None          # exit status, or -signal
        self.out = self.err = ""
        self.events = []        # mutating operations
        self.infos = []
        self.escapes = []
        self.hung = False       # wall-clock watchdog: never a verdict
        self.cpu = False        # the CPU-time budget was used up
        self.slept_ms = 0
        self.waiting = False    # it was ended while it waited, in many steps, for a very long time

    @property
    def ok(self):
        return self.rc == 0

    @property
    def killed(self):
        return self.rc == -signal.SIGKILL

    def brief(self):
        return "rc=%s err=%s" % (self.rc, self.err.strip()[:400].replace("\n", " | "))


def execute(cmd, *, now=None, allow=None, step=None, start=1, watch=(), xdev=None, localnet=False, tick=0,
            env=None, timeout=180, cpu=60, uid=None, cwd="/", on_start=None, after=None, reads=False, umask=None):
    """Runs cmd to its end. step(ev) -> reply is called before every mutating operation
    from number `start` on. after(ev) is called for events that await no reply."""
    r1, w1 = os.pipe()   # replies: we write w1
    r2, w2 = os.pipe()   # events: we read r2
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "TZ": "UTC"}
    e.update(env or {})
    e["LD_PRELOAD"] = build.SHIM
    e["KSMON_FDS"] = "%d,%d" % (r1, w2)
    if step is not None:
        e["KSMON_STEP"] = "1"
        e["KSMON_FROM"] = str(start)
    if now is not None:
        e["KSMON_NOW"] = str(int(now))
    if allow:
        e["KSMON_ALLOW"] = ":".join(allow)
    if watch:
        e["KSMON_WATCH"] = ":".join(watch)
    if reads:
        e["KSMON_READS"] = "1"
    if xdev:
        e["KSMON_XDEV"] = xdev
    if localnet:
        e["KSMON_LOCALNET"] = str(int(localnet))   # the port that all connections go to
    if tick:
        e["KSMON_TICK"] = str(tick)
    res = Result()
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()

    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if umask is not None:
            os.umask(umask)
        if uid is not None:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)

    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                         pass_fds=(r1, w2), preexec_fn=pre, start_new_session=True)
    os.close(r1)
    os.close(w2)
    if on_start:
        on_start(p)
    deadline = time.monotonic() + timeout
    buf, sleeps = b"", 0
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                res.hung = True
                break
            rd, _, _ = select.select([r2], [], [], min(left, 1.0))
            if not rd:
                if p.poll() is not None:
                    rd, _, _ = select.select([r2], [], [], 0)
                    if not rd:
                        break
                else:
                    continue
            data = os.read(r2, 65536)
            if not data:
                break
            buf += data
            while True:
                i = buf.find(b"\n")
                if i < 0:
                    break
                line, buf = buf[:i].decode("utf-8", "surrogateescape"), buf[i + 1:]
                ev = Ev(line)
                if ev.kind == "i":
                    res.infos.append(ev)
                    continue
                if ev.kind == "!":
                    res.escapes.append(ev)
                    continue
                if ev.op == "sleep":
                    res.slept_ms += ev.num
                    sleeps += 1
                    if sleeps > 100 and res.events and res.events[-1].op == "sleep":
                        # one long wait in steps: they become one event
                        res.events[-1].num += ev.num
                        if sleeps > 20000 and res.slept_ms > 4 * 10**12 and not res.waiting:
                            res.waiting = True
                            os.killpg(p.pid, signal.SIGKILL)
                    else:
                        res.events.append(ev)
                else:
                    sleeps = 0
                    res.events.append(ev)
                if ev.kind == "?":
                    rep = step(ev) or "c"
                    try:
                        os.write(w1, rep.encode() + b"\n")
                    except BrokenPipeError:
                        pass
                elif after:
                    after(ev)
    finally:
        if res.hung:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(w1)
        try:
            p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            res.hung = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        os.close(r2)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    fo.seek(0)
    fe.seek(0)
    res.out = fo.read(1 << 20).decode("utf-8", "replace")
    res.err = fe.read(1 << 20).decode("utf-8", "replace")
    res.rc = p.returncode
    res.cpu = res.rc in (-signal.SIGXCPU,)
    return res
