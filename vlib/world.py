"""A scratch installation of krill-sync and the way it is run."""
import os, shutil

from . import build, view
from .check import Inconclusive, Violation
from .run import execute

T0 = 1_700_000_000


class Opts(dict):
    """Options of a run, with krill-sync's defaults."""
    DEFAULTS = dict(delay=0, max_deltas=None, rsync=True, include_host=False, cleanup=3600, insecure=False,
                    tals=(), scripts=(), reject=False, offline=False, source=None, rrdp_dir=None, rsync_dir=None, uri=None, verbose=0, quiet=False)

    def __init__(self, **kw):
        super().__init__(self.DEFAULTS)
        for k in kw:
            assert k in self.DEFAULTS, k
        self.update(kw)

    def __getattr__(self, k):
        return self[k]


class World:
    def __init__(self, ctx, src, name="w", state=None, rrdp=None, rsync=None, uid=None):
        self.ctx, self.src = ctx, src
        self.root = ctx.scratch(name)
        if uid is not None:
            os.chown(self.root, uid, uid)
        self.state = state or os.path.join(self.root, "state")
        self.rrdp = rrdp or os.path.join(self.root, "rrdp")
        self.rsync = rsync or os.path.join(self.root, "rsync")
        self.srcdir = os.path.join(self.root, "src")
        self.now_ms = T0 * 1000
        self.uid = uid
        self.runs = 0
        self.log = []
        self.observers = []
        self.xdev = None
        self.net = False
        self.tick = 0
        self.last = None
        self.localnet = False
        self.bases = []          # of earlier notification URIs
        self.env = None
        self.umask = None
        self.server = None

    @property
    def now(self):
        return self.now_ms // 1000

    def advance(self, s):
        self.now_ms += int(s * 1000)
        self.log.append("+%gs" % s)

    def note_path(self):
        return os.path.join(self.rrdp, self.src.name)

    def view(self, src=None):
        s = src or self.src
        v = view.RrdpView(self.rrdp, s.base, s.name)
        if v.note and self.bases:
            # the notification may still be the one published for an earlier URI
            for b in self.bases:
                if v.note.snapshot[0].startswith(b):
                    return view.RrdpView(self.rrdp, b, s.name)
        return v

    def cmd(self, o):
        c = [build.KS, "--state-dir", self.state, "--rrdp-dir", o.rrdp_dir or self.rrdp, "--rsync-dir", o.rsync_dir or self.rsync,
             "--cleanup-after", str(o.cleanup)]
        if o.verbose:
            c += ["-" + "v" * o.verbose]
        if o.quiet:
            c += ["--quiet"]
        if o.delay:
            c += ["--rrdp-notify-delay", str(o.delay)]
        if o.max_deltas is not None:
            c += ["--rrdp-max-deltas", str(o.max_deltas)]
        if not o.rsync:
            c += ["--rsync-disable"]
        if o.include_host:
            c += ["--rsync-include-host"]
        if o.insecure:
            c += ["--insecure"]
        if o.source != "none" and not self.net:
            c += ["--source-uri-base", o.source or (self.srcdir + "/")]
        for t in o.tals:
            c += ["--tal", t]
        for s in o.scripts:
            c += ["--pre-validate", s]
        if o.reject:
            c += ["--tal-reject-invalid"]
        if o.offline:
            c += ["--offline-validation"]
        return c + ["--", o.uri or self.src.uri]

    def emit(self, files=None):
        """Publishes the source's state as a file tree."""
        self.src.emit(self.srcdir, files)
        if self.net:
            self.served = dict(files or self.src.files())
        if self.uid is not None:
            os.system("chown -R %d '%s'" % (self.uid, self.srcdir))

    def serve_tls(self, cert="good", lookup=None):
        """From now on there is a local HTTPS server; it serves self.served (the source's own files when None)."""
        from . import tls
        self.served = None

        def files():
            host, path = self.src.base[8:].split("/", 1)
            return {(host, "/" + path): self.served if self.served is not None else self.src.files()}
        self.server = tls.Server(lookup or tls.from_files(files), cert)
        self.localnet, self.env = self.server.port, dict(tls.ENV)
        self.ctx.closers.append(self.server.close)
        return self.server

    def over_tls(self, conditional=True):
        """From now on runs fetch over HTTPS what was emitted, from a server that answers conditional requests."""
        from . import tls
        self.serve_tls()
        if conditional:
            self.server.lookup = tls.conditional(self.server.lookup)
        self.net = True

    def run(self, opts=None, fault=None, start=None, observe=True, watch=(), allow=None, env=None, wrap=(), on_start=None, reads=False, **kw):
        """One run. fault: {event number: reply} or a function(ev) -> reply."""
        o = opts if opts is not None else Opts(**kw)
        obs = self.observers if observe else []
        f = fault if callable(fault) else None
        plan = {} if callable(fault) or not fault else dict(fault)
        now0 = self.now_ms
        st = dict(n=0, slept=0, op=None)

        def t():
            return now0 + st["slept"] + st["n"] * self.tick

        def step(ev):
            st["n"] = ev.seq
            again = ev.op == "sleep" and st["op"] == "sleep"     # nothing has happened since the last look
            st["op"] = ev.op
            for ob in obs if not again else ():
                ob.at(ev, t())
            rep = None
            if f:
                rep = f(ev)
            elif ev.seq in plan:
                rep = plan.pop(ev.seq)
            if ev.op == "sleep":
                st["slept"] += ev.num
            if rep is None and not obs and not f and not plan:
                return "r0"
            return rep
        stepping = bool(obs or f or plan)
        if stepping and start is None and not obs and plan:
            start = min(plan)
        for ob in obs:
            ob.begin(self, o, now0)
        r = execute(list(wrap) + self.cmd(o), now=now0, allow=allow or [self.root], step=step if stepping else None, start=start or 1,
                    watch=watch, xdev=self.xdev, tick=self.tick, uid=self.uid, env=env or self.env, on_start=on_start, localnet=self.localnet, reads=reads, umask=self.umask)
        self.runs += 1
        self.now_ms = now0 + r.slept_ms + len(r.events) * self.tick
        self.log.append("run(%s%s)=%s" % (",".join("%s=%s" % (k, v) for k, v in o.items() if v != Opts.DEFAULTS[k]), " fault" if fault else "", r.rc))
        self.last = r
        if r.hung:
            raise Inconclusive("watchdog: %s" % self.log[-5:])
        self.ctx.count("runs")
        self.ctx.count("events", len(r.events))
        if not r.ok:
            self.ctx.count("runs_failed")
        for ob in obs:
            ob.end(self, o, r, self.now_ms)
        return r

    def must(self, opts=None, what="", **kw):
        """A run that the model says succeeds."""
        r = self.run(opts, **kw)
        if not r.ok:
            raise Violation("run fails although nothing is wrong%s: %s" % (" (%s)" % what if what else "", r.brief()), log=self.log, src=self.src.key())
        return r

    # state of everything on disk, kept aside
    def save(self, name="saved"):
        d = os.path.join(self.ctx.root, "save-%s-%s" % (os.path.basename(self.root), name))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n in os.listdir(self.root):
            shutil.copytree(os.path.join(self.root, n), os.path.join(d, n), symlinks=True)
        return (d, self.now_ms, list(self.log), [ob.save() for ob in self.observers])

    def restore(self, saved):
        d, self.now_ms, log, obs = saved
        self.log = list(log)
        for n in os.listdir(self.root):
            shutil.rmtree(os.path.join(self.root, n))
        for n in os.listdir(d):
            shutil.copytree(os.path.join(d, n), os.path.join(self.root, n), symlinks=True)
        for ob, s in zip(self.observers, obs):
            ob.restore(s)

    def published(self):
        """Everything that clients can see (content, not time stamps)."""
        return dict(rrdp=self.rrdp_public(), rsync=self.rsync_public())

    def rrdp_public(self):
        v = self.view()
        d = {v.name: view.read_file(os.path.join(self.rrdp, v.name))}
        for p in v.listed:
            d[os.path.relpath(p, self.rrdp)] = view.file_hash(p)
        return d

    def rsync_public(self):
        ex, cur = view.current_dir(self.rsync)
        if not ex:
            return None
        return view.read_tree(cur) if cur else "dangling"

    def state_files(self):
        return {n: view.read_file(os.path.join(self.state, n)) for n in ("rrdp-state.json", "rsync-state.json")}
