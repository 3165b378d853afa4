"""Servers for generated RPKI trees: the repositories (each a model source), the trust anchor
certificates, and a krill-sync set up to validate them."""
import os

from . import rpki, tls
from .source import LAYOUTS, Source, Style
from .world import T0, Opts, World


class Net:
    def __init__(self, ctx, nrepos=1, ntas=1, shape=None, items=None, now=T0, layout="krill", source="none", bases=None, trees=True, uid=None, ta_repo=0, name="w"):
        """repos[0] is the source repository. shape: per TA, or a function(rng) -> [(parent, repo)]."""
        self.ctx, self.rng = ctx, ctx.rng
        r = self.rng
        self.repos = [rpki.Repo("https://rrdp%s.example.net/%snotification.xml" % (i or "", r.choice(["rrdp/", "", "a/b/"])), "rsync://repo%s.example.net/repo/" % (i or "")) for i in range(nrepos)]
        self.now = now
        self.trees = []
        for i in range(ntas if trees else 0):
            sh = shape(r) if callable(shape) else shape
            t = rpki.Tree(r, self.repos, now, shape=sh, items=items, name="ta%d" % i if i else "ta", ta_repo=ta_repo)
            self.trees.append(t)
        self.sources = []
        for repo in self.repos:
            s = Source(r, base=repo.notify.rsplit("/", 1)[0] + "/", rsync_base=repo.rsync, layout=r.choice(LAYOUTS) if layout is None else layout, style=Style(r), nobj=0)
            self.sources.append(s)
        self.src = self.sources[0]
        self.served = {}               # (host, base path) -> files
        self.tas = {}                  # URI path -> bytes
        self.down = set()              # hosts that answer 503
        self.w = World(ctx, self.src, name=name, uid=uid)
        self.w.now_ms = now * 1000
        # every other server answers conditional requests
        self.w.serve_tls(lookup=tls.conditional(self.lookup) if r.random() < 0.5 else self.lookup)
        self.server = self.w.server
        self.tals = []
        d = ctx.scratch(name + "-tals")
        for t in self.trees:
            p = os.path.join(d, t.name + ".tal")
            with open(p, "wb") as f:
                f.write(t.tal())
            self.tals.append(p)
            self.tas["/%s.cer" % t.name] = t.ta_cert()

    def lookup(self, host, path, hd):
        if host.split(":")[0] in self.down:
            return tls.Reply(b"down", 503)
        if host == "ta.example.net":
            return self.tas.get(path)
        for (h, b), files in self.served.items():
            if h == host and path.startswith(b) and path[len(b):] in files:
                return files[path[len(b):]]
        return None

    def build(self, defect=None, tree=0):
        """Contents of all repositories, with the defect in one tree."""
        out = {r.notify: {} for r in self.repos}
        for i, t in enumerate(self.trees):
            for k, v in t.build(defect if i == tree else None).items():
                out[k].update(v)
        return out

    def serve(self, k=None):
        for i, s in enumerate(self.sources):
            if k is None or i == k:
                host, path = s.base[8:].split("/", 1)
                self.served[(host, "/" + path)] = s.files()

    def set(self, out, fresh=False, only=None):
        """Publishes new contents: as new serials (or as new sessions)."""
        for i, (repo, s) in enumerate(zip(self.repos, self.sources)):
            if only is not None and i not in only:
                continue
            new = out[repo.notify]
            if fresh or not s.objects and not s.deltas:
                s.new_session(objects=new)
            else:
                ch = [(u, b) for u, b in new.items() if s.objects.get(u) != b] + [(u, None) for u in s.objects if u not in new]
                if ch:
                    self.rng.shuffle(ch)
                    s.publish(ch)
            self.serve(i)

    def opts(self, **kw):
        return Opts(**dict(dict(tals=self.tals, source="none"), **kw))

    def run(self, o=None, **kw):
        del self.server.log[:], self.server.handshakes[:]
        return self.w.run(o or self.opts(**kw))
