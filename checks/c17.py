"""C17: data comes only from the mapped source over verified TLS."""
from vlib import tls
from vlib.check import Violation
from vlib.history import make_source
from vlib.oracle import check_published, check_rsync
from vlib import rpkinet
from vlib.source import Source, Style
from vlib.world import Opts, World

ID, LEVEL = "C17", "exploration"
TECHNIQUE = "runtime monitoring: a local TLS server stands for every host, shows a certificate per host and request, serves decoys elsewhere, and logs every request; published state compared"
NOTE = "In all explored combinations every request goes to the mapped location with the path kept, and without --insecure nothing served under a certificate that does not verify is requested or published."
RULE = ("One case is one run. Distinct: (kind of source base, file layout, mode, certificate, request at which it is shown, first sync / update / no change, outcome).")
ASSUMPTIONS = ["a server with a verified certificate may redirect to another server with a verified certificate"]

BAD = ("wrongname", "expired", "future", "unknownca", "selfsigned", "plain")
WHERE = ("none", "https", "https-port", "https-deep", "file")


def tasks(tier, seed):
    for i in range(90 if tier == "quick" else 3000):
        yield "mapping", dict(i=i)
    for cert in BAD[:-1]:
        for where in ("none", "https", "https-port"):
            for at in range(4):
                yield "certs", dict(cert=cert, where=where, at=at, k=0)
    if tier == "thorough":
        for k in range(1, 30):
            for cert in BAD[:-1]:
                for where in ("none", "https", "https-port", "https-deep"):
                    for at in range(5):
                        yield "certs", dict(cert=cert, where=where, at=at, k=k)
    for i in range(24 if tier == "quick" else 400):
        yield "redirect", dict(i=i)
    for i in range(12 if tier == "quick" else 200):
        yield "literal", dict(i=i)
    for i in range(10 if tier == "quick" else 200):
        yield "validated", dict(i=i)
    for i in range(12 if tier == "quick" else 300):
        yield "absent", dict(i=i)
    for i in range(8 if tier == "quick" else 100):
        yield "noslash", dict(i=i)


BASES = {"https": "https://mirror.example/pub/", "https-port": "https://mirror.example:8443/", "https-deep": "https://other.example/a/b-c/%7Ex/rrdp/"}


class Net:
    """A source, a world, and a server for all hosts."""

    def __init__(self, ctx, where, **kw):
        r = self.rng = ctx.rng
        self.src = make_source(ctx, **kw)
        self.w = World(ctx, self.src)
        self.where = where
        self.base = BASES.get(where, self.src.base)
        self.source = dict(none="none", file=None).get(where, self.base)
        self.hp = self.base[8:].split("/", 1)
        # another repository that all other places serve
        self.decoy = Source(r, base=self.src.base, name=self.src.name, layout=self.src.layout, style=Style(r), nobj=2)
        for _ in range(r.randrange(3)):
            self.decoy.publish()
        self.redirect = None
        self.w.serve_tls(lookup=self.lookup)
        self.w.server.once = True
        self.server = self.w.server
        self.n = 0
        self.bad = None               # (certificate, request number from which it is shown)

    def files(self):
        return self.src.files()

    def lookup(self, host, path, hd):
        pre = "/" + self.hp[1]
        if host == self.hp[0] and path.startswith(pre):
            rel = path[len(pre):]
            self.n += 1
            if self.bad:
                name = host.split(":")[0]
                self.server.certs[name] = self.bad[0] if self.n >= self.bad[1] else "good"
            if self.redirect and rel in self.redirect:
                return tls.Reply(b"", self.rng.choice([301, 302, 303, 307, 308]), [("Location", self.redirect[rel])])
            return self.files().get(rel)
        # everything else is the decoy
        for base in (self.src.base, self.base):
            b = "/" + base[8:].split("/", 1)[1]
            if path.startswith(b):
                x = self.decoy.files().get(path[len(b):])
                if x is not None:
                    return x
        return self.decoy.files()[self.decoy.name] if path.endswith(self.src.name) else self.decoy.snap_bytes

    def arm(self, cert, at):
        """From request number `at` on (0: the first), connections to the source show cert."""
        self.n = 0
        self.bad = (cert, at) if cert else None
        self.server.certs.clear()
        if cert and at == 0:
            self.server.certs[self.hp[0].split(":")[0]] = cert

    def run(self, o):
        del self.server.log[:], self.server.handshakes[:]
        return self.w.run(o)

    def judge_requests(self, res, o, what):
        """Every request of the run is one for the mapped location."""
        src, log = self.src, list(self.server.log)
        if self.where == "file":
            net = [repr(e) for e in res.infos if e.op in ("resolve", "connect")]
            if log or net:
                raise Violation("the source is a directory, but there are network requests: %s %s" % (log[:4], net[:4]), log=self.w.log[-6:])
            return
        rels = [src.name, src.snap_rel] + [rel for _, rel, _ in src.listed(o.max_deltas)]
        good = {(self.hp[0], "/" + self.hp[1] + rel) for rel in rels}
        odd = [(h, p) for _, h, p in log if (h, p) not in good]
        if odd:
            raise Violation("%s: requests for %s; the source is mapped to %s" % (what, odd[:4], self.base), log=self.w.log[-6:])
        names = {n for n in self.server.handshakes if n != self.hp[0].split(":")[0]}
        if names:
            raise Violation("%s: connections to %s; the source is mapped to %s" % (what, sorted(names, key=str), self.base), log=self.w.log[-6:])


def mapping(ctx, i):
    r = ctx.rng
    where = WHERE[i % len(WHERE)]
    net = Net(ctx, where)
    w, src = net.w, net.src
    hosts = r.random() < 0.3
    done = False
    for k in range(r.randrange(4, 8)):
        x = r.random()
        same = False
        if k and x < 0.2:
            same = True
        elif k and x < 0.35:
            src.new_session(nobj=2)
        elif k or x < 0.5:
            for _ in range(r.choice([1, 1, 2, 3])):
                src.publish()
        if where == "file":
            w.emit()
        v0 = w.view()
        o = Opts(source=net.source, include_host=hosts, insecure=r.random() < 0.3, max_deltas=r.choice([None, None, 0, 2]), verbose=r.choice([0, 0, 3]))
        res = net.run(o)
        if not res.ok:
            raise Violation("a run against a good server fails: %s" % res.brief(), log=w.log[-6:], where=where, requests=net.server.log[:6])
        net.judge_requests(res, o, "run")
        if where != "file":
            paths = [p for _, _, p in net.server.log]
            pre = "/" + net.hp[1]
            if pre + src.name not in paths:
                raise Violation("the notification was not requested", log=w.log[-6:])
            if v0.key() != src.key() and pre + src.snap_rel not in paths:
                raise Violation("the snapshot was not requested", log=w.log[-6:])
            ctx.count("requests", len(paths))
        if not same:
            check_published(w, o, v0)
        check_rsync(w, src.objects, hosts)
        ctx.case((where, src.layout, o.insecure, o.max_deltas, v0.note is None, same), dict(where=where, base=net.base, requests=net.server.log[:3]) if k == 1 else None)


def certs(ctx, cert, where, at, k):
    """The certificate goes bad at some request."""
    r = ctx.rng
    net = Net(ctx, where, nobj=2)
    w, src = net.w, net.src
    host = net.hp[0]
    for phase in ("first", "update", "update", "nochange", "after insecure"):
        if phase == "first":
            src.publish()
            src.publish()
        elif phase == "update":
            src.publish()
        elif phase == "after insecure":
            # an earlier run was told to accept anything
            src.publish()
            net.arm(cert, 0)
            v0 = w.view()
            res = net.run(Opts(source=net.source, insecure=True))
            if not res.ok:
                raise Violation("with --insecure a certificate (%s) makes the run fail: %s" % (cert, res.brief()), log=w.log[-6:])
            check_published(w, Opts(), v0)
            src.publish()
        n = {"nochange": 1}.get(phase, 2 + len(src.listed(None)) if phase == "first" else 3)
        first = min(at, n - 1)
        net.arm(cert, first)
        pub = w.published()
        # strict
        o = Opts(source=net.source)
        res = net.run(o)
        seen = [(c, h, p) for c, h, p in net.server.log if c != "good"]
        if seen:
            raise Violation("without --insecure, requests are sent over connections that are not verified (%s): %s" % (cert, seen[:3]), log=w.log[-6:])
        if res.rc != 1:
            raise Violation("without --insecure, a server with a %s certificate from request %d on (%s): %s" % (cert, first, phase, res.brief()), log=w.log[-6:], requests=net.server.log[:6])
        if w.published() != pub:
            raise Violation("a run that refuses a certificate (%s) changes what is published" % cert, log=w.log[-6:])
        net.judge_requests(res, o, "refused run")
        ctx.case((cert, where, first, phase, "strict", res.rc), dict(cert=cert, where=where, from_request=first, phase=phase, err=res.err[-200:]))
        ctx.count("runs_refused")
        # insecure
        v0 = w.view()
        if r.random() < 0.5:
            net.arm(cert, first)
            res = net.run(Opts(source=net.source, insecure=True))
            if not res.ok:
                raise Violation("with --insecure a certificate (%s) makes the run fail: %s" % (cert, res.brief()), log=w.log[-6:])
            if not any(c != "good" for c, _, _ in net.server.log) and first == 0:
                raise Violation("harness: the bad certificate was not shown", log=w.log[-6:])
            ctx.case((cert, where, first, phase, "insecure", res.rc))
            ctx.count("runs_insecure")
        else:
            net.arm(None, 0)
            res = net.run(o)
            if not res.ok:
                raise Violation("a run against a good server fails: %s" % res.brief(), log=w.log[-6:])
            net.judge_requests(res, o, "good run")
        if phase != "nochange":
            check_published(w, o, v0)


def redirect(ctx, i):
    """A verified server redirects to one that is not."""
    r = ctx.rng
    net = Net(ctx, ("none", "https")[i % 2], nobj=2)
    w, src = net.w, net.src
    kind = BAD[(i // 2) % len(BAD)]
    net.arm(None, 0)
    net.run(Opts(source=net.source))
    for what in ("notification", "snapshot", "delta", "all"):
        src.publish()
        rels = dict(notification=[src.name], snapshot=[src.snap_rel], delta=[src.deltas[-1][1]], all=list(src.files()))[what]
        if kind == "plain":
            to = "http://%s/moved/" % r.choice([net.hp[0], "elsewhere.example", "127.0.0.1"])
        else:
            to = "https://elsewhere.example/moved/"
            net.server.certs["elsewhere.example"] = kind
        net.redirect = {rel: to + rel for rel in rels}
        files = src.files()
        orig = net.server.lookup
        net.server.lookup = lambda h, p, hd: files.get(p[7:]) if p.startswith("/moved/") else orig(h, p, hd)
        pub = w.published()
        res = net.run(Opts(source=net.source))
        bad = [x for x in net.server.log if x[0] != "good"]
        if bad:
            raise Violation("without --insecure, a redirect is followed to a server that is not verified (%s): %s" % (kind, bad[:3]), log=w.log[-6:])
        if res.rc != 1 or w.published() != pub:
            raise Violation("the %s is redirected to a server that is not verified (%s): %s" % (what, kind, res.brief()), log=w.log[-6:])
        net.server.lookup = orig
        net.redirect = None
        ctx.case((kind, what, net.where, res.rc), dict(to=to, what=what, err=res.err[-160:]))
        v0 = w.view()
        res = net.run(Opts(source=net.source))
        if not res.ok:
            raise Violation("a run against a good server fails: %s" % res.brief(), log=w.log[-6:])
        check_published(w, Opts(), v0)


def absent(ctx, i):
    """A file cannot be had at the location it is mapped to, but in the public place and others."""
    r = ctx.rng
    where = [x for x in WHERE if x != "none"][i % (len(WHERE) - 1)]
    net = Net(ctx, where, nobj=2)
    w, src = net.w, net.src
    src.publish()
    hide = {}
    orig = net.lookup

    def lookup(host, path, hd):
        pre = "/" + net.hp[1]
        if where != "file" and host == net.hp[0] and path.startswith(pre):
            if path[len(pre):] in hide:
                return hide[path[len(pre):]]
            return orig(host, path, hd)
        # in every other place the real files are
        rel = path.rsplit("/", 1)[1]
        for p, b in src.files().items():
            if path.endswith("/" + p):
                return b
        return src.files()[src.name] if rel == src.name else None
    net.server.lookup = lookup
    if i // 4 % 2 == 0:
        if where == "file":
            w.emit()
        w.must(Opts(source=net.source))
    for what in r.sample(["notification", "snapshot", "delta", "old delta", "all"], 4):
        for _ in range(r.choice([1, 2])):
            src.publish()
        rels = dict(notification=[src.name], snapshot=[src.snap_rel], delta=[src.deltas[-1][1]], all=list(src.files())).get(what) or [x[1] for x in src.deltas[-2:]][:1]
        fetched = {"old delta": not (w.view().note and w.view().note.session == src.session) or src.deltas[-2:][0][0] > w.view().note.serial}.get(what, True)
        hide.clear()
        kind = r.choice(["missing", "missing", "wrong", "short", "empty", "refused"])
        for rel in rels:
            b = src.files()[rel]
            hide[rel] = dict(missing=None, wrong=b[:-3] + b"   ", short=b[:len(b) // 2], empty=b"", refused=tls.Reply(b"no", r.choice([403, 404, 410, 500, 503])))[kind]
        if where == "file":
            fs = src.files()
            for rel in rels:
                if hide[rel] is None or kind == "refused":
                    del fs[rel]
                else:
                    fs[rel] = hide[rel]
            fs["other"] = b"x"
            w.emit(fs)
        pub = w.published()
        # what is mapped wins over --insecure as well
        o = Opts(source=net.source, insecure=r.random() < 0.5, verbose=r.choice([0, 2]))
        w.log.append("%s %s at %s" % (what, kind, where))
        res = net.run(o)
        net.judge_requests(res, o, "run that cannot get the %s" % what)
        if fetched and (res.rc != 1 or w.published() != pub):
            raise Violation("the %s is %s where it is mapped to: %s" % (what, kind, res.brief()), log=w.log[-6:])
        ctx.case((where, what, kind, o.insecure, fetched, res.rc), dict(where=where, what=what, kind=kind, err=res.err[-160:]))
        hide.clear()
        if where == "file":
            w.emit()
        if fetched:
            v0 = w.view()
            o = Opts(source=net.source)
            res = net.run(o)
            net.judge_requests(res, o, "run")
            if not res.ok:
                raise Violation("a run against a good source fails: %s" % res.brief(), log=w.log[-6:])
            check_published(w, o, v0)


def literal(ctx, i):
    """Hosts given by address, or that no certificate names."""
    r = ctx.rng
    host = ("127.0.0.1", "localhost", "127.0.0.1:8443", "[::1]", "mirror.example.", "sub.mirror.example")[i % 6]
    src = make_source(ctx, nobj=2)
    w = World(ctx, src)
    base = "https://%s/x/" % host
    w.serve_tls(lookup=lambda h, p, hd: src.files().get(p[3:]) if p.startswith("/x/") else None)
    src.publish()
    good = host in ("localhost", "mirror.example.")
    w.log.append("mapped to " + base)
    res = w.run(Opts(source=base))
    if not good:
        if res.rc != 1 or w.view().note is not None:
            raise Violation("without --insecure a server at %s, which its certificate does not name, is accepted: %s" % (host, res.brief()), log=w.log)
        if w.server.requests:
            raise Violation("a request is sent to %s, which its certificate does not name" % host, log=w.log)
    elif host == "localhost" and not res.ok:
        raise Violation("a good server at %s is refused: %s" % (host, res.brief()), log=w.log)
    ctx.case((host, res.rc, "strict"), dict(host=host, status=res.rc, err=res.err[-200:]))
    res = w.run(Opts(source=base, insecure=True))
    if host != "[::1]":
        if not res.ok:
            raise Violation("with --insecure a server at %s is refused: %s" % (host, res.brief()), log=w.log)
        check_published(w, Opts(), None)
    ctx.case((host, res.rc, "insecure"))


def validated(ctx, i):
    """The same with TALs: whatever validation accepts from trust anchors and other repositories."""
    r = ctx.rng
    cert = BAD[i % 5]
    nrepos = r.choice([1, 2])
    net = rpkinet.Net(ctx, nrepos, 1, [(0, r.randrange(nrepos)), (1, 0)], layout=None)
    w, src = net.w, net.src
    mapped = i // 5 % 2 == 1
    base = "https://mirror.example/m/" if mapped else src.base
    host = base[8:].split("/", 1)[0]
    if mapped:
        serve = net.serve

        def both(k=None):
            serve(k)
            net.served = {k: v for k, v in net.served.items() if k[0] != src.base[8:].split("/", 1)[0]}
            net.served[("mirror.example", "/m/")] = src.files()
        net.serve = both
    good = net.build()
    net.set(good)
    for phase in ("first", "update", "new session", "nochange"):
        if phase in ("update", "new session"):
            new = dict(src.objects)
            new["%sx%d.gbr" % (net.repos[0].rsync, len(w.log))] = r.randbytes(10)
            net.set({net.repos[0].notify: new}, fresh=phase != "update", only=[0])
        pub = w.published()
        o = net.opts(source=base if mapped else "none", reject=r.random() < 0.7, offline=phase != "first" and r.random() < 0.3, insecure=False)
        net.server.certs[host] = cert
        w.log.append("%s certificate at %s" % (cert, host))
        res = net.run(o)
        seen = [(c, h, p) for c, h, p in net.server.log if h == host and c != "good"]
        if seen:
            raise Violation("without --insecure, requests are sent over connections that are not verified (%s): %s" % (cert, seen[:3]), log=w.log[-6:])
        if res.rc != 1 or w.published() != pub:
            raise Violation("without --insecure, with TALs, a server with a %s certificate (%s): %s" % (cert, phase, res.brief()), log=w.log[-6:])
        ctx.case((cert, mapped, phase, "validated", o.reject, nrepos, res.rc), dict(cert=cert, phase=phase, err=res.err[-200:]))
        v0 = w.view()
        if r.random() < 0.5:
            o = net.opts(source=o.source, reject=True, insecure=True)
        else:
            net.server.certs.clear()
        res = net.run(o)
        if not res.ok:
            raise Violation("with --insecure or a good certificate (%s): %s" % (cert, res.brief()), log=w.log[-6:], err=res.err[-400:])
        if phase != "nochange":
            check_published(w, o, v0)
        ctx.case((cert, mapped, phase, "validated", o.insecure, nrepos, res.rc))
        net.server.certs.clear()


def noslash(ctx, i):
    """A base that is not one: refused, or taken as the directory it names."""
    r = ctx.rng
    src = make_source(ctx, nobj=2)
    w = World(ctx, src)
    w.serve_tls(lookup=lambda h, p, hd: src.files().get(p.rsplit("/", 1)[-1]) or src.snap_bytes)
    src.publish()
    base = ("https://mirror.example/x", "https://mirror.example", "https://mirror.example/x/y.xml", "https://mirror.example/x?y")[i % 4]
    w.log.append("mapped to " + base)
    res = w.run(Opts(source=base, insecure=i // 4 % 2 == 1))
    odd = [(h, p) for _, h, p in w.server.log if h != "mirror.example" or not p.startswith(base[len("https://mirror.example"):] + "/")]
    if odd:
        raise Violation("the source is mapped to %s, but requests are sent for %s" % (base, odd[:3]), log=w.log)
    ctx.case((base, res.rc), dict(base=base, status=res.rc, err=res.err[-160:]))
