"""Frame of every check: tasks in parallel, counting, verdict, evidence, replay."""
import collections, concurrent.futures as cf, hashlib, importlib, json, multiprocessing as mp, os, random, shutil, signal, sys, tempfile, time, traceback

from . import build

VERIF = build.VERIF
SCRATCH = os.environ.get("KS_SCRATCH", "/tmp")


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg, self.detail = msg, detail

    def wrap(self, msg, **detail):
        return Violation(msg, **{**self.detail, **detail})


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, prop, name, params, seed, tier, root):
        self.prop, self.name, self.params, self.seed, self.tier, self.root = prop, name, params, seed, tier, root
        self.rng = random.Random("%s|%s|%s|%s" % (prop, name, json.dumps(params, sort_keys=True), seed))
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.n_cases = 0
        self.ids = 0
        self.closers = []

    def case(self, key, sample=None):
        """One evaluated case; key tells distinct non-trivial cases apart (None: trivial)."""
        self.n_cases += 1
        if key is not None:
            self.distinct.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def count(self, k, n=1):
        self.counts[k] += n

    def violation(self, msg, **detail):
        raise Violation(msg, **detail)

    def scratch(self, name=None):
        self.ids += 1
        d = os.path.join(self.root, name or "d%d" % self.ids)
        os.makedirs(d)
        os.chmod(d, 0o755)
        return d


def _task(mod, prop, name, params, seed, tier):
    """Runs in a worker process."""
    root = tempfile.mkdtemp(prefix="ks-%s-" % prop, dir=SCRATCH)
    os.chmod(root, 0o755)
    root = os.path.realpath(root)
    m = importlib.import_module(mod)
    ctx = Ctx(prop, name, params, seed, tier, root)
    out = dict(name=name, params=params, status="ok", t=time.monotonic())
    try:
        getattr(m, name)(ctx, **params)
    except Violation as v:
        out.update(status="violation", msg=v.msg, detail=v.detail)
    except Inconclusive as e:
        out.update(status="inconclusive", msg=str(e))
    except Exception:
        out.update(status="error", msg=traceback.format_exc())
    finally:
        for c in ctx.closers:
            c()
        shutil.rmtree(root, ignore_errors=True)
        if os.path.exists(root):
            os.system("chmod -R u+rwx '%s'" % root)
            shutil.rmtree(root, ignore_errors=True)
    out.update(counts=dict(ctx.counts), distinct=list(ctx.distinct), samples=ctx.samples, cases=ctx.n_cases, t=time.monotonic() - out["t"])
    return out


def known_findings(prop):
    """[signature] of recorded findings of this property."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    out.append(line.split(" ", 2)[2])
    except OSError:
        pass
    return out


def main(mod, argv):
    sys.stdout.reconfigure(errors="backslashreplace")
    t0 = time.monotonic()
    m = importlib.import_module(mod)
    prop = m.ID
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    limit = 840 if tier == "quick" else 6 * 3600
    try:
        build.build_all()
    except build.BuildError as e:
        print("%s: cannot build: %s" % (prop, e))
        return 2
    if hasattr(m, "prepare"):
        m.prepare(tier)
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            r = json.load(f)
        o = _task(mod, prop, r["task"], r["params"], r["seed"], r["tier"])
        print(json.dumps({k: o[k] for k in o if k != "distinct"}, indent=1, default=str))
        return 1 if o["status"] == "violation" else 0
    tasks = list(m.tasks(tier, seed))
    if "--only" in argv:
        w = argv[argv.index("--only") + 1]
        tasks = [t for t in tasks if w in json.dumps(t)]
    workers = int(os.environ.get("KS_JOBS", getattr(m, "JOBS", 8)))
    results, skipped, pending = [], 0, list(enumerate(tasks))
    viol = []
    retry = []
    ctxmp = mp.get_context("fork")
    with cf.ProcessPoolExecutor(workers, mp_context=ctxmp) as ex:
        futs = {}
        it = iter(tasks)
        done = False

        def feed():
            nonlocal skipped, done
            while len(futs) < workers * 2 and not done:
                try:
                    n, p = next(it)
                except StopIteration:
                    done = True
                    return
                if time.monotonic() - t0 > limit or len(viol) >= (3 if tier == "quick" else 10):
                    skipped += 1
                    continue
                futs[ex.submit(_task, mod, prop, n, p, seed, tier)] = (n, p)
        feed()
        while futs:
            d, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for f in d:
                n, p = futs.pop(f)
                try:
                    o = f.result()
                except Exception as e:
                    o = dict(name=n, params=p, status="error", msg="worker: %r" % e, counts={}, distinct=[], samples=[], cases=0, t=0)
                if o["status"] in ("inconclusive", "error") and time.monotonic() - t0 < limit / 2:
                    retry.append((n, p, o))
                else:
                    results.append(o)
                if o["status"] == "violation":
                    viol.append(o)
            feed()
        for n, p, o in retry[:40]:
            if time.monotonic() - t0 < limit and len(viol) < 3:
                try:
                    o2 = ex.submit(_task, mod, prop, n, p, seed, tier).result()
                except Exception:
                    o2 = o
                results.append(o2)
                if o2["status"] == "violation":
                    viol.append(o2)
            else:
                results.append(o)
        results += [o for _, _, o in retry[40:]]
    counts, distinct, samples, cases = collections.Counter(), set(), [], 0
    for o in sorted(results, key=lambda o: json.dumps([o["name"], o["params"]], sort_keys=True)):
        counts.update(o["counts"])
        distinct |= set(o["distinct"])
        cases += o["cases"]
        for s in o["samples"]:
            if len(samples) < 6 and (not samples or s != samples[-1]):
                samples.append(s)
    kf = known_findings(prop)
    real, known = [], []
    for o in viol:
        sig = o["detail"].get("sig")
        (known if sig and sig in [k.split(" ")[0] for k in kf] else real).append(o)
    hit = {o["detail"]["sig"] for o in known}
    for k in kf:
        if k.split(" ")[0] in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
    rdir = os.path.join(build.BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, o in enumerate(real):
        h = hashlib.sha1(json.dumps([o["name"], o["params"], seed], sort_keys=True).encode()).hexdigest()[:10]
        rp = os.path.join(rdir, "%s-%s.json" % (prop, h))
        with open(rp, "w") as f:
            json.dump(dict(property=prop, task=o["name"], params=o["params"], seed=seed, tier=tier, message=o["msg"], detail=o["detail"]), f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  %s %s: %s" % (o["name"], json.dumps(o["params"]), o["msg"]))
        for k, v in list(o["detail"].items())[:8]:
            print("    %s: %s" % (k, str(v)[:600]))
    bad = [o for o in results if o["status"] in ("inconclusive", "error")]
    for o in bad[:5]:
        print("no verdict from %s %s: %s" % (o["name"], json.dumps(o["params"]), o["msg"][-1500:]))
    cov = dict(evaluations=cases, distinct_nontrivial=len(distinct), rule=m.RULE, samples=samples or ["none"],
               tasks=len(results), tasks_skipped=skipped, tasks_without_verdict=len(bad), observed=dict(counts))
    ev = dict(property=prop, tier=tier, seed=seed, level=m.LEVEL, coverage=cov, assumptions=getattr(m, "ASSUMPTIONS", []),
              wall_s=round(time.monotonic() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s [%s, seed %d]: %d tasks, %d cases, %d distinct, %d violations, %.1f s" % (prop, tier, seed, len(results), cases, len(distinct), len(real), ev["wall_s"]))
    print("  observed: %s" % dict(counts))
    if "--times" in argv:
        for o in sorted(results, key=lambda o: -o["t"])[:10]:
            print("   %.1f s %s %s" % (o["t"], o["name"], o["params"]))
    if real:
        return 1
    need = getattr(m, "MIN_CASES", 1)
    if bad or cases < need:
        if cases < need and not bad:
            print("too few cases observed: %d" % cases)
        return 2
    return 0
