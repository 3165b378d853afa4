"""Runs checks against planted changes in /repo: python3 tools/runseeds.py [--all] [SEED...]
Without --all, only the check of the property the change is meant to break. With LAB=DIR in scratch copies there
of what is committed, instead of in /repo."""
import glob, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
allc = "--all" in sys.argv
REPO, env, LAB = "/repo", dict(os.environ), os.environ.get("LAB")
if LAB:
    REPO = LAB + "/repo"
    env.update(KS_REPO=REPO, KS_SCRATCH=LAB)
    for d in ("/repo", "/verif"):
        subprocess.run("rm -rf %s%s/src %s%s/checks; mkdir -p %s%s; git -C %s archive HEAD | tar xm -C %s%s" % (LAB, d, LAB, d, LAB, d, d, LAB, d), shell=True, check=True)
RUN = (LAB or "") + "/verif" if LAB else VERIF
props = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
for d in sorted(glob.glob(VERIF + "/seeded/*/")):
    name = os.path.basename(d[:-1])
    if args and name not in args:
        continue
    meta = json.load(open(d + "meta.json"))
    ids = props if allc else [meta["property"]]
    subprocess.run(["git", "apply", d + "patch.diff"], cwd=REPO, check=True)
    try:
        for p in ids:
            if p not in props:
                print("%-28s %s NOT CLAIMED" % (name, p), flush=True)
                continue
            t = time.time()
            r = subprocess.run(["python3", "checks/run.py", p], cwd=RUN, env=env, capture_output=True, text=True)
            hit = re.findall(r"^VIOLATION property=%s .*\n(.*)" % p, r.stdout, re.M)
            word = "caught" if r.returncode == 1 and hit else "missed" if r.returncode == 0 else "NO VERDICT rc=%d" % r.returncode
            print("%-28s %s %s (%.0f s) %s" % (name, p, word, time.time() - t, hit[0].strip()[:200] if hit else ""), flush=True)
    finally:
        subprocess.run(["git", "apply", "-R", d + "patch.diff"], cwd=REPO, check=True)
