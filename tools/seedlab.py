"""Makes and confirms planted changes: python3 tools/seedlab.py DEFS.py [ID...]

DEFS.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
Each is built, tested and demonstrated in a scratch copy of /repo, then written to /verif/seeded/<id>/.
"""
import json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAB = os.environ.get("SEEDLAB", "/tmp/seedlab/repo")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=LAB + "/target")


def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=LAB, env=ENV, text=True, capture_output=True, **k)


def demo(d, n=1):
    for _ in range(n):
        p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=LAB, env=ENV, text=True, capture_output=True, timeout=300)
        if p.returncode:
            return p
    return p


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = sys.argv[2:]
    if not os.path.exists(LAB):
        os.makedirs(os.path.dirname(LAB), exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", LAB], check=True)
    for s in g["SEEDS"]:
        if want and s["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", s["id"])
        if not want and os.path.exists(os.path.join(d, "meta.json")):
            continue
        sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd -e target")
        tmp = "/tmp/seedlab/" + s["id"]
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for f in ("ks.py", "inject.c"):
            shutil.copy(os.path.join(VERIF, "tools/demo", f), tmp)
        for src, dst in s.get("files", ()):
            shutil.copy(src, os.path.join(tmp, dst))
        open(tmp + "/demo.py", "w").write(s["demo"].strip() + "\n")
        open(tmp + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
        bad = None
        b = sh("cargo build --workspace --locked --offline")
        p = demo(tmp, 2)
        if p.returncode:
            bad = "demo fails on the unchanged tree: %s%s" % (p.stdout, p.stderr)
        if not bad:
            for f, old, new in s["edits"]:
                t = open(os.path.join(LAB, f)).read()
                if t.count(old) != 1:
                    bad = "%d matches in %s: %s" % (t.count(old), f, old)
                    break
                open(os.path.join(LAB, f), "w").write(t.replace(old, new))
        if not bad:
            diff = sh("git diff").stdout
            b = sh("cargo build --workspace --locked --offline")
            if b.returncode:
                bad = "does not build: " + b.stderr[-1500:]
        if not bad:
            p = demo(tmp, 2)
            if not p.returncode:
                bad = "demo passes with the change: " + p.stdout
            else:
                said = p.stdout.strip()[-300:] + p.stderr.strip()[-300:]
        if not bad:
            t = sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8")
            failed = set(re.findall(r"^test (\S+) \.\.\. FAILED", t.stdout, re.M)) - {"rrdp::tests::rrdp_state_deserialize"}   # needs a file that is not there
            if failed or t.stdout.count("... ok") < 10:
                bad = "tests fail: %s" % failed
        if bad:
            print("%s: NOT KEPT: %s" % (s["id"], bad), flush=True)
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
        print("%s: kept (%s)" % (s["id"], said), flush=True)


main()
