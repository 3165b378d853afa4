#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
REASON = "the check is still being built (the technique does apply)"
for p in props:
    if not os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        na.append(dict(property=p, reason=REASON))
        continue
    m = importlib.import_module("checks." + p.lower())
    checks.append(dict(property=p, quick_cmd="python3 checks/run.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 checks/run.py %s" % p,
                       evidence_file="evidence/%s.json" % p, technique=getattr(m, "TECHNIQUE", "runtime monitoring: online trace monitor over the real binary, stepped per system call"),
                       level=m.LEVEL, level_note=m.NOTE))
out = dict(version=1, setup_cmd="python3 -m vlib.build",
           hooks=dict(guard="none", enable="No hook in /repo: the checks run the binary built from /repo's working tree under an LD_PRELOAD monitor (shim/ksmon.c).", source_commits=[]),
           checks=checks, not_applicable=na,
           notes="Every check is seeded by VERIF_SEED and takes --replay FILE. DESIGN.md has the oracles, the repairs made in /repo and the planted changes.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
