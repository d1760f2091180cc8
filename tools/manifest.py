#!/usr/bin/env python3
"""Rewrites MANIFEST.json: a check for every property that has a harness."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl") if l.strip()]
have = {}
for f in sorted(glob.glob(root + "/harness/*.c")):
    for m in re.finditer(r'HARNESS\((\w+),\s*"([A-Z]\d+)",\s*"([^"]+)"', open(f).read()):
        have.setdefault(m.group(2), []).append(m.group(3))
    for m in re.finditer(r'MEMORY_HARNESS\((\w+),\s*"([^"]+)"', open(f).read()):
        have.setdefault("P28", []).append(m.group(2))
NOTE = ("Seeded search over schedules, inputs and faults in a deterministic simulator (harness: %s). "
        "A quiet run means no violation in the runs listed in the evidence file; it is not exhaustive. "
        "The repository's own code runs for everything named there; threads, clocks, sockets, files, "
        "standard streams, randomness and the heap are simulated, with sequentially consistent memory.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection, seeded search",
                       "level": "exploration", "level_note": NOTE % ", ".join(have[i])})
    else:
        na.append({"property": i, "reason": "no harness registered yet"})
m = {"version": 1, "setup_cmd": "python3 sim/build.py",
     "hooks": {"guard": "MCP_SIM_HOOKS",
               "enable": "No hooks are needed: every seam is made at link time by renaming the undefined symbols of the compiled sources. The define is reserved and unused.",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "run.sh builds .build/simrun from /repo's working tree and runs one property's harnesses. Replay a reported file with .build/simrun --replay FILE -v."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
