#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PROPS:
        q = plan.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "deterministic simulation with fault injection (seeded search over schedules and faults, " + q.get("oracle", plan.KINDS[q["kind"]]["oracle"]) + ")",
            "level": "exploration",
            "level_note": plan.KINDS[q["kind"]]["note"],
        })
    else:
        na.append({"property": i, "reason": plan.NA[i]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the seams are link-level (clocks, allocator, GF-Complete, I/O) or the template parameters the library already has. "
              "All commits in /repo are repairs (fix:), listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
