#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
BASE = ("Random and mutated histories, executed on the modular sources and on the single-file distribution under AddressSanitizer against an explicit oracle; "
        "evidence, not proof, for what was not generated. ")
checks = []
for i in ids:
    if i not in CHECKS: continue
    s = CHECKS[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": s.get("technique", "stateful property-based testing against a reference model, with shrinking"),
                   "level": s.get("level", "exploration"), "level_note": s.get("note", BASE + s.get("assumes", ""))})
reasons = {}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": reasons.get(i, "no check yet: its harness is still being built")} for i in ids if i not in CHECKS],
     "notes": "No hooks: the checks compile /repo's sources as they are. Every check builds its harness and the sources from /repo's working tree into a scratch directory on each run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
