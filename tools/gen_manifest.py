#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from checks_config import CHECKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 run_check.py %s quick" % i,
                   "thorough_cmd": "python3 run_check.py %s thorough" % i,
                   "technique": CHECKS[i].get("technique", "property-based testing with generated inputs and an explicit oracle; coverage-guided fuzzing of the same property in the thorough tier"),
                   "level": "exploration",
                   "level_note": CHECKS[i].get("note", "Random and structured search with shrinking, under address and undefined-behaviour sanitizers; assurance is limited to the generated cases counted in the evidence file. Trusts the reference oracle in harness/, the compiler and the sanitizers.")})
m = {"version": 1, "setup_cmd": "python3 run_check.py --selftest", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its harness against /repo/include at run time; no hooks in /repo are needed. Repairs and known findings: known_findings.txt."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
