#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, NOTES  # noqa: E402
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p not in PLAN:
        na.append({"property": p, "reason": "its check is still being built"})
        continue
    checks.append({"property": p, "quick_cmd": f"python3 check.py check {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py check {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": NOTES[p][0], "level": "exploration", "level_note": NOTES[p][1]})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "Header-only library: every check compiles its harness against /repo/include in several configurations, so there are no hooks. Replay a reported case with: python3 check.py replay <path>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
