#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (keeps it valid and in step with the checks that exist)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
T = {}
exec(open(os.path.join(HERE, "checks.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in T:
        tech, note = T[p]
        checks.append({
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": tech,
            "level": "model_checking",
            "level_note": note,
        })
na = [{"property": p, "reason": NA.get(p, "no check registered yet")} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
