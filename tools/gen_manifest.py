#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for i in ids:
    if i not in specs.SPECS: continue
    s = specs.SPECS[i]
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": s["technique"], "level": "model_checking",
        "level_note": f"Holds for every value within the bounds: {s['bounds']['quick']}. Assumed or outside: {s['outside'] or 'inputs beyond the bounds'}",
    })
na = [{"property": i, "reason": specs.NOT_APPLICABLE.get(i, "check under construction")} for i in ids if i not in specs.SPECS]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the engine and the current /repo sources itself; see DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
