#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
TECH = json.load(open(os.path.join(H, "tools", "technique.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
av = check.available()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in av:
        t = TECH.get(i, ["property-based testing with generated inputs", ""])
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing: " + t[0],
            "level": "exploration",
            "level_note": "Holds on every generated case of this run, none beyond it is shown. " + t[1],
        })
    else:
        na.append({"property": i, "reason": "check not built yet; decidable with property-based testing (see DESIGN.md)"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Replay a saved failure with `python3 check.py --replay replays/FILE`. Unrepaired defects: known_findings.json."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
