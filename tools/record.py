#!/usr/bin/env python3
"""record.py fixed PROP COMMIT TEXT | record.py finding PROP ID TEXT"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(f))
kind, prop, a, text = sys.argv[1:5]
if kind == "fixed":
    d["fixed"].append(f"fixed: property={prop} {a} {text}")
else:
    d["findings"].append({"property": prop, "id": a, "what": text})
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
