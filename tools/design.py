#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, tools/design_notes.json, the
laws in harness/*.cxx, properties.jsonl, technique.json, known_findings.json
and seeded/*/meta.json (results in tools/seeded_results.json)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(H, f)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
tech = json.loads(rd("tools/technique.json"))
notes = json.loads(rd("tools/design_notes.json"))
known = json.loads(rd("known_findings.json"))
results = json.loads(rd("tools/seeded_results.json"))
out = [rd("tools/design_head.md")]
for p in props:
    i = p["id"]
    out.append(f"### {i} — {p['title']}\n")
    out.append(f"*Specified:* {p['statement']}\n")
    t = tech[i]
    out.append(f"*Decided by:* {t[0]}.\n" if isinstance(t, list) else f"*Decided by:* {t}.\n")
    src = rd(f"harness/{i}.cxx")
    laws = re.findall(r'LAW\((\w+),\s*(\d+),\s*\d+,\s*"([^"]*)"\)', src)
    out.append("*Generated cases* (quick; thorough is twelve times as many) and the rule for a non-trivial case:\n")
    out.append("\n".join(f"- `{n}`: {int(c):,} — {r}" for n, c, r in laws) + "\n")
    n = notes["why"].get(i)
    if n: out.append(f"*Beyond the tests:* {n}\n")
    lim = ([t[1]] if isinstance(t, list) else []) + ([notes["limits"][i]] if i in notes["limits"] else [])
    out.append("*Limits, and false alarms corrected on the way:* " + " ".join(lim) + "\n")
    fx = [f.split(" ", 2)[2] for f in known["fixed"] if f"property={i} " in f]
    fi = [f"{f['id']}: {f['what']}" for f in known["findings"] if f["property"] == i]
    if fx: out.append("*Defects repaired (fix: commits):*\n" + "\n".join("- " + f for f in fx) + "\n")
    if fi: out.append("*Known findings (recorded, not repaired):*\n" + "\n".join("- " + f for f in fi) + "\n")
out.append(rd("tools/design_tail.md"))
out.append("| planted change | property | needs | caught by its check |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    s = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out.append(f"| {s} | {d['property']} | {d['needs']} | {results.get(s, 'not run')} |")
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
