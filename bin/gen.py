#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (authoring tool; not used by the checks)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        r = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check %s quick" % p["id"],
                 "thorough_cmd": "python3 bin/check %s thorough" % p["id"],
                 "technique": p["technique"], "level": "model_checking", "level_note": p["level_note"]}
                for p in PROPS if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))],
     "not_applicable": NOT_APPLICABLE}
have = {c["property"] for c in m["checks"]} | {n["property"] for n in NOT_APPLICABLE}
for p in PROPS:
    if p["id"] not in have:
        m["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# the table of planted changes in DESIGN.md
import glob, re
rows = ["| change | property whose check catches it | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), j["property"], j["needs"].replace("|", "/").replace("\n", " ")))
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
s = re.sub(r"(<!-- bugs -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(d, "w").write(s)
