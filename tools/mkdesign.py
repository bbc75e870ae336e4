#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (exceptions list and planted-bug table) between markers."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(f"{ROOT}/DESIGN.md").read()
res = json.load(open(f"{ROOT}/tools/caught.json")) if os.path.exists(f"{ROOT}/tools/caught.json") else {}
rows = ["<!-- bugs -->", "| change | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(res.get(i, [])) or '—'} |")
rows.append("<!-- /bugs -->")
t = "\n".join(rows)
d = d.replace("@BUGS@", t) if "@BUGS@" in d else re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: t, d, flags=re.S)
open(f"{ROOT}/DESIGN.md", "w").write(d)
