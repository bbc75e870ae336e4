#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, lib/config.json and props/."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(f"{ROOT}/lib/config.json"))
checks, na = [], []
for l in open(f"{ROOT}/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if not os.path.exists(f"{ROOT}/props/{i}.R"):
        na.append(dict(property=i, reason="check not built yet")); continue
    c = cfg.get(i, {})
    checks.append(dict(property=i, quick_cmd=f"bin/check {i} --tier quick", thorough_cmd=f"bin/check {i} --tier thorough",
        technique=c.get("technique", "property-based testing: generated vectors and options against a base-R reference model, with shrinking"),
        level=c.get("level", "exploration"),
        level_note=c.get("note", "Random structured search (seeded by VERIF_SEED) over generated inputs; shows absence of violations on the cases run, not for all. Trusts base R 4.3.3 and the reference model in /verif/lib/model.R.")))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
    notes="bin/check ID [--seed N --tier T]; bin/replay FILE re-runs a saved failing case. The checks build /repo's working tree into /verif/_build with build files of their own.")
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
