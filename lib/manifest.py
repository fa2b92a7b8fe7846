#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"VERIF_TIER=thorough bin/check {i}", technique=P["technique"], level=P.get("level", "proof"), level_note=P["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="Verus contracts on functions extracted mechanically from /repo on every run (vx), plus bounded validation of the real program (harness/vh); no hooks in /repo: the harness is mounted into a copy of the crate's sources under /verif/.build.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
