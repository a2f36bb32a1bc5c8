#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and properties_info.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties_info import INFO  # noqa: E402

TECH = {"rt": "property-based testing: proptest cases in forked workers against a reference model",
        "pg": "generated programs (proptest grammar) compiled against laby and compared with a reference interpreter"}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = INFO.get(p["id"])
    if not i:
        na.append({"property": p["id"], "reason": "check under construction"})
        continue
    eng = []
    for e in i["engines"]:
        if e["engine"] not in eng:
            eng.append(e["engine"])
    checks.append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "technique": "; ".join(TECH[e] for e in eng) + ("; " + i["technique"] if "technique" in i else ""),
        "level": "exploration",
        "level_note": i.get("note", "Generated cases against an explicit oracle; nothing is proved beyond what was explored."),
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
