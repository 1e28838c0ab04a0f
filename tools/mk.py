#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")

man = {
    "version": 1,
    "setup_cmd": "python3 tools/selfcheck.py",
    "checks": [],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "Static analysis only: nothing of /repo is executed by a check. Sources are parsed with libclang "
             "(C/CUDA) and Python's ast module and interpreted over abstract domains.",
}
for p in PROPS:
    if not p.get("technique"):
        man["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    })
json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
