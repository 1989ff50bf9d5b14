#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
claimed = [p for p in PROPS if p["id"] not in NA]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q pvstatic check.py >/dev/null; true",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
                 "thorough_cmd": f"python3 check.py {p['id']} thorough",
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in claimed],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
