#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/props.py (one source, so that they cannot drift apart)."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(D)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + [n["prop"] for n in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["level_note"]})
m = {"version": 1, "setup_cmd": "python3 -m sa.facts", "checks": checks,
     "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
     "notes": "Static analysis of /repo's current sources; no hooks. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed,", len(NOT_APPLICABLE), "not applicable")
