#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run it after editing that file)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    c = {"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
         "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
         "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]}
    checks.append(c)
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()], "notes": NOTES}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
