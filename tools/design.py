#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
sys.path.insert(0, V + "/checks"); sys.path.insert(0, V + "/engine")
import importlib
out = ["<!-- properties: generated by tools/design.py -->"]
for q in PROPS:
    out.append("### %s %s" % (q["id"], q["title"]))
    out.append("")
    if q["id"] in NA:
        out.append("Not applicable: " + NA[q["id"]]); out.append(""); continue
    m = open("%s/checks/%s.py" % (V, q["id"].lower())).read()
    mod = importlib.import_module(q["id"].lower())
    out.append("*Decided by* " + q["technique"] + ". *Rule:* " + mod.RULE)
    out.append("")
    out.append("*Bounds and trust:* " + q["note"] + (" *Cost:* " + mod.COST if hasattr(mod, "COST") else ""))
    out.append("")
    out.append("*Beyond tests:* " + q["why_tests_cant"])
    out.append("")
out.append("<!-- end properties -->")
s = re.sub(r"PROPS_TABLE|<!-- properties: generated.*?<!-- end properties -->", lambda m: "\n".join(out), s, flags=re.S)
rows = ["<!-- seeded: generated by tools/design.py -->", "## Planted changes", "", "| change | property | what it breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/seed/caught.json")) if os.path.exists(V + "/tools/seed/caught.json") else {}
for d in sorted(os.listdir(V + "/seeded")):
    j = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, j["property"], j["what_it_breaks"], caught.get(d, j["property"])))
rows.append("<!-- end seeded -->")
s = re.sub(r"SEEDED_TABLE|<!-- seeded: generated.*?<!-- end seeded -->", lambda m: "\n".join(rows), s, flags=re.S)
open(p, "w").write(s)
