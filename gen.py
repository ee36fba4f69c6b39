#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (and checks.py for which checks exist)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
from checks import CHECKS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
here = os.path.dirname(os.path.abspath(__file__))
P.sort(key=lambda p: p["rec"]["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["rec"]["title"]) <= 80, (p["rec"]["id"], len(p["rec"]["title"]))
        f.write(json.dumps(p["rec"]) + "\n")
na = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE]
m = {"version": 1, "setup_cmd": "python3 vrun.py setup",
     "hooks": {"guard": "TRAJOPT_VERIF_HOOKS", "enable": "no hook was needed: the harnesses compile /repo's sources unchanged; the define is reserved and unused", "source_commits": []},
     "checks": [], "not_applicable": na,
     "notes": "Every check: python3 vrun.py check <id>; replay a violation with python3 vrun.py replay <file>."}
for p in P:
    i = p["rec"]["id"]
    if i not in CHECKS:
        assert any(i == n["property"] for n in na), i
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 vrun.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 vrun.py check " + i,
                        "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p["rec"], s)
print(len(P), "properties,", len(m["checks"]), "checks")

# the table of planted bugs in DESIGN.md
seeded = os.path.join(here, "seeded")
if os.path.isdir(seeded):
    rows = ["| id | property | breaks | needs |", "|---|---|---|---|"]
    for d in sorted(os.listdir(seeded)):
        mm = json.load(open(os.path.join(seeded, d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (d, mm["property"], mm["what_it_breaks"], mm["needs"]))
    f = os.path.join(here, "DESIGN.md")
    t = open(f).read()
    a, b = t.index("<!-- seeds -->"), t.index("<!-- /seeds -->")
    open(f, "w").write(t[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + t[b:])
