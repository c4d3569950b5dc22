#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py; a property is claimed iff checks/<id>.py exists."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
from props import P
lines, checks, na = [], [], []
for q in P:
    for f in q["files"]:
        if not os.path.exists("/repo/" + f):
            sys.exit("%s: no file %s" % (q["id"], f))
    anchors = {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
               "observe_at": q["observe"], "hook_needed": None}
    if q["state"]:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in q["state"]]
    lines.append(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"].strip(),
                             "quantifier": {"over": q["over"], "text": q["text"]},
                             "why_tests_cant": q["why"], "anchors": anchors}))
    if os.path.exists(os.path.join(root, "checks", q["id"] + ".py")):
        checks.append({"property": q["id"], "quick_cmd": "./check %s" % q["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./check %s" % q["id"],
                       "technique": q["technique"], "level": "model_checking", "level_note": q["note"]})
    else:
        na.append({"property": q["id"], "reason": q["na"] or "The check for this property is not built yet."})
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks: ./check <ID>; specifications in spec/, drivers in harness/. No hooks in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print("claimed", [c["property"] for c in checks], "not claimed", [n["property"] for n in na])
