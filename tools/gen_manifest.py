#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "explicit-state model checking of the real code: bounded exhaustive exploration of all operation sequences and environment answers against a reference model"
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "harness", p + ".cpp")) and not NOTES.get(p, "").startswith("NA:"):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p, "technique": TECH,
                       "level": "model_checking", "level_note": NOTES.get(p, "bounded: see DESIGN.md and the evidence file")})
    else:
        na.append({"property": p, "reason": NOTES.get(p, "NA:check under construction")[3:]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks compile /repo/src as it is. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
