#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from plan.py
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from plan import PROPS
checks = []
for k in sorted(PROPS):
    c = PROPS[k]
    note = c.get("note", "")
    if c["verify"]:
        note = ("Verus discharges every obligation of the functions under contract (modules %s), extracted from /repo on each run; all inputs, no bound. " % ", ".join(c["verify"])) + note
    if c.get("bounded"):
        note += (" " if note else "") + "Bounded (random inputs against an independent model), not proved: " + c["bounded"] + "."
    checks.append({
        "property": k, "quick_cmd": "python3 run.py " + k, "thorough_cmd": "python3 run.py " + k, "evidence_file": "evidence/%s.json" % k,
        "technique": "contract-based deductive verification (Verus) of the extracted sources, plus a bounded search for failing inputs" if c["verify"] else "bounded check against an independent model",
        "level": c["level"], "level_note": note.strip(),
    })
    if c.get("theorems"):
        checks[-1]["theorems"] = c["theorems"]
json.dump({"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks, "not_applicable": [],
           "notes": "Nothing in /repo is guarded: contracts live in contracts/ and are inserted into a copy of the sources on each run."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
