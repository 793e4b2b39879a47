#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
src = "".join(open(os.path.join(root, "harness/props", f)).read() for f in sorted(os.listdir(root + "/harness/props")))
have = set(re.findall(r"^func (C\d\d)_", src, re.M))
NA = {}
NOTES = json.load(open(root + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the Go SSA of the real code; z3 decides every branch and assertion for all values within the bounds",
            "level": "model_checking",
            "level_note": "Bounded: " + p["quantifier"]["text"] + ". " + NOTES.get(i, "") + (" " if i in NOTES else "")
                          + "Trusts the SSA builder, the engine's semantics (a sample of the completed paths is replayed natively against the real build) and z3.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. The engine (engine/) is built by setup.sh; it loads /repo's current sources on every run."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
