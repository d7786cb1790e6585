#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness files present and the table of properties not claimed."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
NOTES = json.load(open(V + "/tools/notes.json"))
TECH = "contract-based deductive verification: contracts in harness/%s*.cpp on the real functions, verification conditions generated from the LLVM IR of /repo's sources, discharged by z3 and cvc5"
checks = []; na = []
for p in props:
    i = p["id"]
    if glob.glob(V + "/harness/%s*.cpp" % i) and i not in NA:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 engine/check.py %s --tier=quick" % i, thorough_cmd="python3 engine/check.py %s --tier=thorough" % i,
                           technique=TECH % i, level=n.get("level", "proof"), level_note=n.get("note", "every obligation of the listed contracts is discharged for all inputs; see the evidence file for the assumptions")))
    else: na.append(dict(property=i, reason=NA.get(i, "no check has been built yet")))
m = dict(version=1, setup_cmd="python3 engine/setup.py", hooks=dict(guard="none", enable="no hooks in /repo are needed", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
