#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
C = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in C:
        t, lvl, note = C[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(), "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i.lower(),
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": N.get(i, "not yet claimed: machinery under construction")})
doc = {"version": 1, "setup_cmd": "python3 engine/build.py", "checks": checks, "not_applicable": na,
       "notes": "No hooks: every check reads the unmodified source through the compiler. Nothing of /repo is executed by a check."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
