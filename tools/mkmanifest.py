#!/usr/bin/env python3
"""Regenerates MANIFEST.json from husklint/table.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "husklint"))
import table
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "N01": "certificate validation and signature checking are not implemented in husk (README: not implemented); there is no code whose behaviour could satisfy the property, so nothing static can be decided about it",
    "N02": "termination and blocking depend on the transport's progress and on a peer that may send empty records without end; no static bound exists for these loops in this code",
    "N03": "measured running time is a property of the compiled binary and the machine; source-level analysis decides only the branch/index discipline, claimed as A04",
}
checks, na = [], []
for i in ids:
    r = table.RULES.get(i)
    if r and i not in NA:
        checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
                       "technique": r["technique"], "level": r["level"], "level_note": r["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
