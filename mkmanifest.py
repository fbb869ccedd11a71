#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
from plan import PLAN, NOT_APPLICABLE
HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PLAN:
        continue
    p = PLAN[i]
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": p.get("technique", "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the code, recorded traces checked against the specification with TLC"),
        "level": p["level"],
        "level_note": p.get("note", "Every behaviour replayed is judged by the specification in TLC; coverage is that of the behaviours drawn (counted in the evidence), which are random beyond the exhaustive small scopes named in DESIGN.md. Trusts TLC and the projection of recordings in harness/model.go.")})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in PLAN]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the specification is bound through the public API, custom sinks, sources, encoders and collections, and the command line tool run as a process. fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
