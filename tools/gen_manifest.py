#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per module of simlib/props, the other properties under not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTES = json.load(open(os.path.join(V, "tools/notes.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    n = NOTES.get(i, {})
    if os.path.exists(os.path.join(V, "simlib/props/%s.py" % i)):
        checks.append({
            "property": i,
            "quick_cmd": "./check.py %s --tier quick" % i,
            "thorough_cmd": "./check.py %s --tier thorough" % i,
            "technique": "deterministic simulation: " + n.get("technique", "seeded search over schedules and inputs"),
            "level": "exploration",
            "level_note": n.get("note", ""),
            "evidence_file": "evidence/%s.json" % i,
        })
    else:
        na.append({"property": i, "reason": n.get("na", "its check is not built yet")})
json.dump({"version": 1, "setup_cmd": "./check.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
