#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below."""
import json, os
TECH = {}
NOTE = {}
sym = "path-sensitive dataflow (symbolic evaluation of the SSA form with guards as decision diagrams)"
def c(id, tech, note): TECH[id] = tech; NOTE[id] = note
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
man = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [], "notes": "Every check is ./check.sh ID: it builds the analyzer in /verif/analyzer (vendored, offline) when stale, type-checks /repo's current working tree and analyses its SSA form; nothing of /repo is executed. known_findings.json lists repaired defects."}
for id in sorted(TECH):
    man["checks"].append({"property": id, "quick_cmd": "./check.sh %s quick" % id, "thorough_cmd": "./check.sh %s thorough" % id, "technique": TECH[id], "level": "other", "level_note": NOTE[id]})
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in TECH:
        man["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "the check for this property is still being built")})
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
