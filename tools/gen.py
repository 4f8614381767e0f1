#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.jsonl from the tables in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
from props import PROPS, NA, FIXED, OPEN, NOTES
with open(os.path.join(verif, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
na = {n["property"] for n in NA}
checks = []
for p in PROPS:
    if p["id"] in na:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"],
                   "thorough_cmd": "./run.sh %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": p.get("level", "model_checking"), "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": NA, "notes": NOTES},
          open(os.path.join(verif, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(verif, "known_findings.jsonl"), "w") as f:
    for prop, commit, what in FIXED:
        f.write(json.dumps({"status": "fixed", "property": prop, "commit": commit, "what": what,
                            "line": "fixed: property=%s %s %s" % (prop, commit, what)}) + "\n")
    for k in OPEN:
        f.write(json.dumps(dict(k, status="open")) + "\n")
