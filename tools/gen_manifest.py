#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from config import CHECKS, NOTES
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "./check.py setup",
    "checks": [],
    "not_applicable": [],
    "notes": "One driver (check.py) runs rapid property tests in harness/ against /repo; see DESIGN.md. No hooks are needed in /repo. Known findings and fixes: known_findings.txt.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = NOTES[i]
        m["checks"].append({
            "property": i, "quick_cmd": "./check.py %s" % i, "thorough_cmd": "./check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": CHECKS[i].get("level", "exploration"), "level_note": note,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
