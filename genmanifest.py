#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and runs.py."""
import json, os
from runs import PROPS, NOTES
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": [], "not_applicable": []}
for i in ids:
    if i not in PROPS:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
        continue
    tech, note = NOTES[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py run %s --tier quick" % i, "thorough_cmd": "python3 check.py run %s --tier thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
