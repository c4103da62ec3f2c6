#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when it has a contract file or a harness and a baseline."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "notes.py")).read())   # NOTES[id] = (level, technique, level_note, [theorems]); NA[id] = reason
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in NOTES:
        lv, te, no, th = NOTES[i]
        c = {"property": i, "quick_cmd": "python3 engine/check.py %s --tier quick" % i, "thorough_cmd": "python3 engine/check.py %s --tier thorough" % i,
             "evidence_file": "evidence/%s.json" % i, "technique": te, "level": lv, "level_note": no}
        if th: c["theorems"] = th
        m["checks"].append(c)
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
