#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/ and the notes below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
for l in open(os.path.join(V, "tools", "level_notes.txt")):
    if l.strip():
        k, v = l.split(":", 1)
        NOTE[k.strip()] = v.strip()
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i,
                       "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": "TLA+ specification (TLC): model checking plus trace validation of the real code against it",
                       "level": "model_checking", "level_note": NOTE.get(i, "")})
        assert NOTE.get(i), i
    else:
        na.append({"property": i, "reason": NA.get(i, "Check under construction.")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the library's public API exposes the abstract state, so drivers record at call return."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
