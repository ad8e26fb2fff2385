#!/usr/bin/env python3
"""MANIFEST.json from what harness/props.py registers"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "harness"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 harness/check.py %s quick" % i,
                       "thorough_cmd": "python3 harness/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": p.get("technique", props.TECHNIQUE), "level": "model_checking",
                       "level_note": p.get("note", props.NOTE)})
    else:
        na.append({"property": i, "reason": "no check registered yet"})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md"}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
