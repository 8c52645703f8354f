#!/usr/bin/env python3
"""Writes MANIFEST.json from stages.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import stages
V = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = dict(stages.NOT_APPLICABLE) if hasattr(stages, "NOT_APPLICABLE") else {}
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [{"property": i,
                 "quick_cmd": "python3 bin/check.py " + i,
                 "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": stages.PROPS[i].technique,
                 "level": stages.PROPS[i].level,
                 "level_note": stages.PROPS[i].note} for i in ids if i in stages.PROPS],
     "not_applicable": [{"property": i, "reason": na.get(i, "no check yet")} for i in ids if i not in stages.PROPS],
     "notes": "TLA+ (TLC). No hooks are needed in /repo: the driver in driver/ uses the public API only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
