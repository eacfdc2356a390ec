#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from props import PROPS

TECH = "TLA+ specification checked with TLC; recorded runs of the real code validated against it by TLC (trace validation), inputs partly enumerated by TLC"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PROPS:
        s = PROPS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 bin/check.py " + p,
            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH + ("; design model(s) %s checked exhaustively" % ", ".join(s["models"]) if s["models"] else ""),
            "level": s["level"],
            "level_note": s["note"],
        })
    else:
        na.append({"property": p, "reason": "its part of the specification and its check are still being built"})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the specification's state is observable through the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
