#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from specs import SPECS
root = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none: no hooks were added to /repo", "enable": "nothing to enable; the checks build /repo as it is", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "run.py builds harness/ (a Go module that replaces go-readline-ny by /repo) and spreads the cases over processes; tools/specs.py says what each check runs and must observe. run.py --replay FILE repeats the case of a violation."}
for i in ids:
    if i in SPECS:
        s = SPECS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": s["technique"], "level": s["level"],
                            "level_note": s["note"] + ". Trusts: " + "; ".join(s["assumptions"])})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
