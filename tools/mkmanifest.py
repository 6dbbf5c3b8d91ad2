#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = ("Holds for every case inside the stated bounds (see evidence coverage.bounds); nothing is sampled. "
        "Trusts the reference model in the harness, g++ and Eigen.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i,
                           thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique=c.get("technique", "bounded exhaustive model checking of the real code against a reference model"),
                           level=c.get("level", "model_checking"),
                           level_note=c.get("level_note", NOTE)))
    else:
        na.append(dict(property=i, reason="no check built yet in this revision"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check builds its harness from /repo's working tree; no hooks are needed in /repo.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
