#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=c["technique"], level="exploration",
                           level_note=c["note"]))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE[p]))
m = dict(version=1, setup_cmd="python3 run.py --prebuild", checks=checks, not_applicable=na,
         notes="All checks: run.py builds harness and /repo's sources into /verif/build (ignored by git), keyed by content. "
               "No hooks in /repo: schedules and faults are injected by linker wrapping and by a replaced operator new.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
