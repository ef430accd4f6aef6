#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
na = dict(NOT_APPLICABLE)
checks = []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.setdefault(i, "check not built yet")
        continue
    pl = PLAN[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        technique=pl.get("technique", "property-based testing: generated inputs against a sequential reference model, with shrinking"),
        level=pl.get("level", "exploration"), level_note=pl["note"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
    notes="No hooks: the checks drive the public API and the built command line of /repo's working tree.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
