#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a rule; the rest is not applicable (with a reason)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
import rules  # noqa: E402
from techniques import TECH, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = rules.all_rules()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        tech, note = TECH[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i} --thorough",
            "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they read /repo's current source through a clang-based fact extractor and decide "
              "the property on those facts, or compile witnesses against the current headers. Nothing of /repo is run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
missing = set(have) - {p["id"] for p in props}
assert not missing, missing
