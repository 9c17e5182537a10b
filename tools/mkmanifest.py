#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/registry.py and the not-applicable list."""
import os, sys, json
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, os.path.join(R, "checks")); sys.path.insert(0, H)
import common, registry, mkprops
ids = [d["id"] for d in mkprops.P]
na = dict(mkprops.NA)
for i in ids:
    if i not in registry.CHECKS and i not in na: na[i] = "no check yet"
for i in registry.CHECKS: assert i in ids, i
m = dict(version=1, setup_cmd="python3 engine/build.py --selftest",
  checks=[dict(property=k, quick_cmd="python3 checks/run.py %s quick" % k, thorough_cmd="python3 checks/run.py %s thorough" % k,
     technique=v[3], level=v[1], level_note=v[4]) for k, v in sorted(registry.CHECKS.items())],
  not_applicable=[dict(property=k, reason=v) for k, v in na.items() if k in ids and k not in registry.CHECKS])
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
