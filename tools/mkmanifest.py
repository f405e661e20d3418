#!/usr/bin/env python3-vt
"""regenerate MANIFEST.json from irv/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from irv import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        q = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3-vt /verif/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3-vt /verif/check.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=q.get("technique", "contract-based deductive verification of the LLVM IR compiled from /repo (irv VC generator + z3); bounded runtime contract harness supplies failing inputs"),
                           level=q["level"], level_note=q["note"]))
    else: na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no contract within reach yet")))
m = dict(version=1, setup_cmd="python3-vt /verif/tools/setup.py", checks=checks, not_applicable=na,
         notes="no hooks in /repo: contracts live in /verif (drivers + irv tasks) and are checked against code extracted from /repo's headers on every run")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
