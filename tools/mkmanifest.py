#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "contracts"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3-vt vc/check.py %s --tier quick" % i,
                           thorough_cmd="python3-vt vc/check.py %s --tier thorough" % i,
                           technique=r.get("technique", "contract-based deductive verification of the real code (VC generation over its LLVM IR, z3)"),
                           level=r.get("level", "proof"), level_note=r["note"]))
    else:
        na.append(dict(property=i, reason=registry.NA[i]))
m = dict(version=1, setup_cmd="python3-vt vc/setup.py",
         hooks=dict(guard="none", enable="no hooks: contract files include /repo's sources unmodified", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
