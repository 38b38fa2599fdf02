#!/usr/bin/env python3
"""Fills DESIGN.md's generated sections from registry.py, properties.jsonl and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "contracts"))
import registry
tpl = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        r = registry.PROPS[i]
        out.append("### %s %s\n*Contracts:* %s. *Level:* %s.\n*Decided by:* %s.\n%s%s" % (
            i, p["title"], ", ".join("`contracts/%s`" % u["src"] for u in r["units"]), r.get("level", "proof"), r["note"].rstrip("."),
            ("*Design:* " + r["design"].rstrip(".") + ".\n") if r.get("design") else "",
            "*Assumed:* " + "; ".join(r.get("assumptions", ["only what is assumed everywhere"])) + ".\n*Beyond tests:* " + p["why_tests_cant"] + "."))
    else:
        na.append("* **%s** %s: %s" % (i, p["title"], registry.NA[i]))
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), registry.CAUGHT.get(d, m["property"] + " check")))
t = tpl.replace("@@PROPS@@", "\n\n".join(out)).replace("@@NA@@", "\n".join(na)).replace("@@SEEDS@@", "\n".join(seeds))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
