#!/usr/bin/env python3
"""Rewrite DESIGN.md from DESIGN.tmpl.md, the properties of spec.py and the table of planted bugs (seeds.tsv)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runpy
g = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec.py"), run_name="__main__")
H, P, TRUST = g["HERE"], g["P"], g["TRUST"]
COST = {}
for line in open(os.path.join(H, "tools/cost.tsv")):
    a = line.rstrip("\n").split("\t")
    COST[a[0]] = a[1:]
out = []
for p in sorted(P, key=lambda p: p["id"]):
    c = COST.get(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("* Explored: %s. %s" % (p["text"], p["rule"]))
    out.append("* Decided by: %s. %s" % (p["technique"], p["note"].replace(TRUST, "").strip()))
    out.append("* Why the tests cannot: %s" % p["why"])
    if c:
        out.append("* Cost: quick %s cases in about %s s; thorough: six processes or more, about 20 times as many." % tuple(c))
    out.append("")
rows = ["| bug | property | needs | breaks | outcome |", "|---|---|---|---|---|"]
for line in open(os.path.join(H, "tools/seeds.tsv")):
    i, res = line.rstrip("\n").split("\t")
    d = json.load(open(os.path.join(H, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["needs"], d["what_it_breaks"], res))
t = open(os.path.join(H, "tools/DESIGN.tmpl.md")).read()
with open(os.path.join(H, "DESIGN.md"), "w") as f:
    f.write(t.replace("@@TABLE@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(rows)))
