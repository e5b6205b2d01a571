#!/usr/bin/env python3
"""Fills the per-property and planted-bug sections of DESIGN.md from tools/design_props.json and seeded/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(here, "tools", "design.tmpl.md")).read()
dp = json.load(open(os.path.join(here, "tools", "design_props.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
claims = json.load(open(os.path.join(here, "tools", "claims.json")))
out = []
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in claims["claimed"]:
        out.append(dp[i].strip() + "\n")
        ev = os.path.join(here, "evidence", i + ".json")
        n = dp.get("_numbers", {}).get(i)
        if n:
            out.append("Size when last measured: %s.\n" % n)
    else:
        out.append("Not applicable: " + claims["not_applicable"].get(i, "no contracts written yet") + "\n")
t = t.replace("@@PROPS@@\n", "\n".join(out))
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], dp["_seeds"].get(s, "not run")))
t = t.replace("@@SEEDS@@\n", "\n".join(rows) + "\n")
open(os.path.join(here, "DESIGN.md"), "w").write(t)
