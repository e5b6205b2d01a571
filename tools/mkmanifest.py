#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
claims = json.load(open(os.path.join(here, "tools", "claims.json")))
residue = []
rp = os.path.join(here, "contracts", "residue.json")
if os.path.exists(rp):
    residue = json.load(open(rp))
res = {r["property"]: r for r in residue}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claims["claimed"]:
        note = claims["claimed"][i]
        if i in res:
            note += " Not proved, covered by a bounded search only: " + res[i]["why"] + " Bound: " + res[i]["bound"]
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "./check.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification (separation-logic symbolic execution, SMT)" + (", with a bounded search for the functions not yet under contract" if i in res else ""),
            "level": "other" if i in res else "proof",
            "level_note": note + " " + claims["common"],
        })
    else:
        na.append({"property": i, "reason": claims["not_applicable"].get(i, "no contracts written yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": claims["notes"]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
