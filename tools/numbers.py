#!/usr/bin/env python3
"""numbers.py: copy the measured sizes from the evidence into design_props.json."""
import json, os, glob
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, "design_props.json")
D = json.load(open(p))
for f in sorted(glob.glob(os.path.join(d, "..", "evidence", "C*.json"))):
    e = json.load(open(f))
    c = e["coverage"]
    D["_numbers"][e["property"]] = "%d functions under contract, %d lemmas, %d obligations, %.1f s" % (
        len(c["functions_under_contract"] or []), len(c["lemmas_proved"] or []), c["discharged"], e["wall_s"])
json.dump(D, open(p, "w"), indent=1)
