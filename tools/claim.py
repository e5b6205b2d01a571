#!/usr/bin/env python3
"""claim.py Cnn "note": record a property as claimed in claims.json and rewrite MANIFEST.json."""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, "claims.json")
c = json.load(open(p))
for i in range(1, len(sys.argv) - 1, 2):
    c["claimed"][sys.argv[i]] = sys.argv[i + 1]
    c["not_applicable"].pop(sys.argv[i], None)
c["claimed"] = dict(sorted(c["claimed"].items()))
json.dump(c, open(p, "w"), indent=1)
open(p, "a").write("\n")
subprocess.check_call([sys.executable, os.path.join(d, "mkmanifest.py")])
