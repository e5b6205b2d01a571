#!/usr/bin/env python3
"""Writes the planted bugs under /verif/seeded from tools/seeds.py."""
import difflib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from seeds import SEEDS
DEMO = '''#!/bin/bash
# run in the repository: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "${t:?}"' EXIT
cp "$here/demo.go.txt" "$t/main.go" || exit 2
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/timtadh/data-structures v0.0.0\\n\\nreplace github.com/timtadh/data-structures => %s\\n' "$repo" > "$t/go.mod"
cd "$t" || exit 2
GOFLAGS=-mod=mod timeout 200 go run .
'''
HEAD = '''package main

import (
	"fmt"
	"os"
%s)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

'''
R = "github.com/timtadh/data-structures/"
for s in SEEDS:
    if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]:
        continue
    d = os.path.join(here, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in s["edits"]:
        t = files.get(f) or (open("/repo/" + f).read(),) * 2
        assert t[1].count(old) == 1, (s["id"], f, t[1].count(old))
        files[f] = (t[0], t[1].replace(old, new))
    for f, (a, b) in files.items():
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    imps = "".join('\t"%s"\n' % (i if i.startswith("std:") is False and "/" not in i and i in ("sort", "time", "bytes", "sync", "math") else (R + i)) for i in s["imports"])
    open(os.path.join(d, "demo.go.txt"), "w").write(HEAD % imps + s["demo"].strip() + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", s["id"])
