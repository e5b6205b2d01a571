#!/usr/bin/env python3
"""Mutation test of the verifier and the contracts.

    tools/mutate.py [-j N] [-n MAX] [-s SEED] DIR|FILE ...     (paths below /repo)

Every small change of the named sources that compiles is checked, in scratch
copies of /repo, against the units of the changed function and of every
function and rule of the package that the verifier would inline it into.  A
change no unit objects to is listed: it is harmless, outside the properties, or
shows a contract that says too little.
"""
import argparse, json, os, random, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
import queue, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=4); ap.add_argument("-n", type=int, default=0)
ap.add_argument("-s", type=int, default=1); ap.add_argument("-f", default="")
ap.add_argument("paths", nargs="+")
a = ap.parse_args()
env = dict(os.environ); 
for l in subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition("="); env[k] = v
files = []
for p in a.paths:
    q = os.path.join("/repo", p)
    files += [f for f in sorted(glob.glob(q + "/*.go")) if not f.endswith("_test.go")] if os.path.isdir(q) else [q]
tmp = tempfile.mkdtemp(prefix="mut")
subprocess.run(["go", "build", "-o", tmp + "/mutate", "."], cwd=V + "/tools/mutate", env=env, check=True)
subprocess.run(["go", "build", "-o", tmp + "/govc", "."], cwd=V + "/govc", env=env, check=True)
ms = [json.loads(l) for l in subprocess.run([tmp + "/mutate"] + files, capture_output=True, text=True, check=True).stdout.splitlines()]
if a.f: ms = [m for m in ms if re.search(a.f, m["Func"])]
if a.n and len(ms) > a.n:
    random.Random(a.s).shuffle(ms); ms = ms[:a.n]
units = subprocess.run([tmp + "/govc", "-repo", "/repo", "-specs", V + "/contracts", "-list"], capture_output=True, text=True, env=env).stdout
names = [l.split()[0] if not l.startswith("lemma") else l for l in units.splitlines() if l.strip() and not l.endswith(" -")]
pool = queue.Queue()
for i in range(a.j):
    d = f"{tmp}/r{i}"; subprocess.run(["git", "clone", "-q", "/repo", d], check=True); pool.put(d)
def run(m):
    d = pool.get()
    try:
        rel = os.path.relpath(m["File"], "/repo"); f = d + "/" + rel
        src = open(m["File"], "rb").read()
        open(f, "wb").write(src[:m["From"]] + m["New"].encode() + src[m["To"]:])
        try:
            if subprocess.run(["go", "build", "./" + os.path.dirname(rel)], cwd=d, env=env, capture_output=True).returncode != 0:
                return m, "nobuild"
            rx = re.escape(m["Func"]) + r"(\$|$| )"
            mine = [n for n in names if re.search(rx, n)]
            pkg = m["Func"].split(".")[0]
            pat = rx if mine else r"^" + re.escape(pkg) + r"\.|\b" + re.escape(pkg) + r"\."
            r = subprocess.run(["timeout", "200", tmp + "/govc", "-repo", d, "-specs", V + "/contracts", "-j", "2", "-hard", "3", "-limit", "60", "-unit", pat], capture_output=True, text=True, env=env)
            if " 0 with failures" in r.stdout:
                # other units (method sets, inlining) may object
                r = subprocess.run(["timeout", "400", tmp + "/govc", "-repo", d, "-specs", V + "/contracts", "-j", "2", "-hard", "3", "-limit", "60", "-unit", r"\b" + re.escape(pkg) + r"\."], capture_output=True, text=True, env=env)
                if " 0 with failures" in r.stdout:
                    return m, "SURVIVED" if mine else "survived (no contract)"
            return m, "killed"
        finally:
            open(f, "wb").write(src)
    finally:
        pool.put(d)
n = {}
with ThreadPoolExecutor(a.j) as ex:
    for m, r in ex.map(run, ms):
        n[r] = n.get(r, 0) + 1
        if r.lower().startswith("surv"):
            print(f"{r}: {m['File']}:{m['Line']} {m['Func']}: {m['What']}", flush=True)
print(n)
shutil.rmtree(tmp)
