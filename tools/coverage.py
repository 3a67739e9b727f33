#!/usr/bin/env python3
"""lists library functions no check executes, or executes only in part (from the evidence files of the last runs)"""
import glob, json, os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VP_REPO", "/repo")
best = {}
for f in glob.glob(V + "/evidence/C*.json"):
    e = json.load(open(f))
    for k, v in e["coverage"]["functions_encoded"].items():
        m = re.match(r"(\d+) of (\d+)", v)
        a, b = int(m[1]), int(m[2])
        o = best.setdefault(k, [0, b, set()])
        o[0] = max(o[0], a)
        o[2].add(e["property"])
allf = set()
for f in sorted(glob.glob(R + "/src/*.c")):
    p = subprocess.run(["clang++", "-x", "c++", "-std=c++14", "-w", "-g", "-O0", "-I" + R + "/include", "-I" + R + "/fcontext/src", "-D_GNU_SOURCE", "-DENABLE_FCONTEXT", "-DLINUX", "-DKSOCKET_SSL", "-DHAVE_ACCEPT4", "-S", "-emit-llvm", "-o", "-", f], capture_output=True, text=True)
    for m in re.finditer(r"^define [^@]*@(\w+)\(", p.stdout, re.M):
        allf.add((os.path.basename(f), m[1]))
names = {k.split(" ")[0] for k in best}
for f, n in sorted(allf):
    if n not in names:
        print("not executed", f, n)
for k, (a, b, ps) in sorted(best.items()):
    if a < b * 0.75 and b > 12:
        print("partly", k, "%d/%d" % (a, b), ",".join(sorted(ps)))
