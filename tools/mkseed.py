#!/usr/bin/env python3
"""development helper: make and confirm a planted bug.
   mkseed.py SPEC.py   SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (shell), files={name: text}
   Steps: scratch copy of /repo, edit, diff, build, stable tests, demo on both trees, the property's check on the changed tree."""
import json, os, re, shutil, subprocess, sys, time
V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, "seeded", ns["id"])
os.makedirs(d, exist_ok=True)
W = "/tmp/seedw_" + ns["id"]
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A -f && git -c user.name=a -c user.email=a@b commit -qm x" % (W, W), shell=True)
for f, a, b in ns["edits"]:
    t = open(os.path.join(W, f), encoding="latin1", newline="").read()
    if "\r\n" in t:
        a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
    assert t.count(a) == 1, (f, a, t.count(a))
    open(os.path.join(W, f), "w", encoding="latin1", newline="").write(t.replace(a, b))
patch = subprocess.check_output(["git", "-C", W, "diff"])
open(os.path.join(d, "patch.diff"), "wb").write(patch)
open(os.path.join(d, "demo.sh"), "w").write(ns["demo"])
os.chmod(os.path.join(d, "demo.sh"), 0o755)
for n, t in ns.get("files", {}).items():
    open(os.path.join(d, n), "w").write(t)
json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)

def sh(c, cwd, timeout=300):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

ok = True
r, o = sh("cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % d, "/repo")
print("demo on unchanged tree:", r, o[-400:] if r else "")
ok &= r == 0
r, o = sh("""export CC=gcc CXX=g++; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DGTEST_ROOT=/usr/src/googletest/googletest -DUSE_CXX=ON -DCMAKE_C_FLAGS=-I$PWD/fcontext/src -DCMAKE_CXX_FLAGS=-I$PWD/fcontext/src && ninja -C _build""", W)
print("build:", r, o[-600:] if r else "")
ok &= r == 0
r, o = sh("mkdir -p _build/testrun; python3 /opt/vp/run_tests.py $PWD/_build/kasync_fiber_test $PWD/_build/testrun; cat _build/testrun/results.txt", W)
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
bad = [s for s in stable if not re.search(r"(?im)^.*(pass|ok).*%s|%s.*(pass|ok)" % (re.escape(s), re.escape(s)), o)]
print("stable tests missing a pass:", bad, o[-500:] if bad else "")
ok &= not bad
r, o = sh("bash %s/demo.sh" % d, W)
print("demo on changed tree:", r, o[-300:])
ok &= r != 0
print("CONFIRMED" if ok else "NOT CONFIRMED")
if "--nocheck" not in sys.argv:
    t = time.time()
    r, o = sh("VP_REPO=%s python3 run.py %s --tier quick" % (W, ns["prop"]), V, 900)
    import fcntl
    with open("/tmp/seedres.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        f = V + "/seed_results.json"
        res = json.load(open(f)) if os.path.exists(f) else {}
        res[ns["id"]] = "caught by " + ns["prop"] if r == 1 else "missed"
        json.dump(res, open(f, "w"), indent=1, sort_keys=True)
    print("check:", r, "%.0fs" % (time.time() - t), [l for l in o.splitlines() if "VIOLATION" in l][:2], o[-600:] if r != 1 else "")
shutil.rmtree(W, ignore_errors=True)
