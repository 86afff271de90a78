#!/usr/bin/env python3
"""mkseed.py SPEC.py [id ...]: turn bug descriptions into /verif/seeded/<id>/ after confirming them in scratch copies of /repo (development aid).
SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo="C++ source")]."""
import sys, os, subprocess, json, shutil, importlib.util
W = "/tmp/seed"; V = "/verif"; R = os.environ.get("VS_REPO", "/repo")
def sh(c, cwd=None, timeout=600): return subprocess.run(["bash", "-c", c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def build(copy): return sh(f"sed 's#/repo#{copy}#g' /opt/vp/build.sh > {copy}.build.sh; bash {copy}.build.sh")
def tests(copy):
    s = open("/opt/vp/test.sh").read().replace("/opt/vp/build.sh", copy + ".build.sh").replace("/repo", copy); open(copy + ".test.sh", "w").write(s)
    return sh(f"bash {copy}.test.sh {copy}.json")
def copy(name):
    c = f"{W}/{name}"
    if not os.path.exists(c): sh(f"mkdir -p {W}; cp -a {R} {c}; rm -rf {c}/_build")
    r = sh(f"git fetch -q {R} HEAD && git checkout -qf FETCH_HEAD && git clean -fdq", c)
    assert r.returncode == 0, r.stdout
    return c
DEMO = '''#!/bin/bash
# builds the small program beside this script against the current tree (cwd) and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -g %s -DSPVGENTWO_ENABLE_OPERANDVALIDATION=1 -DSPVGENTWO_LOGGING=1 -DSPVGENTWO_REPLACE_PLACEMENTNEW=1 -DSPVGENTWO_REPLACE_TRAITS=1 -Ilib/include -Icommon/include "$d/demo.cpp" _build/libSpvGenTwoCommon.a _build/libSpvGenTwoLib.a -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
clean = copy("clean"); r = build(clean); assert r.returncode == 0, r.stdout[-2000:]
for s in m.SEEDS:
    if sys.argv[2:] and s["id"] not in sys.argv[2:]: continue
    d = f"{V}/seeded/{s['id']}"; c = copy("bug"); ok = True
    for f, a, b in s["edits"]:
        t = open(f"{c}/{f}").read()
        if t.count(a) != 1: print(s["id"], "EDIT matches", t.count(a), "times in", f); ok = False; break
        open(f"{c}/{f}", "w").write(t.replace(a, b))
    if not ok: continue
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(sh("git diff", c).stdout)
    open(d + "/demo.cpp", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO % s.get("flags", "-fsanitize=address"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r = build(c)
    if r.returncode: print(s["id"], "BUILD FAILED", r.stdout[-1500:]); continue
    tests(c); j = json.load(open(c + ".json")); miss = [x for x in base if x not in j["passed"]]
    a = sh(f"bash {d}/demo.sh", clean); b = sh(f"bash {d}/demo.sh", c)
    good = not miss and a.returncode == 0 and b.returncode not in (0, 3)
    print(s["id"], "OK" if good else "NOT OK", "tests missing:", miss, "clean:", a.returncode, a.stdout[-600:] if a.returncode else "", "bug:", b.returncode, b.stdout[-300:])
    if not good: shutil.rmtree(d)
