#!/usr/bin/env python3
"""Helper to plant bugs: reads a definition file (python: ID, PROP, REPS, DEMO, NEEDS, BREAKS), writes seeded/<ID>/, verifies it.
usage: seed.py def.py [--notest] ; seed.py --recheck ID...   (/repo is patched temporarily and always restored)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
P = R + "/homog2d.hpp"
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0: behaviour is right, nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s -I"$PWD" -o "$t/demo" "$d/demo.cpp" %s || exit 98
cd "$t" && timeout 60 ./demo
'''
HEAD = '''#include "homog2d.hpp"
#include <cstdio>
#include <iostream>
using namespace h2d;
#define REQUIRE(c) do { if(!(c)) { std::printf("line %d: wrong: %s\\n",__LINE__,#c); return 1; } } while(0)
int main()
{
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def restore(): sh("git -C "+R+" checkout -- .")
def verify(i, prop, tests=True):
    d = os.path.join(V, "seeded", i); ok = True
    r = sh("cd %s && bash %s/demo.sh" % (R,d))
    if r.returncode: print("  demo fails on the clean tree:", r.returncode, r.stdout[-500:], r.stderr[-1500:]); ok = False
    if sh("git -C "+R+" apply %s/patch.diff" % d).returncode: print("  patch does not apply"); return False
    try:
        r = sh("cd %s && bash %s/demo.sh" % (R,d))
        print("  demo with patch: rc", r.returncode, r.stdout.strip()[:200])
        if r.returncode in (0, 98, 99): print("  DEMO BAD", r.stderr[-800:]); ok = False
        if tests and R == "/repo":
            b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res = json.load(open("/tmp/seedtest.json")); passed = set(res.get("passed", []))
            if b.returncode or base - passed: print("  build rc", b.returncode, "TESTS FAIL:", sorted(base - passed)[:5]); ok = False
        c = sh("python3 %s/run.py %s" % (V, prop))
        caught = c.returncode == 1 and ("VIOLATION property=%s" % prop) in c.stdout
        print("  check:", "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, c.stdout.strip().splitlines()[-1][:160] if c.stdout.strip() else c.stderr[-300:])
    finally:
        restore()
    return ok
def main():
    if sh("git -C "+R+" status --short").stdout.strip(): sys.exit("/repo is not clean")
    tests = "--notest" not in sys.argv
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--recheck" in sys.argv:
        for i in args or sorted(os.listdir(os.path.join(V, "seeded"))):
            print(i); verify(i, json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"], tests)
        return
    ns = {}; exec(open(args[0]).read(), ns)
    for s in ns["SEEDS"]:
        i = s["id"]; d = os.path.join(V, "seeded", i); print(i)
        os.makedirs(d, exist_ok=True)
        t = open(P, newline="").read()
        bad = [(t.count(a), a) for a, b in s["reps"] if t.count(a) != 1]
        if bad: print("  BAD REPLACEMENT", bad); continue
        for a, b in s["reps"]: t = t.replace(a, b)
        open(P, "w", newline="").write(t)
        open(os.path.join(d, "patch.diff"), "w", newline="").write(subprocess.run(["git", "-C", R, "diff"], capture_output=True).stdout.decode("utf8", "surrogateescape"))
        restore()
        open(os.path.join(d, "demo.cpp"), "w").write(s.get("pre", "") + HEAD + s["demo"] + "\nreturn 0;\n}\n")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % (s.get("flags", ""), s.get("libs", "")))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        if not verify(i, s["prop"], tests): print("  *** NOT USABLE")
main()
