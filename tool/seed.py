#!/usr/bin/env python3
"""Makes a planted bug from an edit and a demonstration, after confirming that the edited tree builds, passes the
tests, and fails the demonstration (author's tool; no check uses it).

usage: seed.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (C++), NEEDS, BREAKS, FLAGS)
"""
import json
import os
import runpy
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it does not
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++14 -O0 -w -I "$PWD" -I "$PWD/cxxmetrics_prometheus" %s -o "$tmp/demo" "$here/demo.cpp" -pthread -latomic
timeout 120 "$tmp/demo"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests():
    out = "/tmp/seedtest.json"
    r = run(["bash", "/opt/vp/test.sh", out])
    d = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    ids = base.get("stable") or base.get("passed") or base.get("tests") or base
    passed = set(d["passed"])
    return [x for x in ids if x not in passed], len(passed), r.stderr[-500:]


def main():
    s = runpy.run_path(sys.argv[1])
    d = os.path.join(HERE, "seeded", s["ID"])
    assert not run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "repo not clean"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO % s.get("FLAGS", ""))
    open(d + "/demo.cpp", "w").write("#include <functional>\n#include <array>\n#include <sstream>\n" + s["DEMO"])
    r = run(["bash", d + "/demo.sh"], cwd="/repo")
    ok = True
    if r.returncode:
        print("demo fails on the unchanged tree:", r.stdout[-500:], r.stderr[-1500:])
        ok = False
    try:
        for f, old, new in s["EDITS"]:
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            n = t[:t.index(old)].count("\n")
            open(p, "w").write(t.replace(old, new))
        diff = run(["git", "-C", "/repo", "diff"]).stdout
        open(d + "/patch.diff", "w").write(diff)
        missing, n, err = tests()
        print("tests passed %d, missing %s %s" % (n, missing[:5], err if missing else ""))
        ok &= not missing
        r = run(["bash", d + "/demo.sh"], cwd="/repo")
        print("demo with the patch: rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-300:]))
        ok &= r.returncode != 0
        for c in s.get("CHECKS", [s["PROPERTY"]]):
            r = run([HERE + "/check", c, "quick"], cwd=HERE, env=dict(os.environ, VCX_EVIDENCE="/tmp"))
            print("check %s: rc=%d %s" % (c, r.returncode, r.stdout.strip().split("\n")[0][:250]))
    finally:
        run(["git", "-C", "/repo", "checkout", "--", "."])
        run(["bash", "/opt/vp/build.sh"])
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print("KEPT" if ok else "NOT CONFIRMED", d)
    if not ok:
        run(["rm", "-rf", "--", d])
    return not ok


sys.exit(main())
