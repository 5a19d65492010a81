#!/usr/bin/env python3
"""Self test of the checks: applies each edit of the listed files to a scratch copy of /repo and runs the checks on it.

usage: run.py FILE... [-k text]      (files of this directory: lists of edits)
An edit is (expect, ids or "all", file, old, new[, nth]): expect "bug" (some check must exit 1), "same" (all must exit 0).
"""
import concurrent.futures as cf
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ALL = ["C%02d" % i for i in range(1, 36)]


def one(e):
    exp, ids, edits = e[0], e[1], e[2:]
    if isinstance(edits[0], str):
        edits = [edits]
    d = tempfile.mkdtemp(prefix="vcxmut")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "build*"))
        for ed in edits:
            f, old, new = ed[:3]
            p = os.path.join(d, "r", f)
            s = open(p).read()
            if old not in s:
                return exp, ids, edits, "NOT FOUND " + old[:60], []
            if len(ed) > 3 and ed[3]:
                parts = s.split(old)
                s = old.join(parts[:ed[3]]) + new + old.join(parts[ed[3]:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        t = d + "/t.cpp"
        open(t, "w").write("".join("#include <%s>\n" % h for h in ("functional", "array", "sstream")) + "".join('#include "%s"\n' % h for h in
                           ["cxxmetrics/" + x for x in sorted(os.listdir(d + "/r/cxxmetrics")) if x.endswith(".hpp") and x not in ("skiplist.hpp", "pool.hpp")] +
                           ["cxxmetrics_prometheus/" + x for x in sorted(os.listdir(d + "/r/cxxmetrics_prometheus")) if x.endswith(".hpp")]))
        comp = subprocess.run(["clang++-18", "-std=gnu++14", "-w", "-fsyntax-only", "-I", d + "/r", "-I", d + "/r/cxxmetrics_prometheus", t], capture_output=True, text=True)
        if comp.returncode:
            return exp, ids, edits, "DOES NOT COMPILE " + comp.stderr[:300], []
        rs = []
        for i in (ALL if ids == "all" or os.environ.get("ALL") else ids.split(",")):
            r = subprocess.run(["./check", i, "quick"], cwd=os.path.dirname(HERE), env=dict(os.environ, VCX_REPO=d + "/r", VCX_EVIDENCE=d), capture_output=True, text=True)
            rs.append((i, r.returncode, (r.stdout + r.stderr).strip().split("\n")))
        codes = [c for _, c, _ in rs]
        good = (1 in codes and 2 not in codes) if exp == "bug" else all(c == 0 for c in codes)
        return exp, ids, edits, "as expected" if good else "UNEXPECTED", rs
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    files, k = [], None
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "-k":
            k = a.pop(0)
        else:
            files.append(x)
    edits = []
    for f in files:
        edits += runpy.run_path(os.path.join(HERE, f))["EDITS"]
    if k:
        edits = [e for e in edits if k in str(e)]
    bad = 0
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for exp, ids, ed, res, rs in ex.map(one, edits):
            bad += res != "as expected"
            print("%-12s %-5s %s  %s => %s" % (res[:200], exp, ids, ed[0][1][:50].replace("\n", " "), ed[0][2][:60].replace("\n", " ")))
            for i, c, out in rs:
                if res != "as expected" or c == 1:
                    print("      [%s] rc=%d %s" % (i, c, next((x for x in out if not x.startswith("KNOWN")), "")[:230]))
            sys.stdout.flush()
    print("%d edits, %d not as expected" % (len(edits), bad))
    return bad != 0


if __name__ == "__main__":
    sys.exit(main())
