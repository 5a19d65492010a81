#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vcx import registry  # noqa: E402

NA = {
    "N01": "quantifies over the accumulated rounding of a history of floating point operations, which no static argument in reach bounds; the formula over the reals is claimed as C29, that no mark is lost as C15",
    "N02": "quantifies over the accumulated rounding of floating point sums, which no static argument in reach bounds; the formulas over the reals are claimed as C31 and C16, sortedness, index bounds and completeness of merges as C05 and C24",
    "N03": "a statement about a probability distribution; only the bounds of the random index are structural, and those are claimed separately",
    "N04": "linearizability and memory reclamation quantify over histories; the orderings, the version bump and the single exchange, which are structural, are claimed separately",
    "N05": "skiplist.hpp does not compile at this commit and its test is not part of the build, so there is no program to analyse",
    "N06": "pool.hpp is instantiated by nothing in the build (its test is commented out); reference counting there quantifies over histories",
}
props = registry.load()
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -B tool/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in props:
        meta = props[i][1]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                            "technique": meta["technique"], "level": meta["level"],
                            "level_note": meta["explains"] + ("; assumes: " + "; ".join(meta["assumptions"]) if meta.get("assumptions") else "") +
                            ". Trusted: clang, the LLVM passes used, tool/irtool.cpp and vcx."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks")
