#!/usr/bin/env python3
"""MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
try:
    from props import NOT_APPLICABLE as NA
except ImportError: pass
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
        technique=p.get("technique", "symbolic execution of the compiled repository code (LLVM IR) with an SMT solver (Z3), counterexamples replayed natively"),
        level=p.get("level", "model_checking"), level_note=f"Bounds: {p['bounds']}. Outside: {p['outside']}."))
na = [dict(property=i, reason=NA.get(i, "no check built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
    notes="Every check compiles /repo's current sources to LLVM IR, executes harness+repository code symbolically (engine/), discharges branch and assertion queries with Z3 and replays counterexamples on a native ASan build. No hooks in /repo are needed."),
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
