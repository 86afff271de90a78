#!/usr/bin/env python3
"""DESIGN.md from tools/design.md and what the machinery itself says."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
from oracles import ORACLES
P = {}
for l in open(f"{V}/properties.jsonl"):
    j = json.loads(l); P[j["id"]] = j
out = []
for k in P:
    j = P[k]; out.append(f"### {k} {j['title']}")
    if k not in PROPS: out.append("Not applicable (see MANIFEST.json).\n"); continue
    s = PROPS[k]; o, cost = ORACLES[k]
    out.append(f"*Decided by* {o}")
    us = []
    for u in s["units"]:
        q = " ".join(f"{a}={b}" for a, b in u.get("quick", {}).items()); t = " ".join(f"{a}={b}" for a, b in u.get("thorough", {}).items())
        us.append(f"{u.get('name', u['h'][:-4])} (" + ("thorough only: " + t if u.get("thorough_only") else (q or "-") + ("" if q == t else "; thorough: " + t)) + ")")
    out.append("*Harness* " + ", ".join(sorted({"`harness/" + u["h"] + "`" for u in s["units"]})) + "; units: " + "; ".join(us) + ".")
    out.append(f"*Bounds* {s['bounds']}.\n*Outside* {s['outside']}.")
    for a in s.get("assumptions", []): out.append(f"*Assumption* {a}")
    out.append(f"*Quick check* about {cost} s on 8 cores.\n")
seeds = []
for d in sorted(os.listdir(f"{V}/seeded")):
    m = f"{V}/seeded/{d}/meta.json"
    if os.path.exists(m):
        j = json.load(open(m)); seeds.append(f"* `{d}` ({j['property']}, caught): {j['what_it_breaks'].rstrip('.')}; needs {j['needs'].rstrip('.')}.")
t = open(f"{V}/tools/design.md").read().replace("@@PROPERTIES@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds))
open(f"{V}/DESIGN.md", "w").write(t)
