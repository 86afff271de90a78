#!/usr/bin/env python3
"""check.py <property> [quick|thorough] — decide one property by symbolic execution of /repo's current code."""
import json, os, sys, time, glob, shutil, subprocess, tempfile, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, BUILD, Inconclusive
from props import PROPS

def load_known(pid):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                head, _, desc = line.partition(" :: ")
                f = head.split(" ", 2)
                if f[1] == f"property={pid}": known[f[2].split("sig=", 1)[1]] = desc
    return known

def run_unit(pid, unit, tier, seed, exe, jobs):
    name = unit["h"]
    h = os.path.join(VERIF, "harness", name)
    skip = unit.get("skip", ())
    params = dict(unit.get("params", {})); params.update(unit.get(tier, {}))
    defs = unit.get("defs", [])
    bc = vlib.build_bitcode(h, defs, skip)
    out = os.path.join(BUILD, "run", f"{pid}-{unit.get('name', name)}-{os.getpid()}")
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    budget = unit.get("time", {}).get(tier, 500 if tier == "quick" else 3000)
    cmd = [exe, bc, "--out", out, "--time", str(budget), "--steps", str(unit.get("steps", 50_000_000)), "--jobs", str(jobs), "--seed", str(seed), "--samples", str(unit.get("samples", 16))]
    for k, v in params.items(): cmd += ["--param", f"{k}={v}"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        so, _ = p.communicate(timeout=budget + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); so = "killed: exceeded wall budget"; p.wait()
    res = dict(unit=unit.get("name", name), params=params, out=out, log=so[-2000:], rc=p.returncode, incomplete=[], covers=set(), functions=set(), stats={})
    ws = glob.glob(out + "/w_*.json")
    if p.returncode or not ws: res["incomplete"].append(f"engine exited {p.returncode}: {so[-600:]}")
    for w in ws:
        try: j = json.load(open(w))
        except Exception as e: res["incomplete"].append(f"bad worker record {e}"); continue
        res["incomplete"] += j.pop("incomplete"); res["covers"] |= set(j.pop("covers")); res["functions"] |= set(j.pop("functions"))
        for k, v in j.items():
            if k in ("solver_max", "maxrss_mb", "wall"): res["stats"][k] = max(v, res["stats"].get(k, 0))
            else: res["stats"][k] = res["stats"].get(k, 0) + v
    # engine predictions against the natively compiled code
    res["validated"] = 0; res["samples"] = []; res["errors"] = []
    asan = vlib.build_native(h, "asan", defs, skip)
    for s in sorted(glob.glob(out + "/sample_*.inputs")):
        ob = s.replace(".inputs", ".native")
        rc, log = vlib.run_native(asan, s, params, ob, halt=0)
        want = open(s.replace(".inputs", ".obs")).read(); got = open(ob).read() if os.path.exists(ob) else ""
        if rc != 0 or want != got:
            res["incomplete"].append(f"native run disagrees with the symbolic execution on {s}: rc={rc} {log[-1500:]}")
        else:
            res["validated"] += 1
            if len(res["samples"]) < 2: res["samples"].append(dict(unit=res["unit"], inputs=[l.strip() for l in open(s)][:40], outputs=want.split()[:40]))
    for e in sorted(glob.glob(out + "/err_*.txt")):
        L = open(e).read().split("\n")
        kind, sig, msg, case = L[:4]; trace = "\n".join(L[4:])
        inp = e.replace(".txt", ".inputs")
        rc, log = vlib.run_native(asan, inp, params, timeout=30)
        ok = False; how = "asan"
        if kind == "assert": ok = rc == 77 and f"REPLAY-ASSERT-FAILED: {msg}" in log
        elif kind == "hang": ok = rc == "timeout"
        elif kind == "uninitialised":
            ms = vlib.build_native(h, "msan", defs, skip); how = "msan"
            rc, log = vlib.run_native(ms, inp, params, timeout=60)
            ok = rc in (66, 67, 77) and ("MemorySanitizer" in log or "AddressSanitizer" in log or "REPLAY-ASSERT" in log)
        else: ok = rc == 66 or (isinstance(rc, int) and (rc < 0 or rc >= 128))
        if not ok and kind != "uninitialised" and rc in (66, 77): ok = True   # the same inputs fail natively in another way
        if not ok and kind == "memory":
            ms = vlib.build_native(h, "msan", defs, skip); rc2, log2 = vlib.run_native(ms, inp, params, timeout=60)
            if rc2 in (67, 77) or (isinstance(rc2, int) and rc2 < 0): ok = True; how = "msan"; log = log2
        res["errors"].append(dict(kind=kind, sig=sig, msg=msg, trace=trace, inputs=inp, confirmed=ok, native_rc=rc, native_log=log[-3000:], how=how))
    for c in unit.get("covers", []):
        if c not in res["covers"]: res["incomplete"].append(f"witness '{c}' was not reached (vacuous exploration)")
    return res

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); jobs = int(os.environ.get("VS_JOBS", "8"))
    spec = PROPS[pid]; known = load_known(pid); t0 = time.time()
    code = 0; results = []; violations = []; msgs = []
    try:
        exe = vlib.build_engine()
        for u in spec["units"]:
            if tier == "quick" and u.get("thorough_only"): continue
            results.append(run_unit(pid, u, tier, seed, exe, jobs))
    except Inconclusive as e:
        msgs.append(str(e)); code = 2
    rep_dir = os.path.join(VERIF, "out", pid)
    shutil.rmtree(rep_dir, ignore_errors=True); os.makedirs(rep_dir, exist_ok=True)
    seen_known = set()
    for r in results:
        for e in r["errors"]:
            tag = f"{r['unit']}:{e['sig']}"
            if e["confirmed"] and e["sig"] in known:
                if e["sig"] not in seen_known: print(f"KNOWN-FINDING: property={pid} {e['sig']} {known[e['sig']]}"); seen_known.add(e["sig"])
            elif e["confirmed"]:
                base = os.path.join(rep_dir, os.path.basename(e["inputs"]).replace(".inputs", ""))
                shutil.copy(e["inputs"], base + ".inputs")
                with open(base + ".txt", "w") as f: f.write(f"property {pid}\nunit {r['unit']} params {r['params']}\n{tag}\n{e['trace']}\n--- native replay ({e['how']}), exit {e['native_rc']}:\n{e['native_log']}\n")
                print(f"VIOLATION property={pid} replay={base}.txt  [{tag}]"); violations.append(tag); code = 1
            else:
                msgs.append(f"{tag}: solver counterexample not reproduced natively (rc={e['native_rc']})\n{e['trace']}{e['native_log'][-800:]}\ninputs {e['inputs']}")
        msgs += [f"{r['unit']}: {m}" for m in dict.fromkeys(r["incomplete"])]
    if msgs and code == 0: code = 2
    for m in msgs: print("INCONCLUSIVE:", m)
    tot = {}
    for r in results:
        for k, v in r["stats"].items(): tot[k] = max(tot.get(k, 0), v) if k in ("solver_max", "maxrss_mb") else tot.get(k, 0) + v
    fns = sorted(set().union(*[r["functions"] for r in results])) if results else []
    if fns:
        dm = subprocess.run([vlib.tool("llvm-cxxfilt")], input="\n".join(fns), text=True, stdout=subprocess.PIPE).stdout.split("\n")
        fns = sorted({d for d in dm if "spvgentwo" in d})
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"), wall_s=round(time.time() - t0, 2),
              coverage=dict(states=int(tot.get("paths", 0)), transitions=int(tot.get("steps", 0)), traces_validated_against_impl=sum(r["validated"] for r in results),
                            samples=[s for r in results for s in r["samples"]][:6] or [{"note": "no completed path sampled"}],
                            paths_completed=int(tot.get("completed", 0)), forks=int(tot.get("forks", 0)), assertions_evaluated=int(tot.get("asserts", 0)), assertion_queries=int(tot.get("assert_queries", 0)),
                            queries=int(tot.get("queries", 0)), queries_discharged_by_solver=int(tot.get("solver_calls", 0)), queries_unsat=int(tot.get("unsat", 0)), queries_sat=int(tot.get("sat", 0)), queries_unknown=int(tot.get("unknown", 0)),
                            solver_time_s=round(tot.get("solver_time", 0), 3), slowest_query_s=tot.get("solver_max", 0), peak_rss_mb=tot.get("maxrss_mb", 0),
                            units=[dict(unit=r["unit"], bounds=r["params"], paths=r["stats"].get("paths", 0), wall_s=r["stats"].get("wall", 0), witnesses=sorted(r["covers"])) for r in results],
                            bounds=spec.get("bounds", ""), outside=spec.get("outside", ""), complete=(code != 2), functions_encoded_count=len(fns), functions_encoded=fns[:400]),
              assumptions=spec.get("assumptions", []), violations=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    for r in results: 
        if not os.environ.get("VS_KEEP") and code != 2: shutil.rmtree(r["out"], ignore_errors=True)
    print(f"{pid} {tier}: exit {code}; paths {tot.get('paths',0)}, steps {tot.get('steps',0)}, queries {tot.get('queries',0)} ({tot.get('solver_calls',0)} solved, {tot.get('solver_time',0):.1f}s), validated {ev['coverage']['traces_validated_against_impl']}, wall {ev['wall_s']}s")
    sys.exit(code)
main()
