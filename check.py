"""
check.py <property> [quick|thorough]

Decides one property on /repo's current working tree:
  1. every function under contract for the property is read from /repo's source, and each obligation of its contract
     is discharged by the verifier (pyvc: symbolic execution of the Python AST, loops cut by inductive invariants,
     calls by contracts; back end z3).
  2. the replay harness runs the real code next to an executable reading of the contracts (bounded; stands in for
     functions that have no contract and supplies failing inputs).
exit 0: all obligations discharged, nothing found.  exit 1: VIOLATION line.
"""
import json, os, subprocess, sys, time

VT = "/opt/veriftools/pyvenv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") or os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(VT, [VT, "-W", "ignore"] + [os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import concurrent.futures as cf, multiprocessing as mp

REPO_PY = "/opt/venv/bin/python"
LOADED = None


def verify(qual, budget):
    from pyvc.exec import Verifier
    prog, reg = LOADED
    t0 = time.time()
    v = Verifier(prog, reg, reg.contracts[qual], budget)
    try:
        obl = v.run()
    except Exception as e:       # an internal error of the verifier is an obligation not discharged
        from pyvc.exec import Obl
        import traceback
        obl = [Obl(qual + ":in-subset", reg.contracts[qual].all_props(), "unsupported", "internal: %s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:]))]
    return {
        "function": qual, "paths": v.paths, "queries": v.queries, "solver_s": round(v.solver_time, 2), "wall_s": round(time.time() - t0, 2),
        "trusted": sorted(map(str, v.trusted)), "contracts_used": sorted(map(str, v.used_contracts)), "inlined": sorted(map(str, v.inlined)),
        "loops": len(v.loops),
        "obligations": [{"name": o.name, "props": list(o.props), "status": o.status, "detail": o.detail, "line": o.line,
                         "secs": round(o.secs, 3), "model": o.model} for o in obl],
    }


def start_harness(prop, tier, seed, budget, shard):
    if not os.path.exists(os.path.join(HERE, "harness", prop.lower() + ".py")):
        return None
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([REPO_PY, "-W", "ignore", os.path.join(HERE, "harness", "run.py"), prop, tier, str(seed * 1000 + shard), str(budget)],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/tmp", start_new_session=True)


def end_harness(proc, limit):
    try:
        out, err = proc.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, 9)
        out, err = proc.communicate()
        return None, "the harness did not end within %d s\n%s" % (limit, err.decode("utf8", "replace")[-2000:])
    for line in reversed(out.decode("utf8", "replace").splitlines()):
        if line.startswith("@@RESULT "):
            return json.loads(line[len("@@RESULT "):]), None
    return None, "the harness ended without a result (rc=%s)\n%s" % (proc.returncode, err.decode("utf8", "replace")[-3000:])


def known_findings(prop):
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("known: property=%s " % prop):
                # known: property=<id> {"case":..., "args":[...]} description
                body = line.split(" ", 2)[2]
                obj, n = json.JSONDecoder().raw_decode(body)
                out.append((obj, body[n:].strip()))
    return out


def main():
    global LOADED
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    from pyvc import props as P
    info = P.PROPS[prop]
    shards = 8 if thorough else 1
    hbudget = 420 if thorough else 90
    procs = [start_harness(prop, tier, seed, hbudget, k) for k in range(shards)]
    procs = [p for p in procs if p]

    # ---- deductive part
    results, problems = [], []
    try:
        from pyvc.load import load
        LOADED = load()
    except Exception as e:
        import traceback
        problems.append({"name": "source:in-subset", "status": "unsupported", "detail": "%s: %s" % (type(e).__name__, e) + traceback.format_exc()[-1500:], "function": "(all)"})
    if LOADED:
        quals = [q for q, c in LOADED[1].contracts.items() if prop in c.every_prop()]
        quals.sort(key=lambda q: -P.COST.get(q, 1))
        with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as pool:
            futs = [(q, pool.submit(verify, q, 600.0 if thorough else 450.0)) for q in quals]
            for q, f in futs:
                try:
                    results.append(f.result())
                except Exception as e:
                    problems.append({"name": q + ":in-subset", "status": "unsupported", "detail": "verifier died: %r" % e, "function": q})
    n_obl, n_ok, funcs = 0, 0, []
    for r in results:
        mine = [o for o in r["obligations"] if prop in o["props"]]
        ok = [o for o in mine if o["status"] == "ok"]
        n_obl += len(mine)
        n_ok += len(ok)
        for o in mine:
            if o["status"] != "ok":
                problems.append(dict(o, function=r["function"]))
        funcs.append({"function": r["function"], "obligations": len(mine), "discharged": len(ok), "paths": r["paths"], "solver_queries": r["queries"],
                      "solver_s": r["solver_s"], "loops_cut": r["loops"], "inlined": r["inlined"], "callee_contracts": r["contracts_used"]})
        if not mine:
            problems.append({"name": r["function"] + ":non-vacuous", "status": "failed", "detail": "no obligation of this property was generated", "function": r["function"]})
    if LOADED and info.get("contracts", True) and not n_obl:
        problems.append({"name": prop + ":non-vacuous", "status": "failed", "detail": "no obligation at all", "function": "(all)"})

    # ---- bounded part
    hres, found = [], []
    for p in procs:
        res, err = end_harness(p, hbudget + (240 if thorough else 120))
        if res is None:
            problems.append({"name": prop + ":harness", "status": "failed", "detail": err, "function": "(bounded harness)"})
        else:
            hres.append(res)
            found += res["violations"]

    known = known_findings(prop)
    fresh = []
    for v in found:
        if not any(k["case"] == v["case"] and k["args"] == v["args"] for k, _ in known):
            fresh.append(v)
    for k, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    # ---- report
    replay = os.path.join("evidence", "%s-replay.json" % prop)
    violations = len(fresh) + len(problems)
    if violations:
        with open(os.path.join(HERE, replay), "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "failing_inputs": fresh, "failed_obligations": problems,
                       "replay_with": "/opt/venv/bin/python -W ignore harness/run.py --replay %s" % replay,
                       "prove_with": "python3-vt -m pyvc.run1 <function>"}, f, indent=1, default=repr)
    trusted = sorted({t for r in results for t in r["trusted"]})
    used = sorted({t for r in results for t in r["contracts_used"]} - {r["function"] for r in results})
    cov = {
        "obligations": n_obl, "discharged": n_ok, "back_end": "z3 (python3-vt z3-solver)",
        "checker_cmd": "python3 check.py %s %s" % (prop, tier),
        "functions_under_contract": funcs,
        "solver_s": round(sum(r["solver_s"] for r in results), 1),
        "trusted_base": P.TRUSTED + ["library model: " + t for t in trusted],
        "callee_contracts_verified_elsewhere": [u for u in used if not LOADED or u not in LOADED[1].assumed],
        "callee_contracts_assumed": ["%s (%s)" % (u, LOADED[1].assumed[u].note) for u in used if LOADED and u in LOADED[1].assumed],
        "bounded_harness": {
            "label": "bounded: stands in for functions without a contract, and looks for failing inputs; never counted as proved",
            "evaluations": sum(r["evaluations"] for r in hres), "cases": sum(r["cases"] for r in hres),
            "distinct_nontrivial": sum(r["distinct"] for r in hres), "rule": hres[0]["rule"] if hres else "",
            "stands_in_for": info.get("bounded", []), "samples": [s for r in hres for s in r["samples"]][:12],
        },
        "explanation": info["note"],
    }
    if info["level"] != "proof":
        for k in ("evaluations", "distinct_nontrivial", "rule", "samples"):
            cov[k] = cov["bounded_harness"][k]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": info["level"], "coverage": cov,
                   "assumptions": P.ASSUMPTIONS + info.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": violations}, f, indent=1, default=repr)
    print("%s: %d/%d obligations discharged in %d functions; harness: %d evaluations, %d failing; %.0f s" % (
        prop, n_ok, n_obl, len(funcs), sum(r["evaluations"] for r in hres), len(fresh), time.time() - t0))
    for o in problems[:10]:
        print("  NOT DISCHARGED %s [%s] %s" % (o["name"], o["status"], str(o["detail"])[:300].replace("\n", " ")))
    for v in fresh[:5]:
        print("  FAILING INPUT %s %s\n     %s" % (v["case"], json.dumps(v["args"])[:300], v["message"][:600]))
    if fresh:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    elif problems:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
    sys.stdout.flush()
    os._exit(1 if violations else 0)


if __name__ == "__main__":
    main()
