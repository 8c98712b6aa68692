"""check.py <property> [--tier quick|thorough]

1. parse the real source under /repo/src, generate the verification conditions
   of every contract of the property and discharge them (z3, then cvc5);
2. replay refuting models, and run the concrete contracts, on the real code;
3. verdict, evidence.   Exit 0: held; exit 1: VIOLATION.
"""
import argparse
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"


def harness_env():
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    env.setdefault("HOME", "/tmp")
    return env


def start_harness(prop, seed, budget, cases, tier, tag):
    d = tempfile.mkdtemp(prefix="verif_c_")
    cf, of = os.path.join(d, "cases.json"), os.path.join(d, "out.json")
    json.dump(cases, open(cf, "w"), default=str)
    p = subprocess.Popen(
        [VENV, os.path.join(HERE, "replay", "harness.py"), "--prop", prop, "--seed", str(seed), "--budget", str(budget),
         "--cases", cf, "--out", of, "--tier", tier],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=harness_env(), cwd=d, start_new_session=True)
    return p, d, of


def finish_harness(h, timeout):
    import shutil, signal

    p, d, of = h
    out = b""
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
    try:
        r = json.load(open(of))
    except Exception:
        r = {"targets": {}, "failures": [], "errors": [{"target": "*", "detail": "harness: " + out.decode(errors="replace")[-1500:]}],
             "samples": [], "wall_s": 0}
    shutil.rmtree(d, ignore_errors=True)
    return r


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def matches(f, fail):
    """a failure is a listed finding only when target and the specific
    witness pattern of the listed failing input agree"""
    if f["target"] != fail["target"]:
        return False
    for k, v in f.get("case_match", {}).items():
        if fail["case"].get(k) != v:
            return False
    if "detail_match" in f and not re.search(f["detail_match"], fail["detail"]):
        return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    prop = a.prop
    try:
        rc = run(prop, tier, seed, t0, a.v)
    except Exception:
        # an error of the machinery is not a verdict on the code
        traceback.print_exc()
        print(f"UNDECIDED property={prop}: the checker failed")
        return 2
    return rc


def run(prop, tier, seed, t0, verbose):
    from pyvc import contract as C

    quick = tier == "quick"
    modpath = os.path.join(HERE, "contracts", prop + ".py")
    results, cons, mod = [], [], None
    have = os.path.exists(modpath)
    n_gen = 2 if quick else 4
    budget = 14 if quick else 150
    # the concrete search runs beside the solver
    hs = [start_harness(prop, f"{seed}.{i}", budget, [], tier, f"g{i}") for i in range(n_gen)]
    if have:
        mod, cons, results = C.run_all(prop, procs=6, tier=tier, timeout=8.0 if quick else 40.0,
                                       tmo_total=240 if quick else 1500)
        # functions whose proof did not go through: bounded unrolling, to look
        # for an input (labelled bounded, never counted as proved)
        for i, r in enumerate(results):
            if (r["refuted"] or r["unknown"] or r["unsupported"]) and cons[i].opts.get("bounded"):
                try:
                    b = C.run_contract(cons[i], tier=tier, timeout=5.0, bounded=cons[i].opts["bounded"], tmo_total=60)
                    r["bounded_run"] = {"bound": cons[i].opts["bounded"], "obligations": b["obligations"],
                                        "discharged": b["discharged"], "refuted": len(b["refuted"]),
                                        "unsupported": b["unsupported"][:3]}
                    r["cases"] += b["cases"]
                    r.setdefault("path_cases", [])
                    r["path_cases"] += b.get("path_cases", [])
                except Exception as e:
                    r["bounded_run"] = {"error": repr(e)[:200]}
    cases = []
    for r in results:
        cases += r["cases"]
        cases += r.get("path_cases", [])
    cases = [c for c in cases if c.get("target")]
    hm = start_harness(prop, f"{seed}.m", 0.5, cases, tier, "m") if cases else None
    hres = []
    for h in hs:
        hres.append(finish_harness(h, budget + 300))
    if hm is not None:
        hres.append(finish_harness(hm, 300))

    failures, errors, targets, samples = [], [], {}, []
    for r in hres:
        failures += r["failures"]
        errors += r["errors"]
        samples += r["samples"][:3]
        for k, v in r["targets"].items():
            t = targets.setdefault(k, {"evaluations": 0, "skipped": 0, "distinct": 0, "bad": 0, "errors": 0, "bounded": v.get("bounded")})
            for kk in ("evaluations", "skipped", "distinct", "bad", "errors"):
                t[kk] += v[kk]

    known = [f for f in known_findings() if f["property"] == prop]
    new, hit = [], {}
    for f in failures:
        for k in known:
            if matches(k, f):
                hit[k["id"]] = k
                break
        else:
            new.append(f)

    ob = sum(r["obligations"] for r in results)
    di = sum(r["discharged"] for r in results)
    # a contract is proved when everything it generated was discharged, it is
    # not vacuous and it was entirely within the verifier's reach
    proved, undecided = [], []
    for r in results:
        ok = r["obligations"] > 0 and r["obligations"] == r["discharged"] and not r["unsupported"] and r["vacuous"] in ("sat", "unknown")
        (proved if ok else undecided).append(r)
    # refuted obligations that need no input to be believed: exact fragment only
    proof_alarms = []
    for i, r in enumerate(results):
        if cons[i].opts.get("nfi", True) and r["refuted"] and not r["unsupported"] and all(o["kind"] == "post" for o in r["refuted"]):
            for o in r["refuted"]:
                if o["kind"] == "post" and not o["uf"]:
                    proof_alarms.append((r, o))
    wall = time.time() - t0
    replay = None
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    violation = None
    if new:
        new.sort(key=lambda f: len(json.dumps(f["case"], default=str)))
        f = new[0]
        replay = os.path.join(HERE, "evidence", "replays", f"{prop}.json")
        failed = [o["name"] for r in results for o in r["refuted"] if r["target"] == f["target"]]
        json.dump({"property": prop, "target": f["target"], "case": f["case"], "detail": f["detail"], "origin": f["origin"],
                   "failed_obligations": failed[:20],
                   "run": f"{VENV} /verif/replay/harness.py --replay {replay}", "all": new[:10]}, open(replay, "w"), indent=1)
        violation = f"VIOLATION property={prop} replay={replay}"
    elif proof_alarms:
        r, o = proof_alarms[0]
        replay = os.path.join(HERE, "evidence", "replays", f"{prop}.json")
        json.dump({"property": prop, "contract": r["contract"], "function": r["fn"], "failed_obligation": o}, open(replay, "w"), indent=1, default=str)
        violation = f"VIOLATION property={prop} replay={replay} no-failing-input-found"

    level = getattr(mod, "LEVEL", "proof") if mod else "other"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": ob, "discharged": di,
            "checker_cmd": f"cd /verif && python3-vt check.py {prop} --tier {tier}",
            "trusted_base": ["pyvc symbolic executor (/verif/pyvc)", "z3 " + z3v(), "cvc5 (second solver)",
                             "library contracts in pyvc/lib.py and pyvc/smt.py"],
            "functions_under_contract": sorted({r["fn"] for r in results if r["fn"]}),
            "functions_inlined": sorted({x for r in results for x in r["inlined"]} - {r["fn"] for r in results}),
            "contracts_used_at_call_sites": sorted({x for r in results for x in r["contracts_used"]}),
            "contracts": [{"contract": r["contract"], "function": r["fn"], "obligations": r["obligations"], "discharged": r["discharged"],
                           "paths": r["paths"], "by_backend": r["by_backend"], "solver_s": round(r.get("solver_time", 0), 2),
                           "precondition_satisfiable": r["vacuous"], "out_of_reach": r["unsupported"][:3],
                           "unproved": [o["name"] for o in r["refuted"] + r["unknown"]][:10],
                           "bounded_stand_in": r.get("bounded_run")} for r in results],
            "proved_contracts": len(proved), "undecided_contracts": len(undecided),
            "solver_s": round(sum(r.get("solver_time", 0) for r in results), 2),
            "concrete_contract_search": targets,
            "evaluations": sum(t["evaluations"] for t in targets.values()),
            "distinct_nontrivial": sum(t["distinct"] for t in targets.values()),
            "rule": "concrete side of the same contracts on the real code: counter-models, one input per symbolic path, and seeded random/boundary inputs; non-trivial = inside the precondition (not skipped), distinct by content",
            "samples": samples[:4] or [{"note": "none"}],
            "harness_errors": errors[:5],
            "explanation": getattr(mod, "EXPLAIN", "") if mod else "concrete contracts only (bounded)",
        },
        "assumptions": sorted({x for r in results for x in r["assumed"]}) + list(getattr(mod, "ASSUME", []) if mod else []) + [
            "floating-point arithmetic is treated as real arithmetic and machine integers as mathematical integers in the proved part",
        ],
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    # listed findings are reported even when this run's inputs did not hit them
    for k in known:
        if k["id"] not in hit and k.get("always", True):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"{prop}: {di}/{ob} obligations discharged over {len(results)} contracts ({len(proved)} proved, {len(undecided)} not); "
          f"{ev['coverage']['evaluations']} concrete evaluations; {wall:.1f}s")
    if verbose or undecided:
        for r in undecided:
            print("  not proved:", r["contract"], "| unsupported:", r["unsupported"][:2], "| refuted:", [o["name"] for o in r["refuted"]][:5],
                  "| unknown:", [o["name"] for o in r["unknown"]][:5], "| cover:", r["vacuous"])
    for e in errors[:5]:
        print("  harness error:", e["target"], e["detail"][:400].replace("\n", " / "))
    if violation:
        print(violation)
        if new:
            print("  ", new[0]["target"], new[0]["detail"][:600])
        return 1
    if have and ob == 0 and not any(t["evaluations"] for t in targets.values()):
        print(f"UNDECIDED property={prop}: nothing was checked")
        return 2
    return 0


def z3v():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
