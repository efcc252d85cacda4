"""python3-vt check.py <property> [--root DIR] [--unit NAME] [--no-proof] [--no-run]

1. extracts the functions under contract from the current source and discharges every obligation (vc/),
2. evaluates the same contracts at run time on the real code, freshly built (bounded; finds the failing inputs),
3. writes evidence/<property>.json and prints the verdict."""
import argparse
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def contracts_of(prop):
    return importlib.import_module("contracts." + prop.lower())


def unit_job(a):
    prop, root, name = a
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        from vc.contract import Registry
        from vc.verify import verify
        try:
            cs = contracts_of(prop).CONTRACTS
            c = [x for x in cs if x.name == name][0]
            out.append(verify(root, c, Registry(cs)))
        except Exception as e:
            import traceback
            out.append({"unit": name, "file": "", "func": "", "lang": "", "obligations": [], "trusted": [], "inlined": [], "wall": 0, "solver": 0.0,
                        "error": "verifier: %s: %s" % (type(e).__name__, traceback.format_exc()[-800:])})
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0]


def known_findings():
    """{(property, key): text}"""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                w = l.split(None, 3)
                r[(w[1].split("=")[1], w[2].split("=", 1)[1])] = w[3] if len(w) > 3 else ""
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-run", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    prop = a.property
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    root = os.path.abspath(a.root)
    t0 = time.time()
    known = {k: v for (p, k), v in known_findings().items() if p == prop}
    mod = contracts_of(prop)
    units = [] if a.no_proof else [c.name for c in mod.CONTRACTS if not c.trusted]
    budget = a.budget or (getattr(mod, "BUDGET", 40) if tier == "quick" else 300)
    concrete = os.path.exists(os.path.join(VERIF, "concrete", prop.lower() + ".py")) and not a.no_run

    conc = {}

    def run_concrete():
        from vc import build
        from concrete import manage
        try:
            conc["scratch"] = build.scratch(root)
            conc["res"] = manage.explore(prop, conc["scratch"], seed, budget, 4, known, a.only)
        except build.BuildError as e:
            conc["error"] = "the C++ core does not build: %s" % e
        except Exception as e:
            import traceback
            conc["error"] = traceback.format_exc()

    th = threading.Thread(target=run_concrete)
    pool = concurrent.futures.ProcessPoolExecutor(6, mp_context=multiprocessing.get_context("spawn")) if units else None
    if concrete:
        th.start()
    results = []
    if pool:
        futs = [pool.submit(unit_job, (prop, root, u)) for u in units]
        for u, f in zip(units, futs):
            try:
                results.append(f.result())
            except Exception:        # a worker was ended (memory): run the unit again, alone
                with concurrent.futures.ProcessPoolExecutor(1, mp_context=multiprocessing.get_context("spawn")) as one:
                    results.append(one.submit(unit_job, (prop, root, u)).result())
        pool.shutdown()
    if concrete:
        th.join()
    failing = []
    obligations = discharged = 0
    backends = {}
    for r in results:
        if r["error"]:
            obligations += 1
            failing.append({"unit": r["unit"], "name": "%s: %s" % (r["unit"], r["error"].split("\n")[0]), "status": "not generated", "detail": r["error"]})
        for o in r["obligations"]:
            obligations += 1
            if o["status"] == "proved":
                discharged += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            elif o["name"] in known:
                pass
            else:
                failing.append(dict(o, unit=r["unit"]))
    res = conc.get("res") or {"counts": {}, "nontrivial": {}, "samples": [], "violations": [], "known": {}, "notes": [], "errors": []}
    if conc.get("error"):
        print("error: " + conc["error"], file=sys.stderr)
        sys.exit(3)
    if res["errors"]:
        print("error: " + "; ".join(res["errors"]), file=sys.stderr)
        sys.exit(3)
    violations = list(res["violations"])
    extra = None
    if failing and not violations and concrete:
        # an obligation fails: search longer for an input on which the contract is false on the real code
        from concrete import manage
        extra = manage.explore(prop, conc["scratch"], seed + 1000003, min(120, 2 * budget), 8, known, a.only)
        violations = list(extra["violations"])
        for k in ("counts", "nontrivial", "known"):
            for x, n in extra[k].items():
                res[k][x] = res[k].get(x, 0) + n
    wall = time.time() - t0
    trusted = sorted({"contract assumed: " + c.name + (": " + c.trusted_why if c.trusted_why else "") for c in mod.CONTRACTS if c.trusted} |
                     {"trusted symbol: " + str(t) for r in results for t in r["trusted"]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(wall, 2), "violations": len(violations) + (1 if failing and not violations else 0),
          "coverage": {
              "obligations": obligations, "discharged": discharged, "checker_cmd": "python3-vt check.py " + prop,
              "trusted_base": ["vc/ (extraction and verification condition generator of this repository)", "z3 4.x (python3-vt)", "cvc5 1.1.2", "clang 18 AST dump (C++ units)"] + trusted,
              "backends": backends, "solver_s": round(sum(r["solver"] for r in results), 2),
              "functions_under_contract": [{"unit": r["unit"], "function": r["func"], "file": r["file"], "obligations": len(r["obligations"]),
                                            "discharged": sum(o["status"] == "proved" for o in r["obligations"]), "inlined": r["inlined"], "solver_s": round(r["solver"], 2)} for r in results],
              "undischarged": [f["name"] for f in failing],
              "bounded": {"what": "the same contracts evaluated at run time on the real code (stand-in for what is not under contract; never counted as proved)",
                          "evaluations": sum(res["counts"].values()), "distinct_nontrivial": sum(res["nontrivial"].values()), "per_target": res["counts"],
                          "rule": getattr(mod, "RULE", "random small inputs with ties, duplicates and degenerate shapes; non-trivial: the postcondition was evaluated on a result that is not empty"),
                          "seconds": budget, "notes": res["notes"]},
              "evaluations": sum(res["counts"].values()), "distinct_nontrivial": sum(res["nontrivial"].values()), "samples": res["samples"][:12]},
          "assumptions": ["integers are mathematical, except that C++ size_t subtraction wraps modulo 2^64", "floating point is treated as real arithmetic without rounding; INF stands for sys.float_info.max / infinity",
                          "Python objects of the declared parameter types; termination is not proved (a bounded time limit is checked at run time)"] + getattr(mod, "ASSUMPTIONS", [])}
    if not a.no_proof and not a.no_run and not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged over %d functions (%.1f s solver), %d run-time evaluations (%d distinct non-trivial), %.1f s" %
          (prop, discharged, obligations, len(results), ev["coverage"]["solver_s"], sum(res["counts"].values()), sum(res["nontrivial"].values()), wall))
    for n in res["notes"]:
        print("note: " + n)
    for k in sorted(known):
        if k in res["known"] or any(o["name"] == k and o["status"] != "proved" for r in results for o in r["obligations"]):
            print("KNOWN-FINDING: property=%s %s %s" % (prop, k, known[k]))
    for f in failing:
        print("undischarged: %s [%s]" % (f["name"], f["status"]))
    if not violations and not failing:
        sys.exit(0)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rep = {"property": prop, "failed_obligations": failing, "tier": tier, "seed": seed}
    if violations:
        v = violations[0]
        rep.update(target=v["target"], case=v["case"], message=v["message"], key=v["key"],
                   how="python3-vt /verif/replay.py <this file>  (evaluates the contract on this input on the real code)")
        print("failing input (%s): %s" % (v["target"], v["message"].split("\n")[0][:400]))
    h = hashlib.md5(json.dumps(rep, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1, default=str)
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if violations else " no-failing-input-found"))
    sys.exit(1)


if __name__ == "__main__":
    main()
