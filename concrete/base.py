"""Run-time evaluation of the contracts on the real code: targets, case generators, the worker loop.

A target = gen(rng, i) -> JSON-able case, check(case) -> (nontrivial: bool); check raises Violation (or any exception the
code under contract must not raise) when a postcondition is false on that input."""
import hashlib
import json
import os
import random
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def expect(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Target:
    def __init__(self, name, gen, check, weight=1, timeout=30, contracts=(), limit=None):
        self.name, self.gen, self.check, self.weight, self.timeout, self.contracts, self.limit = name, gen, check, weight, timeout, contracts, limit


def rng_for(seed, target, i):
    return random.Random("%s:%s:%s" % (seed, target, i))


def load(prop, scratch):
    import importlib
    sys.path.insert(0, scratch)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    os.environ.setdefault("MPLBACKEND", "Agg")
    import warnings
    warnings.simplefilter("ignore")
    import pyclustering
    assert os.path.dirname(os.path.dirname(os.path.abspath(pyclustering.__file__))) == os.path.abspath(scratch), pyclustering.__file__
    m = importlib.import_module("concrete." + prop.lower())
    m.SCRATCH = scratch
    return m.TARGETS


def short(x, n=1500):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


def run_case(t, case):
    """-> (nontrivial, None) or (None, violation dict)"""
    try:
        return bool(t.check(case)), None
    except Violation as e:
        return None, {"target": t.name, "case": case, "message": str(e)[:1500], "key": e.key}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name)
        return None, {"target": t.name, "case": case, "message": "%s: %s (at %s:%d)\n%s" % (type(e).__name__, str(e)[:300], where, tb[-1].lineno, "".join(traceback.format_tb(e.__traceback__)[-4:])[:1200]),
                      "key": "exception:%s:%s" % (type(e).__name__, where)}


def worker(prop, scratch, seed, shard, nshards, budget, outdir, known, only=None):
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    targets = load(prop, scratch)
    if only:
        targets = [t for t in targets if only in t.name]
    state = {"counts": {}, "nontrivial": {}, "samples": [], "violations": [], "known": {}}
    seen = set()
    jpath = os.path.join(outdir, "journal-%d" % shard)
    idx = {t.name: shard for t in targets}
    t0 = time.time()
    spent = {t.name: 0.0 for t in targets}
    done = set()
    while time.time() - t0 < budget and len(done) < len(targets):
        # the target with the least time spent per weight runs next
        t = min((x for x in targets if x.name not in done), key=lambda x: spent[x.name] / x.weight)
        i = idx[t.name]
        idx[t.name] += nshards
        if t.limit is not None and i >= t.limit:
            done.add(t.name)
            continue
        rng = rng_for(seed, t.name, i)
        a = time.time()
        case = t.gen(rng, i)
        if case is None:
            done.add(t.name)
            continue
        js = json.dumps(case, sort_keys=True)
        with open(jpath, "w") as f:
            f.write(json.dumps({"target": t.name, "index": i, "timeout": t.timeout, "start": a, "case": case}))
        nt, v = run_case(t, case)
        spent[t.name] += time.time() - a + 1e-4
        state["counts"][t.name] = state["counts"].get(t.name, 0) + 1
        if v is not None:
            if v["key"] in known:
                state["known"][v["key"]] = state["known"].get(v["key"], 0) + 1
                continue
            v["index"] = i
            state["violations"].append(v)
            break
        if nt:
            h = hashlib.md5((t.name + js).encode()).digest()
            if h not in seen:
                seen.add(h)
                state["nontrivial"][t.name] = state["nontrivial"].get(t.name, 0) + 1
                if sum(1 for s in state["samples"] if s["target"] == t.name) < 1:
                    state["samples"].append({"target": t.name, "case": short(case, 400)})
    try:
        os.unlink(jpath)
    except OSError:
        pass
    out = os.path.join(outdir, "out-%d.json" % shard)
    with open(out + ".tmp", "w") as f:
        json.dump(state, f)
    os.rename(out + ".tmp", out)


def main():
    a = json.loads(sys.argv[1])
    if a["mode"] == "worker":
        worker(a["prop"], a["scratch"], a["seed"], a["shard"], a["nshards"], a["budget"], a["outdir"], set(a["known"]), a.get("only"))
    else:
        ts = {t.name: t for t in load(a["prop"], a["scratch"])}
        with open(a["case"]) as f:
            c = json.load(f)
        out = os.dup(1)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        v = None
        for _ in range(a.get("repeat", 1)):
            nt, v = run_case(ts[c["target"]], c["case"])
            if v is not None:
                break
        os.write(out, (json.dumps(v) + "\n").encode())
        os._exit(1 if v else 0)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from concrete import base
    base.main()
