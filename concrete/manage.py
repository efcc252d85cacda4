"""Starts the workers, watches for crashes and hangs, collects the results."""
import json
import os
import shutil
import signal
import subprocess
import tempfile
import time

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME", "VIRTUAL_ENV")}
    e.update(MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/pcv-mpl", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    return e


def spawn(args, **kw):
    return subprocess.Popen([PY, "-W", "ignore", os.path.join(HERE, "base.py"), json.dumps(args)], env=env(), stderr=subprocess.PIPE if kw.get("err") else subprocess.DEVNULL,
                            stdout=subprocess.PIPE if kw.get("out") else subprocess.DEVNULL, cwd="/tmp", start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def run_one(prop, scratch, target, case, timeout, outdir, repeat=1):
    """-> violation dict or None"""
    f = os.path.join(outdir, "one-%d.json" % (time.time_ns()))
    with open(f, "w") as fd:
        json.dump({"target": target, "case": case}, fd)
    p = spawn({"mode": "one", "prop": prop, "scratch": scratch, "case": f, "repeat": repeat}, out=True, err=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return {"target": target, "case": case, "message": "does not terminate within %d s" % timeout, "key": "hang:" + target}
    if p.returncode == 0:
        return None
    if p.returncode < 0:
        return {"target": target, "case": case, "message": "the process is killed by signal %d\n%s" % (-p.returncode, err.decode(errors="replace")[-500:]), "key": "crash:" + target}
    try:
        return json.loads(out.decode().strip().split("\n")[-1])
    except ValueError:
        raise RuntimeError("harness: " + err.decode(errors="replace")[-2000:])


def explore(prop, scratch, seed, budget, nshards, known, only=None, stop=None):
    outdir = tempfile.mkdtemp(prefix="pcv-run-")
    try:
        procs = {}
        for s in range(nshards):
            procs[s] = spawn({"mode": "worker", "prop": prop, "scratch": scratch, "seed": seed, "shard": s, "nshards": nshards, "budget": budget, "outdir": outdir,
                              "known": sorted(known), "only": only}, err=False)
        t0 = time.time()
        violations, known_hits, notes = [], {}, []
        alive = dict(procs)
        errs = []
        while alive:
            time.sleep(0.1)
            for s, p in list(alive.items()):
                rc = p.poll()
                j = os.path.join(outdir, "journal-%d" % s)
                if rc is None:
                    if stop is not None and stop():
                        kill(p)
                        del alive[s]
                        continue
                    try:
                        with open(j) as f:
                            d = json.load(f)
                    except (OSError, ValueError):
                        if time.time() - t0 > budget + 120:
                            kill(p)
                            errs.append("worker %d did not start" % s)
                            del alive[s]
                        continue
                    if time.time() - d["start"] > d["timeout"]:
                        kill(p)
                        del alive[s]
                        v = run_one(prop, scratch, d["target"], d["case"], 2 * d["timeout"], outdir)
                        if v is not None:
                            (known_hits.__setitem__(v["key"], 1) if v["key"] in known else violations.append(v))
                        else:
                            notes.append("a case of %s exceeded %d s once, not confirmed" % (d["target"], d["timeout"]))
                    continue
                del alive[s]
                if rc < 0:
                    with open(j) as f:
                        d = json.load(f)
                    v = run_one(prop, scratch, d["target"], d["case"], 2 * d["timeout"], outdir, repeat=20)
                    if v is None:
                        notes.append("worker %d died of signal %d during %s, not reproduced by the case alone" % (s, -rc, d["target"]))
                        v = {"target": d["target"], "case": d["case"], "message": "the process is killed by signal %d after a sequence of cases (seed %s shard %d/%d index %d)" % (-rc, seed, s, nshards, d["index"]), "key": "crash:" + d["target"]}
                    (known_hits.__setitem__(v["key"], 1) if v["key"] in known else violations.append(v))
                elif rc > 0:
                    errs.append("worker %d exits with %d" % (s, rc))
            if violations:
                break
            # a worker that has found a violation ends: collect it at once
            for s in range(nshards):
                o = os.path.join(outdir, "out-%d.json" % s)
                if s not in alive and os.path.exists(o):
                    with open(o) as f:
                        if json.load(f)["violations"]:
                            for q in alive.values():
                                kill(q)
                            alive = {}
                            break
        for p in alive.values():
            kill(p)
        res = {"counts": {}, "nontrivial": {}, "samples": [], "violations": violations, "known": known_hits, "notes": notes, "errors": errs}
        for s in range(nshards):
            o = os.path.join(outdir, "out-%d.json" % s)
            if not os.path.exists(o):
                continue
            with open(o) as f:
                d = json.load(f)
            for k in ("counts", "nontrivial", "known"):
                for a, b in d[k].items():
                    res[k][a] = res[k].get(a, 0) + b
            have = {x["target"] for x in res["samples"]}
            res["samples"] += [x for x in d["samples"] if x["target"] not in have]
            res["violations"] += d["violations"]
        return res
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
