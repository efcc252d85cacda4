import math
from .base import Target, expect
from .cppdrv import Driver
from .oracle import partition
from pyclustering.nnet import conn_type, conn_represent, initial_type, solve_type
from pyclustering.nnet.sync import sync_dynamic, sync_network, order_estimator
from pyclustering.nnet.syncpr import syncpr
from pyclustering.nnet.hysteresis import hysteresis_dynamic
from pyclustering.nnet.cnn import cnn_dynamic, cnn_network
from pyclustering.nnet.pcnn import pcnn_dynamic, pcnn_network

DRV = Driver("sync")
TWO = 2 * math.pi


def phases(rng, n):
    mode = rng.choice(["random", "groups", "equal", "zero", "edge", "lattice"])
    if mode == "equal":
        x = rng.choice([0.0, rng.uniform(0, TWO), 3.0])
        return [x] * n
    if mode == "zero":
        return [0.0] * n
    if mode == "groups":
        b = [rng.uniform(0, TWO) for _ in range(rng.randint(1, 4))]
        return [min(TWO, max(0.0, rng.choice(b) + rng.uniform(-0.02, 0.02))) for _ in range(n)]
    if mode == "edge":
        return [rng.choice([0.0, 0.004, TWO - 0.004, 6.28, 0.5, 5.0]) for _ in range(n)]
    if mode == "lattice":
        return [rng.randint(0, 12) * 0.5 for _ in range(n)]
    return [rng.uniform(0, TWO) for _ in range(n)]


def g_ens(rng, i):
    n = rng.randint(1, min(14, 3 + i // 4))
    s = rng.randint(1, 4)
    return {"n": n, "states": [phases(rng, n) for _ in range(s)], "tol": rng.choice([0.01, 0.1, 0.3, 0.75, 1.0]), "it": rng.choice([None, rng.randrange(s)]),
            "indexes": rng.sample(range(100), n) if rng.random() < 0.4 else None}


def ensembles(ens, ph, tol, order=True):
    """partition; membership within the tolerance; a new ensemble only beyond it"""
    partition(ens, len(ph), "ensembles", nonempty=True)
    eps = 1e-9

    def near(a, b, t):
        d = abs(ph[a] - ph[b])
        return d < t or abs(abs(ph[a] - TWO) - ph[b]) < t or abs(abs(ph[b] - TWO) - ph[a]) < t or abs(TWO - d) < t
    for e in ens:
        for x in e:
            before = [y for y in e if y < x]
            expect(not before or any(near(x, y, tol + eps) for y in before), lambda: "oscillator %d (phase %r) is within %r of no member of its ensemble %s" % (x, ph[x], tol, [(y, ph[y]) for y in e]))
        first = min(e)
        for f in ens:
            if f is not e:
                expect(not any(abs(ph[first] - ph[y]) < tol - eps for y in f if y < first), lambda: "oscillator %d opens an ensemble although it is within the tolerance of an earlier one: %s of %s" % (first, ens, ph))


def order(v, ph, what):
    expect(-1e-9 <= v <= 1 + 1e-9, lambda: "%s: the order parameter %r is out of range for %s" % (what, v, ph))
    if len(set(ph)) == 1:
        expect(abs(v - 1) < 1e-9, lambda: "%s: the order parameter of equal phases %s is %r" % (what, ph, v))
    want = math.exp(abs(sum(ph) / len(ph))) / (sum(math.exp(abs(x)) for x in ph) / len(ph))
    if max(ph) - min(ph) > 1e-3:
        expect(v < 1, lambda: "%s: the order parameter of %s is %r" % (what, ph, v))
    return want


def check_py(c):
    d = sync_dynamic(c["states"], list(range(len(c["states"]))))
    ph = c["states"][-1 if c["it"] is None else c["it"]]
    kw = {}
    if c["it"] is not None:
        kw["iteration"] = c["it"]
    ens = d.allocate_sync_ensembles(c["tol"], c["indexes"], **kw)
    if c["indexes"]:
        ens = [[c["indexes"].index(x) if x in c["indexes"] else -1 for x in e] for e in ens]
    ensembles(ens, ph, c["tol"])
    for s in range(len(c["states"])):
        v = d.calculate_order_parameter(s, s + 1)
        expect(len(v) == 1, "amount of order values")
        order(v[0], c["states"][s], "python")
    v = d.calculate_order_parameter(0, len(c["states"]))
    expect(len(v) == len(c["states"]), "amount of order values")
    m = d.allocate_phase_matrix(len(ph), 1)
    expect(m == [c["states"][-1]], "phase matrix")
    return len(ens) > 1


def check_cpp(c):
    it = len(c["states"]) - 1 if c["it"] is None else c["it"]
    r = DRV.ask("%d %d %r %d %s" % (len(c["states"]), c["n"], c["tol"], it, " ".join(repr(x) for s in c["states"] for x in s)))
    e, o = r.split("|")
    ens = [[int(x) for x in q.split()] for q in e.split(";") if q.split()]
    ensembles(ens, c["states"][it], c["tol"])
    for v, s in zip(o.split(), c["states"]):
        order(float(v), s, "C++")
    return len(ens) > 1


def g_sim(rng, i):
    return {"n": rng.choice([1, 2, 3, 5, rng.randint(1, 9), rng.randint(1, 9), rng.choice([8, 70])]), "weight": rng.choice([1, 1, 0, 2, 8]), "freq": rng.choice([0, 0, 1, 7, 20]), "ccore": rng.random() < 0.6,
            "conn": rng.choice(["ALL_TO_ALL", "LIST_BIDIR", "NONE"]), "init": rng.choice(["RANDOM_GAUSSIAN", "EQUIPARTITION"]), "solver": rng.choice(["FAST", "FAST", "RK4"]),
            "collect": rng.random() < 0.7, "tol": rng.choice([0.01, 0.1, 0.4]), "steps": rng.randint(1, 8), "time": rng.choice([1, 2.5, 6]), "dynamic": rng.random() < 0.3, "pr": rng.random() < 0.2,
            "seed": rng.randrange(1 << 30)}


def check_sim(c):
    import random
    import unittest.mock
    random.seed(c["seed"])
    solver = getattr(solve_type, c["solver"])
    if not c["ccore"] and c["n"] > 9:
        c = dict(c, n=9)
    with unittest.mock.patch("random.seed", lambda *a: None):
        if c["pr"]:
            net = syncpr(c["n"], 0.1, 0.1, c["ccore"])
            pat = [1 if random.random() < 0.5 else -1 for _ in range(c["n"])]
            net.train([pat])
            dyn = net.simulate_static(c["steps"], c["time"], pat, solver, c["collect"])
        else:
            net = sync_network(c["n"], c["weight"], c["freq"], getattr(conn_type, c["conn"]), conn_represent.MATRIX, getattr(initial_type, c["init"]), c["ccore"])
            o = net.sync_order()
            expect(0 <= o <= 1 + 1e-9, lambda: "order of the new network is %r" % o)
            if c["dynamic"] and c["freq"] == 0 and c["weight"] == 1 and c["conn"] == "ALL_TO_ALL" and c["n"] < 10:
                dyn = net.simulate_dynamic(0.99, solver, c["collect"])
            else:
                dyn = net.simulate_static(c["steps"], c["time"], solver, c["collect"])
    out = [list(s) for s in dyn.output]
    expect(len(out) == len(dyn) == len(dyn.time) and len(out) >= 1, lambda: "%d states, length %d, %d times" % (len(out), len(dyn), len(dyn.time)))
    for s in out:
        expect(len(s) == c["n"], "one phase per oscillator")
        for x in s:
            expect(-1e-9 <= x <= TWO + 1e-6, lambda: "phase %r is not within one period" % x)
    ensembles(dyn.allocate_sync_ensembles(c["tol"]), out[-1], c["tol"])
    k = len(out) // 2
    ensembles(dyn.allocate_sync_ensembles(c["tol"], None, k), out[k], c["tol"])
    for v, s in zip(dyn.calculate_order_parameter(0, len(out)), out):
        order(v, s, "network")
    if not c["pr"]:
        o = net.sync_order()
        expect(-1e-9 <= o <= 1 + 1e-9, lambda: "order of the network is %r" % o)
        o = net.sync_local_order()
        expect(-1e-9 <= o <= 1 + 1e-9, lambda: "local order of the network is %r" % o)
    return c["n"] > 1


def g_other(rng, i):
    n, s = rng.randint(1, 9), rng.randint(1, 6)
    return {"out": [[rng.choice([-2.0, -1.95, -0.5, 0.3, 0.35, 0.42, 1.0]) for _ in range(n)] for _ in range(s)], "tol": rng.choice([0.06, 0.1, 0.5]), "steps": rng.randint(1, s + 1)}


def check_hyst(c):
    out, tol = c["out"], c["tol"]
    e = hysteresis_dynamic(out, list(range(len(out)))).allocate_sync_ensembles(tol, c["steps"])
    n = len(out[0])
    partition(e, n, "ensembles", nonempty=True)
    last = out[-min(c["steps"], len(out)):]

    def near(a, b):
        return all(abs(s[a] - s[b]) < tol + 1e-9 for s in last)
    for x in e:
        for y in x:
            expect(y == min(x) or any(near(y, z) for z in x if z < y), lambda: "oscillator %d is within the tolerance of no member of %s" % (y, x))
        for f in e:
            if min(f) < min(x):
                expect(not all(abs(s[min(f)] - s[min(x)]) < tol - 1e-9 for s in last), lambda: "oscillator %d opens an ensemble although it is within the tolerance of %d" % (min(x), min(f)))
    return len(e) > 1


def check_cnn(c):
    out = c["out"]
    d = cnn_dynamic(out, list(range(len(out))))
    e = d.allocate_sync_ensembles(c["steps"])
    n = len(out[0])
    partition(e, n, "ensembles", nonempty=True)
    k = min(c["steps"], len(out))
    pat = [[s[i] > 0 for s in out[-k:]] for i in range(n)]
    lab = {y: j for j, x in enumerate(e) for y in x}
    for a in range(n):
        for b in range(a):
            expect((lab[a] == lab[b]) == (pat[a] == pat[b]), lambda: "neurons %d and %d: ensembles %s, patterns %s %s" % (a, b, e, pat[a], pat[b]))
    return len(e) > 1


def g_pcnn(rng, i):
    n, s = rng.choice([1, 4, 9, 16, rng.randint(1, 12)]), rng.randint(1, 25)
    return {"n": n, "steps": s, "stim": [rng.choice([0, 0, 1, 10]) for _ in range(n)], "ccore": rng.random() < 0.6, "conn": rng.choice(["ALL_TO_ALL", "NONE", "LIST_BIDIR"]), "fast": False,
            "raw": [[rng.choice([0, 0, 1]) for _ in range(n)] for _ in range(s)] if rng.random() < 0.5 else None}


def check_pcnn(c):
    n = c["n"]
    if c["raw"]:
        d = pcnn_dynamic(c["raw"])
    else:
        from pyclustering.nnet.pcnn import pcnn_parameters
        p = pcnn_parameters()
        p.FAST_LINKING = c["fast"]
        d = pcnn_network(n, p, getattr(conn_type, c["conn"]), ccore=c["ccore"]).simulate(c["steps"], c["stim"])
    out = [list(s) for s in d.output]
    sync = d.allocate_sync_ensembles()
    flat = [x for e in sync for x in e]
    expect(len(flat) == len(set(flat)) and all(sync), lambda: "an oscillator occurs twice or an ensemble is empty: %s" % sync)
    last = {}
    for t in range(len(out)):
        for x in range(n):
            if out[t][x]:
                last[x] = t
    expect({x for x in last if last[x] > 0} <= set(flat) <= set(last), lambda: "ensembles %s, oscillators that fire %s" % (sync, sorted(last)))
    for e in sync:
        expect(len({last[x] for x in e}) == 1, lambda: "the oscillators of %s do not fire last together" % e)
    spikes = d.allocate_spike_ensembles()
    expect(sorted(map(sorted, spikes)) == sorted([x for x in range(n) if s[x]] for s in out if any(s)), lambda: "spike ensembles %s of %s" % (spikes, out))
    expect([int(x) for x in d.allocate_time_signal()] == [int(sum(s)) for s in out], "time signal")
    return len(flat) > 0


TARGETS = [Target("sync_dynamic", g_ens, check_py, 2), Target("cpp.sync_dynamic", g_ens, check_cpp, 2), Target("sync_network", g_sim, check_sim, 3), Target("hysteresis", g_other, check_hyst),
           Target("cnn", g_other, check_cnn), Target("pcnn", g_pcnn, check_pcnn)]
