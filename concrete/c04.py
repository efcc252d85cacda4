import copy
import numpy
from .base import Target, expect
from . import gen
from .oracle import partition
from pyclustering.cluster.bsas import bsas
from pyclustering.cluster.mbsas import mbsas
from pyclustering.cluster.ttsas import ttsas


def g(alg):
    def f(rng, i):
        data = gen.points(rng, i)
        ms = rng.choice(gen.METRICS)
        d = sorted(gen.dist(ms, a, b, data) for a in data for b in data)
        t = rng.choice([0.0, d[len(d) // 4], d[len(d) // 2], d[-1] / 2, rng.uniform(0, d[-1] + 0.1)])
        return {"alg": alg, "ccore": rng.random() < 0.5, "data": data, "metric": ms, "amount": rng.randint(1, len(data) + 1), "t1": t, "t2": t * rng.choice([1.0, 1.5, 2.0]), "numpy": rng.random() < 0.2}
    return f


def check(c):
    data = c["data"]
    n = len(data)
    given = numpy.array(data) if c["numpy"] else copy.deepcopy(data)
    m = gen.metric(c["metric"], data)
    if c["alg"] == "ttsas":
        a = ttsas(given, c["t1"], c["t2"], c["ccore"], metric=m)
    else:
        a = (bsas if c["alg"] == "bsas" else mbsas)(given, c["amount"], c["t1"], c["ccore"], metric=m)
    a.process()
    cl, rep = a.get_clusters(), [list(map(float, r)) for r in a.get_representatives()]
    partition(cl, n, "clusters", True)
    expect(len(rep) == len(cl), "%d representatives, %d clusters" % (len(rep), len(cl)))
    if c["alg"] != "ttsas":
        expect(len(cl) <= c["amount"], "%d clusters, at most %d allowed" % (len(cl), c["amount"]))
    now = [list(map(float, p)) for p in given]
    expect(now == data, lambda: "the caller's data is changed: %s -> %s" % (data, now))
    cpp = c["ccore"] and c["metric"] != "USER_DEFINED"
    # threshold: replay of the allocation
    D = lambda p, q: gen.dist(c["metric"], p, q, data)
    tol = 1e-9
    owner = {}
    for j, k in enumerate(cl):
        for x in k:
            owner[int(x)] = j
    first = {int(k[0]): j for j, k in enumerate(cl)}       # the point that opened the cluster
    if c["alg"] == "bsas":
        reps = {}
        for i in range(n):
            if reps:
                ds = {j: D(data[i], r[0]) for j, r in reps.items()}
                best = min(ds.values())
            if i in first:
                j = first[i]
                expect(not reps or best > c["t1"] - tol * (1 + best), lambda: "point %d opens cluster %d though a representative is at %r <= %r" % (i, j, best, c["t1"]))
                expect(j == len(reps), "clusters are not in order of allocation")
                reps[j] = [list(data[i]), 1]
            else:
                j = owner[i]
                expect(j in reps, "point %d put into cluster %d before it exists" % (i, j))
                expect(best <= c["t1"] * (1 + tol) + tol or len(reps) >= c["amount"], lambda: "point %d at %r > %r does not open a cluster" % (i, best, c["t1"]))
                expect(ds[j] <= best * (1 + 1e-7) + tol, lambda: "point %d joins cluster %d at %r, nearest is at %r" % (i, j, ds[j], best))
                r, k = reps[j]
                w = len(reps) - 1 if cpp else k           # the C++ weight is a known finding
                reps[j] = [[(w * x + y) / (w + 1) for x, y in zip(r, data[i])], k + 1]
    elif c["alg"] == "mbsas":
        op = sorted(first)
        for a_, i in enumerate(op):
            expect(first[i] == a_, "clusters are not in order of allocation")
            for q in op[:a_]:
                expect(D(data[i], data[q]) > c["t1"] - tol * (1 + c["t1"]), "point %d opens a cluster at %r <= %r from representative %d" % (i, D(data[i], data[q]), c["t1"], q))
        if len(op) < c["amount"]:
            for i in range(n):
                if i not in first:
                    expect(any(D(data[i], data[q]) <= c["t1"] * (1 + tol) + tol for q in op if q < i), "point %d opens no cluster though farther than the threshold from all" % i)
    means(c, cl, rep, cpp)
    return n > 1 and len(cl) < n


def means(c, cl, rep, cpp):
    """each representative is the mean of its cluster.  Known finding: the C++ code weights the update with the number of
    clusters instead of the number of points; representatives that are exactly what this weight gives are reported under
    its key, all others are violations."""
    data = c["data"]
    near = lambda a, b: all(abs(x - y) <= 1e-8 * (1 + max(abs(p[d]) for p in data)) for d, (x, y) in enumerate(zip(a, b)))
    bad = None
    for k, r in zip(cl, rep):
        m = [sum(data[int(x)][d] for x in k) / len(k) for d in range(len(data[0]))]
        if not near(m, r):
            bad = bad or "representative %s of cluster %s, the mean is %s" % (r, [int(x) for x in k], m)
    if bad is None:
        return
    key = None
    if cpp:
        got = replay(c, cl)
        if got is None or (len(got) == len(rep) and all(near(a, b) for a, b in zip(got, rep))):
            key = "cpp-representative-weight"
    expect(False, "C++ " * cpp + c["alg"] + ": " + bad, key)


def replay(c, cl):
    """the representatives with the weight of the C++ code for the allocation cl; None if the order of events cannot be told"""
    data, n = c["data"], len(c["data"])
    owner = {int(x): j for j, k in enumerate(cl) for x in k}
    first = {int(k[0]): j for j, k in enumerate(cl)}
    if c["alg"] == "ttsas":
        events = ttsas_order(c, cl)
        if events is None:
            return None
    elif c["alg"] == "mbsas":
        events = sorted(first) + [i for i in range(n) if i not in first]
    else:
        events = range(n)
    reps = []
    for i in events:
        if i in first:
            reps.append(list(data[i]))
        else:
            j = owner[i]
            reps[j] = [((len(reps) - 1) * x + y) / len(reps) for x, y in zip(reps[j], data[i])]
    return reps


def ttsas_order(c, cl):
    data, n = c["data"], len(c["data"])
    D = gen.metric(c["metric"], data)
    reps, got, left, events = [], [], list(range(n)), []
    changed = 0
    while left:
        if not changed:
            i = left.pop(0)
            reps.append(list(data[i]))
            got.append([i])
            events.append(i)
        changed = 0 if events and changed else changed
        before = len(left)
        for i in list(left):
            ds = [D(data[i], r) for r in reps]
            j = min(range(len(ds)), key=lambda q: ds[q])
            if ds[j] <= c["t1"]:
                got[j].append(i)
                reps[j] = [((len(reps) - 1) * x + y) / len(reps) for x, y in zip(reps[j], data[i])]
            elif ds[j] > c["t2"]:
                got.append([i])
                reps.append(list(data[i]))
            else:
                continue
            left.remove(i)
            events.append(i)
        changed = before - len(left)
    return events if [list(map(int, k)) for k in cl] == got else None


TARGETS = [Target(a, g(a), check) for a in ("bsas", "mbsas", "ttsas")]
