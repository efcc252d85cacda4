import copy
import numpy
from .base import Target, expect
from . import gen
from .cppdrv import Driver
from pyclustering.cluster.center_initializer import random_center_initializer, kmeans_plusplus_initializer
from pyclustering.cluster.kmedoids import build

DRV = Driver("init")
FAR = kmeans_plusplus_initializer.FARTHEST_CENTER_CANDIDATE


def g(rng, i):
    data = gen.points(rng, i, nmax=12)
    n = len(data)
    return {"data": data, "amount": rng.choice([1, n, rng.randint(1, n), rng.randint(1, n)]), "candidates": rng.choice([None, "far", 1, rng.randint(1, n)]), "seed": rng.randint(1, 10 ** 6),
            "metric": rng.choice([x for x in gen.METRICS if x != "USER_DEFINED"]), "container": rng.choice(["list", "numpy"]), "matrix": rng.random() < 0.3, "again": rng.random() < 0.4,
            "bad": rng.choice([0, -1, n + 1, n + 5]), "subset": rng.random() < 0.5}


def arg(c, x):
    return numpy.array(x) if c["container"] == "numpy" else copy.deepcopy(x)


def points_of(c, got, what, data=None):
    """every centre is a point of the data, no point more often than it occurs"""
    data = [list(map(float, p)) for p in (data or c["data"])]
    expect(len(got) == c["amount"], lambda: "%s: %d centres, %d requested" % (what, len(got), c["amount"]))
    pool = copy.deepcopy(data)
    for p in got:
        p = [float(x) for x in p]
        expect(p in data, lambda: "%s: centre %s is not a point of the data" % (what, p))
        expect(p in pool, lambda: "%s: point %s is returned more often than it occurs: %s" % (what, p, [list(map(float, q)) for q in got]))
        pool.remove(p)


def indexes_of(c, got, what):
    n = len(c["data"])
    expect(len(got) == c["amount"], lambda: "%s: %d indices, %d requested" % (what, len(got), c["amount"]))
    expect(all(0 <= int(x) < n and int(x) == x for x in got), lambda: "%s: indices %s, %d points" % (what, list(got), n))
    expect(len(set(map(int, got))) == len(got), lambda: "%s: indices are not different: %s" % (what, list(got)))


def rejects(f, what):
    try:
        f()
    except ValueError:
        return
    expect(False, what + " is not rejected")


def check_random(c):
    data = arg(c, c["data"])
    mk = lambda: random_center_initializer(data, c["amount"], random_state=c["seed"])
    points_of(c, mk().initialize(), "random")
    x = mk()
    points_of(c, x.initialize(return_index=False), "random")
    if c["again"]:
        for _ in range(3):
            points_of(c, x.initialize(), "random, used again")
            indexes_of(c, x.initialize(return_index=True), "random, used again")
    indexes_of(c, mk().initialize(return_index=True), "random")
    rejects(lambda: random_center_initializer(data, c["bad"]), "random: amount %d of %d points" % (c["bad"], len(c["data"])))
    expect([list(map(float, p)) for p in data] == c["data"], "the data is changed")
    return len(c["data"]) > 1


def check_plus(c):
    data = arg(c, c["data"])
    n = len(c["data"])
    cand = FAR if c["candidates"] == "far" else c["candidates"]
    kw = {"random_state": c["seed"]}
    if c["metric"] != "EUCLIDEAN_SQUARE":
        kw["metric"] = gen.metric(c["metric"], c["data"])
    mk = lambda d=data, **k: kmeans_plusplus_initializer(d, c["amount"], cand, **dict(kw, **k))
    with numpy.errstate(all="ignore"):
        idx = mk().initialize(return_index=True)
        indexes_of(c, idx, "K-Means++")
        points_of(c, mk().initialize(), "K-Means++")
        x = mk()
        points_of(c, x.initialize(return_index=False), "K-Means++")
        if c["again"]:
            indexes_of(c, x.initialize(return_index=True), "K-Means++, used again")
            points_of(c, x.initialize(), "K-Means++, used again")
        if c["matrix"]:
            d = [[gen.dist(c["metric"], a, b, c["data"]) for b in c["data"]] for a in c["data"]]
            y = mk(arg(c, d), data_type="distance_matrix")
            idx = y.initialize()
            indexes_of(c, idx, "K-Means++ with distance matrix")
            indexes_of(c, mk(arg(c, d), data_type="distance_matrix").initialize(return_index=True), "K-Means++ with distance matrix")
            rejects(lambda: mk(arg(c, d), data_type="distance_matrix").initialize(return_index=False), "K-Means++ points of a distance matrix")
    D = [[gen.dist(c["metric"], a, b, c["data"]) for b in c["data"]] for a in c["data"]]
    for k in range(1, len(idx)):
        best = [min(D[i][j] for j in idx[:k]) for i in range(n)]
        if cand == FAR:
            expect(best[idx[k]] >= max(best) - 1e-9 * (1 + max(best)), lambda: "K-Means++: centre %d of %s is not the farthest from the previous ones" % (k, idx))
        else:
            expect(best[idx[k]] > 0 or max(best) <= 1e-9, lambda: "K-Means++: centre %d of %s equals a previous one though other points differ" % (k, list(idx)))
    rejects(lambda: kmeans_plusplus_initializer(data, c["bad"], None), "K-Means++: amount %d of %d points" % (c["bad"], n))
    expect([list(map(float, p)) for p in data] == c["data"], "the data is changed")
    return n > 1


def fmt(data):
    return "%d %d " % (len(data), len(data[0])) + " ".join(repr(float(x)) for p in data for x in p)


def parse(s):
    return [list(map(float, p.split())) for p in s.split(";") if p.strip()]


def check_cpp(c):
    n = len(c["data"])
    cand = -1 if c["candidates"] == "far" else 3 if c["candidates"] is None else c["candidates"]
    sub = []
    if c["subset"] and c["amount"] < n:
        order = sorted(range(n), key=lambda k: (k * 7919 + c["seed"]) % 101)
        sub = order[:max(c["amount"], n - 2)]
    r = DRV.ask("K %d %d %d %s %d %s" % (c["amount"], cand, c["seed"], fmt(c["data"]), len(sub), " ".join(map(str, sub))))
    expect(r != "EXCEPTION", "C++ K-Means++ throws an exception")
    a, b, idx = r.split("\t")
    for x in (a, b):
        points_of(c, parse(x), "C++ K-Means++" + " on the points %s" % sub * bool(sub), [c["data"][k] for k in sub] if sub else None)
    indexes_of(c, list(map(int, idx.split())), "C++ K-Means++")
    r = DRV.ask("R %d %d %d %s 0" % (c["amount"], cand, c["seed"], fmt(c["data"])))
    for x in r.split("\t"):
        points_of(c, parse(x), "C++ random")
    return n > 1


def check_build(c):
    n = len(c["data"])
    D = [[gen.dist(c["metric"], a, b, c["data"]) for b in c["data"]] for a in c["data"]]
    for cc in (False, True):
        for mtx in ((False, True) if c["matrix"] else (False,)):
            kw = {"data_type": "distance_matrix"} if mtx else {}
            b = build(arg(c, D if mtx else c["data"]), c["amount"], cc, metric=gen.metric(c["metric"], c["data"]), **kw)
            with numpy.errstate(all="ignore"):
                m = b.initialize()
                expect([int(x) for x in b.initialize()] == [int(x) for x in m], "BUILD returns something else when used again")
            what = "BUILD (%s)" % ("C++" if cc else "Python")
            indexes_of(c, m, what)
            for k in range(len(m)):
                cost = lambda s: sum(min(D[i][j] for j in s) for i in range(n))
                now = cost(m[:k + 1])
                best = min(cost(list(m[:k]) + [x]) for x in range(n) if x not in m[:k])
                expect(now <= best + 1e-9 * (1 + best), lambda: "%s: medoid %d of %s gives the total distance %r, possible is %r" % (what, k, list(m), now, best))
            rejects(lambda: build(c["data"], c["bad"], cc), "%s: amount %d of %d points" % (what, c["bad"], n))
    return n > 1


TARGETS = [Target("init.random", g, check_random), Target("init.kmeans++", g, check_plus), Target("init.cpp", g, check_cpp), Target("init.build", g, check_build)]
