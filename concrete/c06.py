import copy
import pickle
from .base import Target, expect
from . import gen
from .oracle import partition
from pyclustering.cluster.dbscan import dbscan


def sq(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def near(c, i, j):
    if c["matrix"]:
        return c["data"][i][j] <= c["eps"]
    return sq(c["data"][i], c["data"][j]) <= c["eps"] ** 2


def gen_input(rng, i):
    """points or a symmetric distance matrix, and a radius at which no comparison depends on rounding"""
    data = gen.points(rng, i, nmax=18)
    n = len(data)
    ds = sorted({sq(a, b) for a in data for b in data})
    matrix = rng.random() < 0.35
    mode = rng.choice(["exact", "between", "between", "between"])
    if mode == "exact" and not any(abs(d ** 0.5 - k / 2) < 1e-9 and d != (k / 2) ** 2 for d in ds for k in range(40)):
        eps = rng.choice([0.0, 0.5, 1.0, 1.5, 2.0, 3.0])
    else:
        k = rng.randrange(len(ds))
        eps = (ds[k] ** 0.5 + (ds[k + 1] ** 0.5 if k + 1 < len(ds) else ds[k] ** 0.5 + 1)) / 2
    if any(abs(d - eps * eps) < 1e-9 * (d + 1e-3) and d != eps * eps for d in ds):
        eps = eps * 1.01 + 0.0137
    if matrix:
        data = [[sq(a, b) ** 0.5 for b in data] for a in data]
        if rng.random() < 0.3:
            m = [[float(rng.randint(1, 6)) for _ in range(n)] for _ in range(n)]
            data = [[0.0 if a == b else m[min(a, b)][max(a, b)] for b in range(n)] for a in range(n)]
            eps = float(rng.randint(0, 6))
    return {"data": data, "eps": eps, "matrix": matrix, "ccore": rng.random() < 0.5}


def g(rng, i):
    c = gen_input(rng, i)
    c["minpts"] = rng.choice([1, 1, 2, 2, 3, 4, 5, 0])
    c["pickle"] = rng.random() < 0.05
    return c


def check(c):
    n = len(c["data"])
    given = copy.deepcopy(c["data"])
    a = dbscan(given, c["eps"], c["minpts"], c["ccore"], data_type="distance_matrix" if c["matrix"] else "points")
    a.process()
    expect(given == c["data"], "the caller's data is changed")
    cl, noise = a.get_clusters(), a.get_noise()
    if c["pickle"]:
        b = pickle.loads(pickle.dumps(a))
        expect(b.get_clusters() == cl and b.get_noise() == noise, "clusters differ after pickling")
    partition(list(cl) + [noise], n, "clusters and noise")
    expect(all(len(k) for k in cl), "an empty cluster")
    N = [[j for j in range(n) if j != i and near(c, i, j)] for i in range(n)]
    core = [len(N[i]) >= c["minpts"] for i in range(n)]
    where = {int(x): -1 for x in noise}
    for j, k in enumerate(cl):
        expect(any(core[int(x)] for x in k), lambda: "cluster %s has no core object" % list(k))
        for x in k:
            where[int(x)] = j
        # density connected
        seeds = [int(x) for x in k if core[int(x)]]
        seen, todo = {seeds[0]}, [seeds[0]]
        while todo:
            x = todo.pop()
            for y in N[x]:
                if y not in seen and where.get(y, j) == j:
                    seen.add(y)
                    if core[y]:
                        todo.append(y)
        expect(all(int(x) in seen for x in k), lambda: "cluster %s is not density-connected, reached %s" % (list(k), sorted(seen)))
    for i in range(n):
        if core[i]:
            expect(where[i] >= 0, "core object %d is noise" % i)
            for j in N[i]:
                expect(where[j] >= 0, "point %d is noise, it is within the radius of core object %d" % (j, i))
                if core[j]:
                    expect(where[i] == where[j], "core objects %d and %d within the radius are in clusters %d and %d" % (i, j, where[i], where[j]))
        elif not any(core[j] for j in range(n) if near(c, j, i)):
            expect(where[i] == -1, "point %d is within the radius of no core object but is in cluster %d" % (i, where[i]))
    return 0 < len(noise) < n or len(cl) > 1


TARGETS = [Target("dbscan", g, check)]
