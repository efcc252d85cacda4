import copy
import numpy
from .base import Target, expect
from . import gen
from .oracle import partition, canon
from pyclustering.cluster.agglomerative import agglomerative, type_link
from pyclustering.cluster.rock import rock
from pyclustering.cluster.cure import cure
from pyclustering.cluster.birch import birch
from pyclustering.container.cftree import measurement_type

LINKS = ["SINGLE_LINK", "COMPLETE_LINK", "AVERAGE_LINK", "CENTROID_LINK"]


def sq(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def mean(ps):
    return [sum(p[d] for p in ps) / len(ps) for d in range(len(ps[0]))]


def link(kind, A, B):
    if kind == "CENTROID_LINK":
        return sq(mean(A), mean(B))
    ds = [sq(a, b) for a in A for b in B]
    return {"SINGLE_LINK": min, "COMPLETE_LINK": max, "AVERAGE_LINK": lambda v: sum(v) / len(v)}[kind](ds)


def g_agg(rng, i):
    data = gen.points(rng, i, nmax=11)
    return {"data": data, "k": rng.randint(1, len(data) + 1), "link": rng.choice(LINKS), "ccore": rng.random() < 0.5, "default": rng.random() < 0.1}


def check_agg(c):
    data = c["data"]
    n = len(data)
    given = copy.deepcopy(data)
    lk = None if c["default"] else getattr(type_link, c["link"])
    name = "CENTROID_LINK" if c["default"] else c["link"]

    def run(k):
        a = agglomerative(given, k, lk, c["ccore"])
        a.process()
        return [[int(x) for x in q] for q in a.get_clusters()]
    res = run(c["k"])
    expect(given == data, "the caller's data is changed")
    partition(res, n, "clusters", True)
    expect(len(res) == min(n, c["k"]), "%d clusters, %d requested of %d points" % (len(res), c["k"], n))
    cur = run(n)
    expect(canon(cur) == [[x] for x in range(n)], "one cluster per point: %s" % cur)
    for k in range(n - 1, c["k"] - 1, -1):
        nxt = run(k)
        partition(nxt, n, "clusters", True)
        expect(len(nxt) == k, "%d clusters, %d requested" % (len(nxt), k))
        a, b = {tuple(x) for x in canon(cur)}, {tuple(x) for x in canon(nxt)}
        gone, new = a - b, b - a
        expect(len(gone) == 2 and len(new) == 1, "from %d to %d clusters is not one merge: %s -> %s" % (k + 1, k, sorted(a), sorted(b)))
        P = {q: [data[x] for x in q] for q in a}
        x, y = gone
        d = link(name, P[x], P[y])
        qs = sorted(a)
        for p in range(len(qs)):
            for q in range(p + 1, len(qs)):
                e = link(name, P[qs[p]], P[qs[q]])
                expect(d <= e + 1e-9 * (1 + abs(e)), lambda: "%s merges %s and %s at %r, but %s and %s are at %r" % (name, x, y, d, qs[p], qs[q], e))
        cur = nxt
    return n > 1 and c["k"] < n


def g_rock(rng, i):
    data = gen.points(rng, i)
    d = sorted(sq(a, b) ** 0.5 for a in data for b in data)
    return {"data": data, "k": rng.randint(1, len(data) + 1), "eps": rng.choice([0.0, 1.0, 2.0, d[len(d) // 3] * 1.001, d[len(d) // 2] * 1.001, d[-1] * 1.01]), "threshold": rng.choice([0.0, 0.25, 0.5, 0.9]), "ccore": rng.random() < 0.5}


def check_rock(c):
    data = c["data"]
    n = len(data)
    a = rock(data, c["eps"], c["k"], c["threshold"], c["ccore"])
    a.process()
    cl = a.get_clusters()
    partition(cl, n, "clusters", True)
    expect(len(cl) >= min(c["k"], n), "%d clusters, %d requested of %d points" % (len(cl), c["k"], n))
    if len(cl) > c["k"]:
        for p in range(len(cl)):
            for q in range(p):
                for x in cl[p]:
                    for y in cl[q]:
                        expect(sq(data[int(x)], data[int(y)]) ** 0.5 > c["eps"] * (1 - 1e-12), "%d clusters remain though %d and %d are linked" % (len(cl), x, y))
    # clusters are connected by links
    for k in cl:
        seen, todo = {k[0]}, [k[0]]
        while todo:
            x = todo.pop()
            for y in k:
                if y not in seen and sq(data[int(x)], data[int(y)]) ** 0.5 <= c["eps"] * (1 + 1e-12):
                    seen.add(y)
                    todo.append(y)
        expect(len(seen) == len(k), "cluster %s is not connected by links" % list(k))
    return n > 1 and len(cl) < n


def g_cure(rng, i):
    data = gen.points(rng, i, nmax=16)
    if rng.random() < 0.5:                               # no ties
        data = [[x + rng.uniform(-1, 1) for x in p] for p in data]
    return {"data": data, "k": rng.randint(1, len(data) + 1), "rep": rng.randint(1, 6), "compression": rng.choice([0.0, 0.2, 0.5, 0.5, 0.9, 1.0]), "ccore": rng.random() < 0.5, "numpy": rng.random() < 0.2}


def cure_reference(data, k, rep, compression):
    """clusters by the definition; None when two choices are equally good up to rounding"""
    cur = [([i], [list(p)]) for i, p in enumerate(data)]
    while len(cur) > k:
        pairs = sorted((min(sq(p, q) for p in a[1] for q in b[1]), i, j) for i, a in enumerate(cur) for j, b in enumerate(cur) if i < j)
        if len(pairs) > 1 and pairs[1][0] - pairs[0][0] <= 1e-9 * (1 + pairs[1][0]):
            return None
        _, i, j = pairs[0]
        idx = cur[i][0] + cur[j][0]
        pts = [data[x] for x in idx]
        m = mean(pts)
        chosen = []
        for r in range(rep):
            ds = [sq(p, m) if r == 0 else min(sq(p, q) for q in chosen) for p in pts]
            top = sorted(ds)
            if len(top) > 1 and top[-1] - top[-2] <= 1e-9 * (1 + top[-1]) and not (r and top[-1] == 0):
                return None
            p = pts[ds.index(max(ds))]
            if p not in chosen:
                chosen.append(p)
        cur = [x for q, x in enumerate(cur) if q not in (i, j)] + [(idx, [[x + compression * (y - x) for x, y in zip(p, m)] for p in chosen])]
    return [x[0] for x in cur]


def check_cure(c):
    data = c["data"]
    n = len(data)
    given = numpy.array(data) if c["numpy"] else copy.deepcopy(data)
    a = cure(given, c["k"], c["rep"], c["compression"], c["ccore"])
    a.process()
    cl, reps, means = a.get_clusters(), a.get_representors(), a.get_means()
    partition(cl, n, "clusters", True)
    expect([list(map(float, p)) for p in given] == data, "the caller's data is changed")
    expect(len(cl) == min(c["k"], n), "%d clusters, %d requested of %d points" % (len(cl), c["k"], n))
    expect(len(reps) == len(cl) and len(means) == len(cl), "%d representors, %d means for %d clusters" % (len(reps), len(means), len(cl)))
    for k, r, m in zip(cl, reps, means):
        expect(1 <= len(r) <= c["rep"], "%d representors, at most %d asked" % (len(r), c["rep"]))
        want = mean([data[int(x)] for x in k])
        expect(all(gen.close(p, q, 1e-7) for p, q in zip(want, m)), lambda: "mean %s of cluster %s is %s" % (m, k, want))
    want = cure_reference(data, c["k"], c["rep"], c["compression"])
    expect(want is None or canon(cl) == canon(want), lambda: "clusters %s, merging the nearest clusters gives %s" % (canon(cl), canon(want)))
    return n > 1 and len(cl) < n


def g_birch(rng, i):
    data = gen.points(rng, i, nmax=30)
    return {"data": data, "k": rng.randint(1, min(6, len(data))), "branch": rng.randint(2, 6), "entries": rng.randint(1, 6), "diameter": rng.choice([0.0, 0.1, 0.5, 2.0]),
            "measure": rng.randint(0, 4), "limit": rng.choice([500, 500, 10, 5, 3]), "mult": rng.choice([1.5, 2.0])}


def check_birch(c):
    data = c["data"]
    n = len(data)
    given = copy.deepcopy(data)
    a = birch(given, c["k"], c["branch"], c["entries"], c["diameter"], list(measurement_type)[c["measure"]], c["limit"], c["mult"])
    a.process()
    cl = a.get_clusters()
    partition(cl, n, "clusters")
    expect(given == data, "the caller's data is changed")
    f = a.get_cf_entries()
    expect(len(cl) == min(c["k"], len(f)), "%d clusters, %d requested, %d entries" % (len(cl), c["k"], len(f)))
    expect(sum(e.number_points for e in f) == n, "the entries account for %d of %d points" % (sum(e.number_points for e in f), n))
    expect(len(f) <= max(c["limit"], 1), "%d entries, at most %d allowed" % (len(f), c["limit"]))
    partition(a.get_cf_cluster(), len(f), "entry clusters", True)
    return n > 1


TARGETS = [Target("agglomerative", g_agg, check_agg, 2), Target("rock", g_rock, check_rock), Target("cure", g_cure, check_cure, 2), Target("birch", g_birch, check_birch, 2)]
