import copy
import numpy
from .base import Target, expect
from . import gen
from .oracle import partition, labels
from pyclustering.cluster.clique import clique
from pyclustering.cluster.bang import bang


def grid_points(rng, i, k):
    """points on and near the borders of k equal intervals"""
    d = rng.randint(1, 2 if k > 6 else 3)
    lo, w = rng.choice([0.0, -1.0, -0.3, 0.1, -1000.1, rng.uniform(-3, 3)]), rng.choice([1.0, 0.6, 2.0, 0.7, rng.uniform(0.1, 9)])
    data = [[lo] * d, [lo + w] * d]
    for _ in range(rng.randint(1, 12)):
        p = []
        for _ in range(d):
            j = rng.randint(0, k)
            x = rng.choice([lo + w / k * j, lo + w * j / k, (lo + w / k * (j - 1)) + w / k, rng.uniform(lo, lo + w), 0.0 if lo <= 0 <= lo + w else lo])
            if rng.random() < 0.3:
                x = float(numpy.nextafter(x, rng.choice([-1e9, 1e9])))
            p.append(min(max(x, lo), lo + w))
        data.append(p)
    rng.shuffle(data)
    return data


def g_clique(rng, i):
    k = rng.choice([1, 2, 3, 5, rng.randint(1, 8)])
    data = grid_points(rng, i, k) if rng.random() < 0.6 else gen.points(rng, i, nmax=25)
    return {"data": data, "intervals": k, "threshold": rng.choice([0, 0, 1, 2, 4]), "ccore": rng.random() < 0.5, "numpy": rng.random() < 0.2}


def neighbours(a, b):
    return sum(abs(x - y) for x, y in zip(a, b)) == 1


def check_clique(c):
    data, n, k, t = c["data"], len(c["data"]), c["intervals"], c["threshold"]
    arg = numpy.array(data) if c["numpy"] and not c["ccore"] else copy.deepcopy(data)
    a = clique(arg, k, t, ccore=c["ccore"])
    r = a.process()
    expect(r is a, "process() returns another object")
    expect(numpy.array_equal(arg, data), "the data is changed")
    cl, noise, cells = a.get_clusters(), a.get_noise(), a.get_cells()
    partition(cl + [noise], n, "clusters and noise")
    expect(len(cells) == k ** len(data[0]), lambda: "%d cells" % len(cells))
    partition([x.points for x in cells], n, "cells")
    loc = [tuple(x.logical_location) for x in cells]
    expect(len(set(loc)) == len(loc) and all(0 <= v < k for x in loc for v in x), "locations of cells are not a grid")
    lo = [min(p[j] for p in data) for j in range(len(data[0]))]
    w = [(max(p[j] for p in data) - lo[j]) / k for j in range(len(data[0]))]
    for x, l in zip(cells, loc):
        for i in x.points:
            for j, v in enumerate(data[i]):
                e = 1e-9 * (1 + abs(lo[j]) + w[j] * k)
                expect(lo[j] + w[j] * l[j] - e <= v <= lo[j] + w[j] * (l[j] + 1) + e, lambda: "point %d is in cell %s" % (i, l))
    lab = labels(cl, n)
    own = {}
    for x, l in zip(cells, loc):
        if not len(x.points):
            continue
        g = {lab[i] for i in x.points}
        if len(x.points) > t:
            expect(len(g) == 1 and -1 not in g, lambda: "dense cell %s: clusters of its points %s" % (l, g))
            own[l] = next(iter(g))
        else:
            expect(g == {-1}, lambda: "sparse cell %s: clusters of its points %s" % (l, g))
    comp = {}
    for s in own:
        if s in comp:
            continue
        comp[s], todo = s, [s]
        while todo:
            u = todo.pop()
            for v in own:
                if v not in comp and neighbours(u, v):
                    comp[v] = s
                    todo.append(v)
    for u in own:
        for v in own:
            expect((own[u] == own[v]) == (comp[u] == comp[v]), lambda: "cells %s and %s: clusters %d and %d" % (u, v, own[u], own[v]))
    return n > 1 and k > 1


def g_bang(rng, i):
    lv = rng.choice([1, 2, 3, 5, rng.randint(1, 8)])
    data = grid_points(rng, i, 2 ** rng.randint(0, 3)) if rng.random() < 0.5 else gen.points(rng, i, nmax=25)
    return {"data": data, "levels": lv, "density": rng.choice([0.0, 0.0, 0.0, 0.5, 2.0]), "amount": rng.choice([0, 0, 1, 3]), "numpy": rng.random() < 0.2}


def check_bang(c):
    data, n = c["data"], len(c["data"])
    arg = numpy.array(data) if c["numpy"] else copy.deepcopy(data)
    a = bang(arg, c["levels"], density_threshold=c["density"], amount_threshold=c["amount"])
    r = a.process()
    expect(r is a, "process() returns another object")
    cl, noise = a.get_clusters(), a.get_noise()
    partition(cl + [noise], n, "clusters and noise")
    leafs = a.get_directory().get_leafs()
    partition([x.get_points() or [] for x in leafs], n, "leaves of the directory")
    lab = labels(cl, n)
    for b in leafs:
        pts = b.get_points() or []
        expect(len(b) == len(pts), "a leaf reports another number of points than it has")
        g = {lab[i] for i in pts}
        want = -1 if b.get_cluster() is None else b.get_cluster()
        expect(g <= {want}, lambda: "points of a leaf of cluster %s are in %s" % (b.get_cluster(), g))
        mx, mn = b.get_spatial_block().get_corners()
        for i in pts:
            expect(all(l <= x <= h for l, x, h in zip(mn, data[i], mx)), lambda: "point %d is outside of the leaf that reports it" % i)
    expect(len(a.get_dendrogram()) == len(cl), "dendrogram and clusters differ in length")
    for j, bs in enumerate(a.get_dendrogram()):
        expect(len(set(map(id, bs))) == len(bs), "a block is repeated in the dendrogram")
        expect(sorted(i for b in bs for i in (b.get_points() or [])) == sorted(cl[j]), lambda: "cluster %d has other points than its blocks" % j)
    return n > 1 and c["levels"] > 1


TARGETS = [Target("clique", g_clique, check_clique), Target("bang", g_bang, check_bang)]
