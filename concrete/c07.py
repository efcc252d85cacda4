import copy
import math
from .base import Target, expect
from . import gen
from .c06 import gen_input, sq
from .oracle import partition
from pyclustering.cluster.optics import optics, ordering_analyser


def g(rng, i):
    c = gen_input(rng, i)
    c["minpts"] = rng.choice([1, 1, 2, 2, 3, 4])
    c["amount"] = rng.choice([None, None, 1, 2, 3, 4])
    return c


def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def check(c):
    n = len(c["data"])
    given = copy.deepcopy(c["data"])
    a = optics(given, c["eps"], c["minpts"], c["amount"], c["ccore"], data_type="distance_matrix" if c["matrix"] else "points")
    a.process()
    expect(given == c["data"], "the caller's data is changed")
    cl, noise, order, objs, r = a.get_clusters(), a.get_noise(), a.get_ordering(), a.get_optics_objects(), a.get_radius()
    partition(list(cl) + [noise], n, "clusters and noise")
    expect(all(len(k) for k in cl), "an empty cluster")
    expect(sorted(o.index_object for o in objs) == list(range(n)), "optics objects %s" % [o.index_object for o in objs])
    O = {o.index_object: o for o in objs}
    D = (lambda i, j: c["data"][i][j]) if c["matrix"] else (lambda i, j: math.sqrt(sq(c["data"][i], c["data"][j])))
    if c["amount"] is None or r == c["eps"]:
        expect(r == c["eps"], "radius %r is reported, %r was given" % (r, c["eps"]))
        want = sorted(O[int(x)].reachability_distance for k in cl for x in k if O[int(x)].reachability_distance is not None)
        expect(len(want) == len(order) and all(close(x, y) for x, y in zip(want, sorted(order))), lambda: "ordering %s, reachability distances %s" % (order, want))
        # order of the database: within each cluster the order of processing
        flat = [O[int(x)].reachability_distance for k in cl for x in k if O[int(x)].reachability_distance is not None]
        expect(all(close(x, y) for x, y in zip(flat, order)), "the ordering is not that of the clusters")
    else:
        expect(0 <= r <= c["eps"] * (1 + 1e-12), "the adjusted radius %r exceeds %r" % (r, c["eps"]))
    for i in range(n):
        ds = sorted(D(i, j) for j in range(n) if j != i)
        inside = [d for d in ds if d <= r]
        amb = any(abs(d - r) <= 1e-9 * (1 + r) and (not c["matrix"]) for d in ds) and r != c["eps"]
        cd = O[i].core_distance
        if amb:
            continue
        if len(inside) < c["minpts"]:
            expect(cd is None, lambda: "object %d has %d neighbours within %r, core distance %r" % (i, len(inside), r, cd))
        else:
            expect(cd is not None and close(cd, inside[c["minpts"] - 1]), lambda: "core distance %r of object %d, neighbour %d is at %r" % (cd, i, c["minpts"], inside[c["minpts"] - 1]))
    for i in range(n):
        rd = O[i].reachability_distance
        if rd is not None:
            # the reachability from some core object
            cand = [max(O[j].core_distance, D(j, i)) for j in range(n) if j != i and O[j].core_distance is not None and D(j, i) <= r * (1 + 1e-9)]
            expect(any(close(rd, x) for x in cand), lambda: "reachability %r of object %d, candidates %s" % (rd, i, cand))
    for k in cl:
        f = O[int(k[0])]
        expect(f.core_distance is not None, "cluster %s starts with an object that is not core" % list(k))
        # replay of the processing order: each next object has the least reachability from those already processed
        done = [int(k[0])]
        rest = {int(x) for x in k[1:]}
        for x in k[1:]:
            x = int(x)
            best = {}
            for y in rest:
                v = [max(O[j].core_distance, D(j, y)) for j in done if O[j].core_distance is not None and D(j, y) <= r * (1 + 1e-9)]
                if v:
                    best[y] = min(v)
            expect(x in best, lambda: "object %d of cluster %s is not reachable from the objects before it" % (x, list(k)))
            expect(close(best[x], O[x].reachability_distance), lambda: "reachability of object %d is %r, from the objects before it %r" % (x, O[x].reachability_distance, best[x]))
            expect(best[x] <= min(best.values()) * (1 + 1e-9) + 1e-12, lambda: "object %d is processed at %r before one at %r" % (x, best[x], min(best.values())))
            rest.discard(x)
            done.append(x)
    for x in noise:
        x = int(x)
        # (a border object processed before every core object near it stays noise: inherent to the order of processing)
        expect(O[x].core_distance is None and O[x].reachability_distance is None, "noise object %d has core distance %r, reachability %r" % (x, O[x].core_distance, O[x].reachability_distance))
    return len(cl) > 0 and n > 2


def g_ord(rng, i):
    return {"ordering": [float(rng.randint(0, 5)) for _ in range(rng.randint(1, 12))], "amount": rng.randint(1, 5)}


def check_ord(c):
    o = ordering_analyser(list(c["ordering"]))
    expect(len(o) == len(c["ordering"]) and o.cluster_ordering == c["ordering"], "the ordering is changed")
    r, b = o.calculate_connvectivity_radius(c["amount"])
    if r is not None:
        k, b2 = o.extract_cluster_amount(r)
        expect(k == c["amount"], "radius %r gives %d clusters, asked for %d" % (r, k, c["amount"]))
        expect(0 <= r <= max(c["ordering"]), "radius %r outside the ordering" % r)
        expect(sorted(set(b)) == b and all(0 < x < len(c["ordering"]) for x in b), "borders %s" % b)
    return r is not None


TARGETS = [Target("optics", g, check, 4), Target("ordering_analyser", g_ord, check_ord)]
