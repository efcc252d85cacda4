import math
from .base import Target, expect
from . import gen, centre


def D(c, a, b):
    m = c.get("metric", "EUCLIDEAN_SQUARE")
    return gen.dist(m, a, b, c["data"])


def leq(a, b):
    return a <= b + 1e-9 * (1 + abs(a) + abs(b)) + 1e-7 * min(abs(a), abs(b))


def nearest(c, clusters, centers, what, exact=False):
    """an increasing assignment cluster -> centre exists such that every point is with a nearest centre"""
    n = len(c["data"])
    last = -1
    for j, cl in enumerate(clusters):
        if not len(cl):
            continue
        cand = None
        for q in range(last + 1, len(centers)) if not exact else [j]:
            if all(leq(D(c, c["data"][int(x)], centers[q]), min(D(c, c["data"][int(x)], z) for z in centers)) for x in cl):
                cand = q
                break
        expect(cand is not None, lambda: "%s: points of cluster %d %s are not nearest to its centre; clusters %s centres %s" % (what, j, list(cl), clusters, centers))
        last = cand


def g_predict(alg, g):
    def f(rng, i):
        c = g(rng, i)
        if c["alg"] == "kmedoids":
            c["matrix"] = False
        data = c["data"]
        d = len(data[0])
        q = [list(rng.choice(data)) for _ in range(rng.randint(1, 3))] + [[rng.uniform(-8, 8) for _ in range(d)] for _ in range(rng.randint(0, 3))] + \
            [[x + rng.choice([0.0, 0.5, -0.5]) for x in rng.choice(data)] for _ in range(rng.randint(0, 3))]
        c["query"] = q
        return c
    return f


def check(c):
    r = centre.run(c)
    a = c["alg"]
    data = c["data"]
    centers = [data[i] for i in r["medoids"]] if "medoids" in r else [list(map(float, x)) for x in r["centers"]]
    if "query" in c:
        lab = r["model"].predict(c["query"])
        expect(len(lab) == len(c["query"]), "predict returns %d labels for %d points" % (len(lab), len(c["query"])))
        for p, l in zip(c["query"], lab):
            expect(0 <= l < len(centers), "predicted label %s of %d" % (l, len(centers)))
            best = min(D(c, p, z) for z in centers)
            expect(leq(D(c, p, centers[int(l)]), best), lambda: "predict(%s) = %d at distance %r, nearest is at %r (centres %s)" % (p, l, D(c, p, centers[int(l)]), best, centers))
    if a in ("kmedoids", "clarans"):
        nearest(c, r["clusters"], centers, a, exact=False)
    if "wce" in r and r["clusters"]:
        expect(len(centers) == len(r["clusters"]), "%d centres for %d clusters" % (len(centers), len(r["clusters"])))
        s = sum(D(c, data[int(x)], centers[j]) for j, cl in enumerate(r["clusters"]) for x in cl)
        expect(gen.close(s, r["wce"], 1e-7), "total wce %r, the clusters have %r" % (r["wce"], s))
    if a in ("kmeans", "kmedians"):
        if c["itermax"] == 1:
            nearest(c, r["clusters"], c["centers"], "first assignment")
        else:
            c1 = dict(c, itermax=c["itermax"] - 1, observer=False) if c["itermax"] < 4 else None
            if c1:
                q = centre.run(c1)
                if [list(x) for x in q["clusters"]] != [list(x) for x in r["clusters"]]:
                    nearest(c, r["clusters"], [list(x) for x in q["centers"]], "assignment %d" % c["itermax"])
        if r.get("observer") is not None:
            o = r["observer"]
            for t in range(1, len(o)):
                nearest(c, o.get_clusters(t), [list(x) for x in o.get_centers(t - 1)], "observed assignment %d" % t)
    return len(centers) > 1


def g_it(g):
    def f(rng, i):
        c = g(rng, i)
        c["itermax"] = rng.choice([1, 1, 2, 3, 100])
        return c
    return f


K, M = centre.g_centre("kmeans"), centre.g_centre("kmedians")
TARGETS = [Target("kmeans", g_it(K), check, 2), Target("kmedians", g_it(M), check, 2), Target("kmedoids", centre.g_kmedoids, check, 2), Target("clarans", centre.g_clarans, check),
           Target("kmeans-predict", g_predict("kmeans", K), check), Target("kmedians-predict", g_predict("kmedians", M), check), Target("kmedoids-predict", g_predict("kmedoids", centre.g_kmedoids), check),
           Target("xmeans", g_predict("xmeans", centre.g_xmeans), check, 2), Target("gmeans", g_predict("gmeans", centre.g_gmeans), check, 2)]
