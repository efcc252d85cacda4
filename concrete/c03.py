from .base import Target, expect
from . import gen, centre
from .c02 import D


def check(c):
    r = centre.run(c)
    a, data = c["alg"], c["data"]
    if a in ("kmeans", "kmedians"):
        hist = [(r["clusters"], r["centers"])]
        if r.get("observer") is not None:
            o = r["observer"]
            hist += [(o.get_clusters(t), o.get_centers(t)) for t in range(1, len(o))]
        for clusters, centers in hist:
            expect(len(clusters) == len(centers), "%d clusters, %d centres" % (len(clusters), len(centers)))
            for cl, ce in zip(clusters, centers):
                for d in range(len(data[0])):
                    v = [data[int(x)][d] for x in cl]
                    if a == "kmeans":
                        m = sum(v) / len(v)
                        expect(abs(m - ce[d]) <= 1e-9 * (1 + max(map(abs, v))), lambda: "centre %s of cluster %s: mean of coordinate %d is %r" % (list(ce), list(cl), d, m))
                    else:
                        t = 1e-9 * (1 + max(map(abs, v)))
                        lo, hi = sum(x < ce[d] - t for x in v), sum(x > ce[d] + t for x in v)
                        expect(2 * lo <= len(v) and 2 * hi <= len(v), lambda: "median %s of cluster %s: coordinate %d of the points is %s" % (list(ce), list(cl), d, sorted(v)))
    else:
        med = [int(x) for x in r["medoids"]]
        expect(all(0 <= x < len(data) for x in med), "medoids %s of %d points" % (med, len(data)))
        expect(len(set(med)) == len(med), "medoids are not distinct: %s" % med)
        if a == "clarans":
            expect(len(med) == c["k"], "%d medoids, %d requested" % (len(med), c["k"]))
        else:
            expect(len(med) <= len(c["medoids"]), "%d medoids from %d" % (len(med), len(c["medoids"])))
            expect(len(med) == len(r["clusters"]), "%d medoids, %d clusters" % (len(med), len(r["clusters"])))
            s = sum(D(c, data[int(x)], data[med[j]]) for j, cl in enumerate(r["clusters"]) for x in cl)
            expect(gen.close(s, r["deviation"], 1e-7), "total deviation %r, the clusters have %r" % (r["deviation"], s))
    return len(data) > 1


def g(alg):
    base = centre.g_centre(alg)

    def f(rng, i):
        c = base(rng, i)
        c["itermax"] = rng.choice([1, 1, 2, 100])
        return c
    return f


TARGETS = [Target("kmeans", g("kmeans"), check, 2), Target("kmedians", g("kmedians"), check, 2), Target("kmedoids", centre.g_kmedoids, check, 2), Target("clarans", centre.g_clarans, check)]
