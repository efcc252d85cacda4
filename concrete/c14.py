import copy
import random
import numpy
from .base import Target, expect
from . import gen
from .oracle import partition
from pyclustering.cluster.fcm import fcm
from pyclustering.cluster.ema import ema, ema_initializer, ema_init_type, ema_observer


def g_fcm(rng, i):
    data = gen.points(rng, i, nmax=12)
    k = rng.randint(1, 4)
    return {"data": data, "centers": gen.centres(rng, data, k), "m": rng.choice([2, 2.0, 1.2, 1.5, 3.0, 5]), "tol": rng.choice([0.001, 0.1, 1e-6]), "iter": rng.choice([1, 2, 5, 200]), "ccore": rng.random() < 0.5, "numpy": rng.random() < 0.3}


def coincident(row):
    """The row of the recorded finding: membership one in every centre equal to the point, and the
    usual memberships among the other centres."""
    rest = [x for x in row if x != 1.0]
    return len(rest) < len(row) and (not rest or abs(sum(rest) - 1) < 1e-6 or (len(row) - len(rest) > 1 and max(rest) < 1e-9))


def distribution(rows, what, known=None):
    for p, row in enumerate(rows):
        for x in row:
            expect(-1e-12 <= x <= 1 + 1e-9, lambda: "%s: point %d has the membership %r" % (what, p, x))
        s = sum(row)
        expect(abs(s - 1) < 1e-6, lambda: "%s: memberships of point %d sum to %r: %s" % (what, p, s, list(row)), known if known and coincident(row) else None)


def greatest(rows, clusters, what):
    for j, k in enumerate(clusters):
        for i in k:
            expect(rows[i][j] >= max(rows[i]) - 1e-9, lambda: "%s: point %d is in cluster %d, memberships %s" % (what, i, j, list(rows[i])))


def check_fcm(c):
    arg = (lambda x: numpy.array(x)) if c["numpy"] else copy.deepcopy
    data, cen = arg(c["data"]), arg(c["centers"])
    a = fcm(data, cen, m=c["m"], tolerance=c["tol"], itermax=c["iter"], ccore=c["ccore"])
    with numpy.errstate(all="ignore"):
        r = a.process()
    cl, u = a.get_clusters(), a.get_membership()
    n, k = len(c["data"]), len(c["centers"])
    expect(r is a and len(u) == n and all(len(x) == k for x in u), "membership has another shape than points x centres")
    distribution(u, "FCM", "cpp-fcm-coincident" if c["ccore"] else None)
    expect(len(cl) == k and len(a.get_centers()) == k, "%d clusters, %d centres given" % (len(cl), k))
    partition(cl, n)
    greatest(u, cl, "FCM")
    for j, z in enumerate(a.get_centers()):
        for d in range(len(z)):
            v = [p[d] for p in c["data"]]
            if sum(u[i][j] for i in range(n)) > 0:
                w = sum(u[i][j] * v[i] for i in range(n)) / sum(u[i][j] for i in range(n))
                expect(abs(w - z[d]) < 1e-6 * (1 + max(map(abs, v))), lambda: "FCM: centre %d is %s, the weighted mean is %r in coordinate %d" % (j, list(z), w, d))
    if c["iter"] == 1:
        for i, p in enumerate(c["data"]):
            d2 = [gen.dist("EUCLIDEAN_SQUARE", p, z) for z in c["centers"]]
            if min(d2) > 1e-9:
                e = 2.0 / (c["m"] - 1)
                try:
                    w = [1 / sum((x / y) ** e for y in d2) for x in d2]
                except OverflowError:
                    continue
                expect(all(abs(x - y) < 1e-6 for x, y in zip(w, u[i])), lambda: "FCM: memberships of point %d are %s, the formula gives %s" % (i, list(u[i]), w))
    return n > 1 and k > 1


def g_ema(rng, i):
    data = gen.points(rng, i, nmin=2, nmax=12)
    n = len(data)
    return {"data": data, "amount": rng.randint(1, min(4, n)), "init": rng.choice(["default", "default", "random", "kmeans", "own"]), "seed": rng.randint(0, 10 ** 6), "iter": rng.choice([1, 2, 5, 100]),
            "tol": rng.choice([1e-5, 1e-2]), "scale": rng.choice([0.01, 1.0, 10.0]), "observer": rng.random() < 0.3}


def check_ema(c):
    random.seed(c["seed"])
    numpy.random.seed(c["seed"])
    data, k = copy.deepcopy(c["data"]), c["amount"]
    means = var = None
    if c["init"] in ("random", "kmeans"):
        means, var = ema_initializer(data, k).initialize(ema_init_type.RANDOM_INITIALIZATION if c["init"] == "random" else ema_init_type.KMEANS_INITIALIZATION)
        k = len(means)
    elif c["init"] == "own":
        r = random.Random(c["seed"])
        means = gen.centres(r, data, k)
        var = [numpy.identity(len(data[0])) * c["scale"] for _ in range(k)]
    obs = ema_observer() if c["observer"] else None
    with numpy.errstate(all="ignore"):
        a = ema(data, k, means, var, observer=obs, tolerance=c["tol"], iterations=c["iter"])
        r = a.process()
    cl, rc = a.get_clusters(), a.get_probabilities()
    n = len(data)
    expect(r is a and len(rc) >= len(cl), "%d rows of responsibilities, %d clusters" % (len(rc), len(cl)))
    expect(all(len(x) == n for x in rc), "responsibilities have another amount than points")
    expect(len(cl) == len(rc) == len(a.get_centers()) == len(a.get_covariances()), lambda: "%d clusters, %d rows, %d means, %d covariances" % (len(cl), len(rc), len(a.get_centers()), len(a.get_covariances())))
    rows = [[rc[j][i] for j in range(len(rc))] for i in range(n)]
    distribution(rows, "EM")
    partition(cl, n)
    greatest(rows, cl, "EM")
    return n > 2 and len(cl) > 1


TARGETS = [Target("fcm", g_fcm, check_fcm), Target("ema", g_ema, check_ema)]
