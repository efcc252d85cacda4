"""Case generators: small data sets with ties, duplicates, collinear points, outliers; centres; metrics."""
from pyclustering.utils.metric import distance_metric, type_metric


def points(rng, i=50, nmin=1, nmax=14, dmin=1, dmax=3, integer=None):
    n = rng.randint(nmin, max(nmin, min(nmax, nmin + 2 + i // 4)))
    d = rng.randint(dmin, dmax)
    mode = rng.choice(["grid", "grid", "blobs", "blobs", "float", "dup", "line", "big", "equal", "neg"])
    if integer is False and mode in ("grid", "dup", "line", "equal"):
        mode = "float"
    if mode == "grid":
        r = rng.choice([1, 2, 3, 5])
        return [[float(rng.randint(0, r)) for _ in range(d)] for _ in range(n)]
    if mode == "blobs":
        c = [[rng.uniform(-10, 10) for _ in range(d)] for _ in range(rng.randint(1, 4))]
        return [[x + rng.gauss(0, 0.5) for x in rng.choice(c)] for _ in range(n)]
    if mode == "float":
        return [[rng.uniform(-5, 5) for _ in range(d)] for _ in range(n)]
    if mode == "dup":
        b = [[float(rng.randint(-3, 3)) for _ in range(d)] for _ in range(max(1, n // 3))]
        return [list(rng.choice(b)) for _ in range(n)]
    if mode == "line":
        return [[float(k)] + [0.0] * (d - 1) for k in range(n)]
    if mode == "big":
        return [[rng.uniform(-1e4, 1e4) for _ in range(d)] for _ in range(n)]
    if mode == "equal":
        p = [float(rng.randint(0, 3)) for _ in range(d)]
        return [list(p) for _ in range(n)]
    return [[-float(rng.randint(0, 6)) / 2 for _ in range(d)] for _ in range(n)]


def centres(rng, data, k):
    """k centres: points of the data, near them, far away or equal"""
    mode = rng.choice(["data", "data", "near", "any", "far", "same"])
    d = len(data[0])
    if mode == "data" and k <= len(data):
        return [list(x) for x in rng.sample(data, k)]
    if mode == "near":
        return [[x + rng.uniform(-0.5, 0.5) for x in rng.choice(data)] for _ in range(k)]
    if mode == "same":
        p = list(rng.choice(data))
        return [list(p) for _ in range(k)]
    if mode == "far":
        return [[x + (100.0 if j % 2 else 0.0) for x in rng.choice(data)] for j in range(k)]
    return [[rng.uniform(-6, 6) for _ in range(d)] for _ in range(k)]


METRICS = ["EUCLIDEAN_SQUARE", "EUCLIDEAN", "MANHATTAN", "CHEBYSHEV", "MINKOWSKI", "CANBERRA", "CHI_SQUARE", "GOWER", "USER_DEFINED"]


def metric(name, data=None):
    """data: only for GOWER (ranges)"""
    t = getattr(type_metric, name)
    if name == "MINKOWSKI":
        return distance_metric(t, degree=4)
    if name == "GOWER":
        return distance_metric(t, data=data)
    if name == "USER_DEFINED":
        return distance_metric(t, func=user_metric)
    return distance_metric(t)


def user_metric(a, b):
    return sum(abs(x - y) for x, y in zip(a, b)) + max(abs(x - y) for x, y in zip(a, b))


def dist(name, a, b, data=None):
    """the definition of the metric, written independently of the library"""
    p = [(float(x), float(y)) for x, y in zip(a, b)]
    if name == "EUCLIDEAN_SQUARE":
        return sum((x - y) ** 2 for x, y in p)
    if name == "EUCLIDEAN":
        return sum((x - y) ** 2 for x, y in p) ** 0.5
    if name == "MANHATTAN":
        return sum(abs(x - y) for x, y in p)
    if name == "CHEBYSHEV":
        return max(abs(x - y) for x, y in p)
    if name == "MINKOWSKI":
        return sum(abs(x - y) ** 4 for x, y in p) ** 0.25
    if name == "CANBERRA":
        return sum(abs(x - y) / (abs(x) + abs(y)) for x, y in p if abs(x) + abs(y) != 0)
    if name == "CHI_SQUARE":
        return sum((x - y) ** 2 / (abs(x) + abs(y)) for x, y in p if abs(x) + abs(y) != 0)
    if name == "GOWER":
        rng = [max(q[i] for q in data) - min(q[i] for q in data) for i in range(len(data[0]))]
        return sum(abs(x - y) / r for (x, y), r in zip(p, rng) if r != 0) / len(p)
    if name == "USER_DEFINED":
        return user_metric(a, b)
    raise ValueError(name)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))
