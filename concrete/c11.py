import copy
import gc
import math
import numpy
from .base import Target, expect
from . import gen
from pyclustering.utils import metric as M
from pyclustering.utils.metric import distance_metric, type_metric
from pyclustering.core.metric_wrapper import metric_wrapper

NAMES = ["EUCLIDEAN_SQUARE", "EUCLIDEAN", "MANHATTAN", "CHEBYSHEV", "MINKOWSKI", "CANBERRA", "CHI_SQUARE", "GOWER"]
FUNCS = {"EUCLIDEAN_SQUARE": "euclidean_distance_square", "EUCLIDEAN": "euclidean_distance", "MANHATTAN": "manhattan_distance", "CHEBYSHEV": "chebyshev_distance",
         "MINKOWSKI": "minkowski_distance", "CANBERRA": "canberra_distance", "CHI_SQUARE": "chi_square_distance", "GOWER": "gower_distance"}


def value(rng):
    m = rng.randrange(7)
    if m == 0:
        return 0.0
    if m == 1:
        return float(rng.randint(-3, 3))
    if m == 2:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 6)
    if m == 3:
        return rng.randint(-4, 4)
    return rng.uniform(-10, 10)


def g(rng, i):
    d = rng.randint(1, 5)
    n = rng.randint(2, 5)
    pts = [[value(rng) for _ in range(d)] for _ in range(n)]
    if rng.random() < 0.3:
        pts[1] = list(pts[0])
    if rng.random() < 0.3:
        for k in range(d):
            if rng.random() < 0.5:
                pts[1][k] = pts[0][k]
    if rng.random() < 0.2:
        k = rng.randrange(d)
        for p in pts:
            p[k] = pts[0][k]
    return {"points": pts, "metric": rng.choice(NAMES), "degree": rng.choice([None, 1, 2, 3, 4, 5, 6, 1.5, 2.5]), "range": rng.random() < 0.5, "container": rng.choice(["list", "tuple", "numpy"])}


def definition(name, a, b, c):
    p = [(float(x), float(y)) for x, y in zip(a, b)]
    if name == "MINKOWSKI":
        k = 2 if c["degree"] is None else c["degree"]
        return math.fsum(abs(x - y) ** k for x, y in p) ** (1.0 / k)
    if name == "GOWER":
        data = c["points"]
        r = [max(q[i] for q in data) - min(q[i] for q in data) for i in range(len(data[0]))]
        return math.fsum(abs(x - y) / w for (x, y), w in zip(p, r) if w != 0) / len(p)
    return gen.dist(name, a, b)


def near(a, b):
    if isinstance(a, complex):
        return False
    a, b = float(a), float(b)
    return abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-12


def make(c, **kw):
    t = getattr(type_metric, c["metric"])
    if c["metric"] == "MINKOWSKI" and c["degree"] is not None:
        return distance_metric(t, degree=c["degree"], **kw)
    if c["metric"] == "GOWER":
        if c["range"]:
            d = c["points"]
            return distance_metric(t, max_range=numpy.max(numpy.array(d, dtype=float), axis=0) - numpy.min(numpy.array(d, dtype=float), axis=0), **kw)
        return distance_metric(t, data=copy.deepcopy(c["points"]), **kw)
    return distance_metric(t, **kw)


def extra(c):
    if c["metric"] == "MINKOWSKI":
        return [] if c["degree"] is None else [c["degree"]]
    if c["metric"] == "GOWER":
        d = numpy.array(c["points"], dtype=float)
        return [numpy.max(d, axis=0) - numpy.min(d, axis=0)]
    return []


def conv(c, p):
    return {"list": list, "tuple": tuple, "numpy": lambda q: numpy.array(q, dtype=float)}[c["container"]](p)


def agree(c, what, got, a, b, scalar=False):
    want = definition(c["metric"], a, b, c)
    if near(got, want):
        return
    key = None
    if scalar and c["metric"] == "MINKOWSKI":       # known finding: exactly the signed formula and nothing else
        k = 2 if c["degree"] is None else c["degree"]
        s = 0.0
        for x, y in zip(a, b):
            s += complex(float(x) - float(y)) ** k if isinstance(k, float) else (float(x) - float(y)) ** k
        s, raw = complex(s) ** (1.0 / k), complex(s)
        undefined = raw.real < 0 or abs(raw.imag) > 0 or (isinstance(k, float) and any(float(x) < float(y) for x, y in zip(a, b)))
        if (got != got and undefined) or abs(complex(got) - s) <= 1e-7 * (1 + abs(s)):
            key = "scalar-minkowski-signed"
    expect(False, "%s %s(%s, %s)%s = %r, the definition gives %r" % (what, c["metric"], a, b, " degree %s" % c["degree"] if c["metric"] == "MINKOWSKI" else "", got, want), key)


def pairs(c):
    p = c["points"]
    return [(p[0], p[1]), (p[1], p[0]), (p[0], p[0])] + ([(p[2], p[0])] if len(p) > 2 else [])


def unchanged(c, given):
    expect(all(list(map(float, x)) == list(map(float, y)) for x, y in zip(given, c["points"])), "the points are changed")


def check_scalar(c):
    m = make(c)
    f = getattr(M, FUNCS[c["metric"]])
    later = []
    for a, b in pairs(c):
        x, y = conv(c, a), conv(c, b)
        with numpy.errstate(all="ignore"):
            got = [m(x, y), f(x, y, *extra(c))]
        unchanged({"points": [a, b]}, [x, y])
        for w in zip(("distance_metric", "function"), got):
            later.append((w, a, b))
    for (what, got), a, b in later:
        agree(c, what, got, a, b, True)
    expect(m.get_type() == getattr(type_metric, c["metric"]), "type of the metric")
    return c["points"][0] != c["points"][1]


def check_numpy(c):
    if c["range"]:
        m = make(c, numpy_usage=True)
    else:
        m = make(c)
        m.enable_numpy_usage()
    f = getattr(M, FUNCS[c["metric"]] + "_numpy")
    arr = numpy.array(c["points"], dtype=float)
    before = arr.copy()
    for a, b in pairs(c):
        x, y = numpy.array(a, dtype=float), numpy.array(b, dtype=float)
        agree(c, "numpy distance_metric", m(x, y), a, b)
        agree(c, "numpy function", f(x, y, *extra(c)), a, b)
    q = numpy.array(c["points"][0], dtype=float)
    for what, r, pp in (("matrix-point", m(arr, q), [(p, c["points"][0]) for p in c["points"]]), ("point-matrix", m(q, arr), [(c["points"][0], p) for p in c["points"]]),
                        ("matrix-matrix", m(arr, arr[::-1].copy()), list(zip(c["points"], c["points"][::-1])))):
        expect(len(r) == len(arr), lambda: "%s distances have the shape %s for %d points" % (what, numpy.shape(r), len(arr)))
        for v, (a, b) in zip(r, pp):
            agree(c, "numpy " + what, v, a, b)
    expect(numpy.array_equal(arr, before), "the points are changed")
    m.disable_numpy_usage()
    if c["metric"] != "MINKOWSKI":
        for a, b in pairs(c):
            agree(c, "after disable_numpy_usage", m(a, b), a, b, True)
    return c["points"][0] != c["points"][1]


def check_cpp(c):
    w = metric_wrapper.create_instance(make(c))
    gc.collect()
    for a, b in pairs(c):
        agree(c, "C++", w(conv(c, a), conv(c, b)), a, b)
    return c["points"][0] != c["points"][1]


def check_user(c):
    calls = []

    def user(a, b):
        calls.append(([float(x) for x in a], [float(x) for x in b]))
        return sum(3 * float(x) - float(y) for x, y in zip(a, b))
    for kind in ("plain", "numpy", "cpp"):
        m = distance_metric(type_metric.USER_DEFINED, func=user)
        if kind == "numpy":
            m.enable_numpy_usage()
        w = metric_wrapper.create_instance(m) if kind == "cpp" else m
        gc.collect()
        for a, b in pairs(c):
            del calls[:]
            r = w(conv(c, a), conv(c, b))
            expect(calls == [([float(x) for x in a], [float(y) for y in b])], lambda: "%s: the user metric is called with %s for (%s, %s)" % (kind, calls, a, b))
            want = sum(3 * float(x) - float(y) for x, y in zip(a, b))
            expect(near(r, want), lambda: "%s: the user metric returns %r, the metric %r" % (kind, want, r))
    return True


TARGETS = [Target("metric.scalar", g, check_scalar, 2), Target("metric.numpy", g, check_numpy, 2), Target("metric.cpp", g, check_cpp, 2), Target("metric.user", g, check_user)]
