import copy
import ctypes
import fcntl
import json
import os
import numpy
from .base import Target, expect
from . import gen
from .oracle import canon
from vc import build
import pyclustering
from pyclustering.core.pyclustering_package import package_builder, package_extractor, pyclustering_package
from pyclustering.core.metric_wrapper import metric_wrapper
from pyclustering.utils.metric import distance_metric, type_metric
from pyclustering.cluster.agglomerative import agglomerative, type_link
from pyclustering.cluster.clique import clique
from pyclustering.cluster.cure import cure
from pyclustering.cluster.dbscan import dbscan
from pyclustering.cluster.fcm import fcm
from pyclustering.cluster.kmeans import kmeans
from pyclustering.cluster.kmedians import kmedians
from pyclustering.cluster.kmedoids import kmedoids
from pyclustering.cluster.optics import optics
from pyclustering.cluster.rock import rock
from pyclustering.cluster.silhouette import silhouette

LIB = []
TYPES = {"i": ctypes.c_int, "u": ctypes.c_uint, "f": ctypes.c_float, "d": ctypes.c_double, "l": ctypes.c_long, "z": ctypes.c_size_t}


def lib():
    if not LIB:
        scratch = os.path.dirname(os.path.dirname(os.path.abspath(pyclustering.__file__)))
        with open(os.path.join(scratch, "drv.lock"), "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            so = build.driver(scratch, os.path.join(os.path.dirname(os.path.abspath(__file__)), "drivers", "echo.cpp"), "echo", True)
        x = ctypes.CDLL(so)
        P = ctypes.POINTER(pyclustering_package)
        x.echo.restype = x.filled.restype = x.message.restype = P
        x.echo.argtypes = [P, ctypes.c_char, ctypes.c_int, ctypes.c_int]
        x.element.restype = ctypes.c_double
        x.element.argtypes = [P, ctypes.c_char, ctypes.c_int, ctypes.c_size_t, ctypes.c_size_t]
        x.filled.argtypes = [ctypes.c_char, ctypes.c_size_t, ctypes.c_double]
        x.message.argtypes = [ctypes.c_char_p]
        x.described.restype = ctypes.c_char_p
        x.release.argtypes = [P]
        x.release.restype = None
        LIB.append(x)
    return LIB[0]


def value(rng, t):
    if t in "df":
        x = rng.choice([0.0, -0.0, 1.0, -1.5, rng.uniform(-9, 9), 1e300 if t == "d" else 1e30, 5e-324 if t == "d" else 1e-30, rng.gauss(0, 1e6), float(rng.randint(-9, 9))])
        return float(numpy.float32(x)) if t == "f" else x
    lo, hi = {"i": (-2 ** 31, 2 ** 31 - 1), "u": (0, 2 ** 32 - 1), "l": (-2 ** 63, 2 ** 63 - 1), "z": (0, 2 ** 64 - 1)}[t]
    return rng.choice([lo, hi, 0, 1, rng.randint(max(lo, -9), 9), rng.randint(lo, hi)])


def g_package(rng, i):
    auto = rng.random() < 0.25
    t = rng.choice("dl") if auto else rng.choice("iufddlz")
    dim = rng.choice([1, 2])
    n = rng.choice([0, 1, 2, rng.randint(0, 9), rng.randint(0, 40)])
    if dim == 1:
        v = [value(rng, t) for _ in range(n)]
    else:
        same = rng.choice([None, 1, 2, rng.randint(1, 5)])
        v = [[value(rng, t) for _ in range(rng.randint(0, 4) if same is None else same)] for _ in range(n)]
        if auto:
            v = [r or [value(rng, t)] for r in v]
    form = rng.choice(["list", "list", "list", "tuple", "numpy", "rows", "matrix"])
    if dim == 2 and (n == 0 or len({len(r) for r in v}) > 1) and form in ("numpy", "matrix"):
        form = "list"
    if form == "matrix" and (dim == 1 or auto or n == 0):
        form = "list"
    if auto and t == "l" and form in ("numpy", "rows"):
        form = "list"                    # integers of numpy are rejected without an explicit type
    return {"type": t, "auto": auto, "dim": dim, "values": v, "form": form, "back": rng.randint(0, 2)}


NP = {"i": numpy.int32, "u": numpy.uint32, "f": numpy.float32, "d": numpy.float64, "l": numpy.int64, "z": numpy.uint64}


def shaped(c):
    v, np = c["values"], NP[c["type"]]
    if c["form"] == "tuple":
        return tuple(tuple(r) for r in v) if c["dim"] == 2 else tuple(v)
    if c["form"] == "numpy":
        return numpy.array(v, dtype=np)
    if c["form"] == "rows":
        return [numpy.array(r, dtype=np) for r in v] if c["dim"] == 2 else numpy.array(v, dtype=np)
    if c["form"] == "matrix":
        return numpy.matrix(v, dtype=np)
    return copy.deepcopy(v)


def same(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and numpy.signbit(a) == numpy.signbit(b) if isinstance(b, float) else a == b


def check_package(c):
    v = c["values"]
    arg = shaped(c)
    keep = copy.deepcopy(arg)
    p = package_builder(arg, None if c["auto"] else TYPES[c["type"]]).create()
    got = package_extractor(p).extract()
    expect(same(got, v), lambda: "Python packing and unpacking of %r gives %r" % (v, got))
    expect(type(arg) is type(keep) and (numpy.array_equal(arg, keep) if c["form"] in ("numpy", "matrix") else all(numpy.array_equal(x, y) for x, y in zip(arg, keep))), "the packed list is changed")
    if c["dim"] == 2 and not v:
        return False                     # an empty list does not tell that it is a list of lists
    t = c["type"].encode()
    q = lib().echo(p, t, c["dim"], c["back"])
    there = json.loads(lib().described().decode().replace(",]", "]"), parse_int=float if c["type"] in "df" else int)
    expect(same(there, v), lambda: "%r arrives in C++ as %r" % (v, there))
    back = package_extractor(q).extract()
    lib().release(q)
    expect(same(back, v), lambda: "%r comes back from C++ as %r" % (v, back))
    for i, r in enumerate(v):
        if c["dim"] == 1:
            expect(lib().element(p, t, 1, i, 0) == float(r), lambda: "element %d read in C++ is %r, %r given" % (i, lib().element(p, t, 1, i, 0), r))
        else:
            for j, x in enumerate(r):
                expect(lib().element(p, t, 2, i, j) == float(x), lambda: "element (%d, %d) read in C++ is %r, %r given" % (i, j, lib().element(p, t, 2, i, j), x))
    if c["dim"] == 1 and v:
        q = lib().filled(t, len(v), float(abs(v[0]) % 1000))
        got = package_extractor(q).extract()
        w = abs(v[0]) % 1000
        lib().release(q)
        expect(len(got) == len(v) and all(abs(x - w) < 1 for x in got), lambda: "package of %d values %r arrives as %r" % (len(v), w, got))
    return len(v) > 1


def g_text(rng, i):
    return {"text": "".join(chr(rng.randint(32, 126)) for _ in range(rng.randint(1, 40))), "metric": [[rng.uniform(-9, 9) for _ in range(k)] for k in [rng.randint(1, 5)] * 2]}


def check_text(c):
    q = lib().message(c["text"].encode())
    got = package_extractor(q).extract()
    lib().release(q)
    expect(got == c["text"].encode(), lambda: "message %r arrives as %r" % (c["text"], got))
    seen = []

    def f(a, b):
        seen.append((list(a), list(b)))
        return a[0] - b[0] + 0.25
    m = metric_wrapper.create_instance(distance_metric(type_metric.USER_DEFINED, func=f))
    a, b = c["metric"]
    r = m(a, b)
    expect(seen[-1:] == [(a, b)] and r == a[0] - b[0] + 0.25, lambda: "metric callback for %r gets %r and returns %r" % ((a, b), seen, r))
    return True


ALG = ["agglomerative", "clique", "cure", "dbscan", "fcm", "kmeans", "kmedians", "kmedoids", "optics", "rock", "silhouette"]


def g_backend(rng, i):
    alg = rng.choice(ALG)
    data = gen.points(rng, i, nmin=3, nmax=12)
    if alg in ("agglomerative", "cure", "fcm"):                     # no ties, which the two back ends may break differently
        data = [[rng.uniform(-5, 5) for _ in data[0]] for _ in data]
    n = len(data)
    k = rng.randint(1, min(4, n))
    cl = [[] for _ in range(min(k + 1, n))]
    for x in range(n):
        cl[x % len(cl)].append(x)
    return {"alg": alg, "data": data, "k": k, "centres": [[rng.uniform(-6, 6) for _ in data[0]] for _ in range(k)] if alg == "fcm" else gen.centres(rng, data, k), "medoids": rng.sample(range(n), k), "eps": rng.choice([0.5, 1.0, 2.0, 5.0]), "minpts": rng.randint(1, 4), "matrix": rng.random() < 0.4,
            "int": alg not in ("agglomerative", "cure", "fcm") and rng.random() < 0.3, "numpy": rng.random() < 0.2, "clusters": cl, "metric": rng.choice(gen.METRICS[:7]), "link": rng.choice(["SINGLE_LINK", "COMPLETE_LINK", "AVERAGE_LINK", "CENTROID_LINK"])}


def run(c, ccore):
    a, data = c["alg"], copy.deepcopy(c["data"])
    if c["int"]:
        data = [[int(round(x)) for x in p] for p in data]
    data = numpy.array(data) if c["numpy"] and a in ("kmeans", "kmedians", "kmedoids", "fcm") else data
    kw = {}
    if c["matrix"] and a in ("dbscan", "optics", "kmedoids", "silhouette"):
        kw["data_type"] = "distance_matrix"
        data = [[gen.dist("EUCLIDEAN", x, y) for y in data] for x in data]
    m = gen.metric(c["metric"], c["data"])
    if a == "agglomerative":
        x = agglomerative(data, c["k"], getattr(type_link, c["link"]), ccore).process()
        return {"clusters": canon(x.get_clusters())}
    if a == "clique":
        x = clique(data, c["k"], c["minpts"] - 1, ccore=ccore).process()
        return {"clusters": canon(x.get_clusters()), "noise": sorted(x.get_noise())}
    if a == "cure":
        x = cure(data, c["k"], c["minpts"], 0.5, ccore=ccore)
        x.process()
        return {"clusters": canon(x.get_clusters())}
    if a == "dbscan":
        x = dbscan(data, c["eps"], c["minpts"], ccore, **kw).process()
        return {"clusters": canon(x.get_clusters()), "noise": sorted(x.get_noise())}
    if a == "optics":
        x = optics(data, c["eps"], c["minpts"], None, ccore, **kw).process()
        return {"clusters": canon(x.get_clusters()), "noise": sorted(x.get_noise()), "radius": x.get_radius()}
    if a == "kmeans":
        x = kmeans(data, c["centres"], ccore=ccore, metric=m).process()
        return {"clusters": canon(x.get_clusters()), "centres": x.get_centers(), "wce": x.get_total_wce()}
    if a == "kmedians":
        x = kmedians(data, c["centres"], ccore=ccore, metric=m).process()
        return {"clusters": canon(x.get_clusters()), "centres": x.get_medians(), "wce": x.get_total_wce()}
    if a == "kmedoids":
        x = kmedoids(data, c["medoids"], ccore=ccore, metric=m, **kw).process()
        return {"clusters": canon(x.get_clusters()), "medoids": x.get_medoids()}
    if a == "fcm":
        x = fcm(data, c["centres"], ccore=ccore, itermax=20).process()
        return {"centres": x.get_centers(), "membership": x.get_membership()}
    if a == "rock":
        x = rock(data, c["eps"] + 0.0625, c["k"], 0.5, ccore).process()
        return {"clusters": canon(x.get_clusters())}
    x = silhouette(data, c["clusters"], metric=m, ccore=ccore, **kw).process()
    return {"score": x.get_score()}


def close(a, b):
    if isinstance(a, (list, tuple)) or isinstance(a, numpy.ndarray):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b or a != a and b != b or abs(a - b) <= 1e-6 * (1 + abs(a))


def delicate(c):
    """inputs for which a rounding error decides: some distances are equal or almost equal to one another or to the radius"""
    if c["alg"] == "clique":
        return False
    m = "EUCLIDEAN"
    ds = sorted(gen.dist(m, x, y) for i, x in enumerate(c["data"]) for y in c["data"][:i])
    if c["alg"] in ("dbscan", "optics", "rock"):
        return any(abs(d - c["eps"]) < 1e-9 for d in ds)
    return False


def check_backend(c):
    if c["alg"] == "fcm" and any(list(map(float, p)) == list(map(float, z)) for p in c["data"] for z in c["centres"]):
        return False                     # recorded finding of C14
    if c["alg"] == "silhouette" and len(c["clusters"]) < 2 or delicate(c):
        return False
    with numpy.errstate(all="ignore"):
        a, b = run(c, False), run(c, True)
    for k in a:
        x, y = a[k], b[k]
        expect(close(x, y), lambda: "%s: %s of the Python code %r, of the C++ code %r" % (c["alg"], k, x, y))
    return True


TARGETS = [Target("package", g_package, check_package, weight=2), Target("message and callback", g_text, check_text, weight=0.5), Target("back ends", g_backend, check_backend, weight=2)]
