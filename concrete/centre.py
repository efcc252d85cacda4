"""Runs of the centre based algorithms, shared by C01, C02, C03."""
import numpy
from . import gen
from pyclustering.cluster.kmeans import kmeans, kmeans_observer
from pyclustering.cluster.kmedians import kmedians
from pyclustering.cluster.kmedoids import kmedoids
from pyclustering.cluster.xmeans import xmeans, splitting_type
from pyclustering.cluster.gmeans import gmeans
from pyclustering.cluster.clarans import clarans
from pyclustering.cluster.fcm import fcm
from pyclustering.cluster.ema import ema


def g_centre(alg):
    def g(rng, i):
        data = gen.points(rng, i)
        n = len(data)
        k = rng.randint(1, min(n + 1, 5))
        m = rng.choice(gen.METRICS)
        if rng.random() < 0.4:
            m = "EUCLIDEAN_SQUARE"
        c = {"alg": alg, "ccore": rng.random() < 0.5, "data": data, "centers": gen.centres(rng, data, k), "metric": m,
             "tol": rng.choice([0.0, 0.001, 0.1, 1.0]), "itermax": rng.choice([1, 2, 3, 100, 100, 100]), "observer": rng.random() < 0.2}
        return c
    return g


def g_kmedoids(rng, i):
    data = gen.points(rng, i, nmin=1)
    n = len(data)
    k = rng.randint(1, min(n, 5))
    m = rng.choice(gen.METRICS)
    return {"alg": "kmedoids", "ccore": rng.random() < 0.5, "data": data, "medoids": rng.sample(range(n), k), "metric": m, "tol": rng.choice([0.0, 0.001, 0.25]),
            "itermax": rng.choice([1, 2, 100, 100]), "matrix": rng.random() < 0.35}


def g_xmeans(rng, i):
    data = gen.points(rng, i, nmin=2, nmax=20)
    k = rng.randint(1, min(len(data), 4))
    return {"alg": "xmeans", "ccore": rng.random() < 0.5, "data": data, "centers": gen.centres(rng, data, k), "kmax": rng.randint(k, k + 4), "tol": rng.choice([0.001, 0.1]),
            "criterion": rng.randint(0, 1), "repeat": rng.randint(1, 3), "seed": rng.randint(0, 10 ** 6), "metric": rng.choice(["EUCLIDEAN_SQUARE", "EUCLIDEAN_SQUARE", "EUCLIDEAN", "MANHATTAN", "CHEBYSHEV"])}


def g_gmeans(rng, i):
    data = gen.points(rng, i, nmin=2, nmax=24)
    k = rng.randint(1, min(len(data), 3))
    return {"alg": "gmeans", "ccore": rng.random() < 0.5, "data": data, "k": k, "kmax": rng.choice([-1, -1, k, k + 1, k + 3]), "tol": rng.choice([0.001, 0.1]), "repeat": rng.randint(1, 3),
            "seed": rng.randint(0, 10 ** 6)}


def g_clarans(rng, i):
    data = gen.points(rng, i, nmin=2, nmax=10)
    n = len(data)
    k = rng.randint(1, min(n - 1, 4))
    return {"alg": "clarans", "data": data, "k": k, "numlocal": rng.randint(1, 3), "maxneighbor": rng.randint(0, 4)}


def g_fcm(rng, i):
    data = gen.points(rng, i, nmin=1)
    k = rng.randint(1, min(len(data) + 1, 4))
    return {"alg": "fcm", "ccore": rng.random() < 0.5, "data": data, "centers": gen.centres(rng, data, k), "m": rng.choice([1.5, 2.0, 2.0, 3.0]), "tol": rng.choice([0.001, 0.1]), "itermax": rng.choice([1, 2, 50])}


def g_ema(rng, i):
    data = gen.points(rng, i, nmin=3, dmin=1, dmax=2, integer=False)
    return {"alg": "ema", "data": data, "k": rng.randint(1, min(3, len(data))), "iterations": rng.choice([1, 3, 20])}


def run(c):
    """-> dict with clusters, centers, wce, model, medoids, ..."""
    a, data = c["alg"], c["data"]
    r = {}
    if a in ("kmeans", "kmedians"):
        kw = {"observer": kmeans_observer()} if c["observer"] and a == "kmeans" else {}
        m = (kmeans if a == "kmeans" else kmedians)(data, c["centers"], c["tol"], c["ccore"], itermax=c["itermax"], metric=gen.metric(c["metric"], data), **kw)
        m.process()
        r = {"clusters": m.get_clusters(), "centers": m.get_centers() if a == "kmeans" else m.get_medians(), "wce": m.get_total_wce(), "observer": kw.get("observer")}
    elif a == "kmedoids":
        d = data
        kw = {}
        if c["matrix"]:
            d = [[gen.dist(c["metric"], x, y, data) for y in data] for x in data]
            kw = {"data_type": "distance_matrix"}
        m = kmedoids(d, list(c["medoids"]), c["tol"], c["ccore"], itermax=c["itermax"], metric=gen.metric(c["metric"], data), **kw)
        m.process()
        r = {"clusters": m.get_clusters(), "medoids": m.get_medoids(), "deviation": m.get_total_deviation(), "labels": m.get_labels(), "iterations": m.get_iterations()}
    elif a == "xmeans":
        m = xmeans(data, c["centers"], c["kmax"], c["tol"], splitting_type(c["criterion"]), c["ccore"], repeat=c["repeat"], random_state=c["seed"], metric=gen.metric(c["metric"]))
        m.process()
        r = {"clusters": m.get_clusters(), "centers": m.get_centers(), "wce": m.get_total_wce()}
    elif a == "gmeans":
        m = gmeans(data, c["k"], c["ccore"], tolerance=c["tol"], repeat=c["repeat"], k_max=c["kmax"], random_state=c["seed"])
        m.process()
        r = {"clusters": m.get_clusters(), "centers": m.get_centers(), "wce": m.get_total_wce()}
    elif a == "clarans":
        m = clarans(data, c["k"], c["numlocal"], c["maxneighbor"])
        m.process()
        r = {"clusters": m.get_clusters(), "medoids": m.get_medoids()}
    elif a == "fcm":
        m = fcm(data, [list(x) for x in c["centers"]], m=c["m"], tolerance=c["tol"], itermax=c["itermax"], ccore=c["ccore"])
        m.process()
        r = {"clusters": m.get_clusters(), "centers": m.get_centers(), "membership": m.get_membership()}
    elif a == "ema":
        m = ema(data, c["k"], iterations=c["iterations"])
        m.process()
        r = {"clusters": m.get_clusters(), "probabilities": m.get_probabilities(), "centers": m.get_centers()}
    r["model"] = m
    return r
