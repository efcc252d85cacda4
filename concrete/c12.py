import copy
import math
import numpy
from .base import Target, expect
from . import gen
from .cppdrv import Driver
import pyclustering.cluster.silhouette as S
import pyclustering.cluster.elbow as EL
from pyclustering.cluster.kmeans import kmeans
from pyclustering.cluster.kmedians import kmedians
from pyclustering.cluster.kmedoids import kmedoids
from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer, random_center_initializer

DRV = Driver("search")


def clusters_of(rng, n, k):
    """k non-empty clusters in arbitrary order"""
    idx = list(range(n))
    rng.shuffle(idx)
    cl = [[x] for x in idx[:k]]
    mode = rng.random()
    for x in idx[k:]:
        cl[rng.randrange(k) if mode < 0.7 else 0].append(x)
    return cl


def score(d, cl):
    """point -> silhouette; None where the definition gives no value"""
    r = {}
    for j, k in enumerate(cl):
        for i in k:
            if len(k) == 1:
                r[i] = None
                continue
            a = math.fsum(d[i][q] for q in k) / (len(k) - 1)
            b = min(math.fsum(d[i][q] for q in o) / len(o) for m, o in enumerate(cl) if m != j)
            r[i] = (b - a) / max(a, b) if max(a, b) > 1e-9 else None
    return r


def g_sil(rng, i):
    data = gen.points(rng, i, nmin=3, nmax=14)
    n = len(data)
    m = rng.choice([x for x in gen.METRICS if x != "USER_DEFINED" or len(set(map(tuple, data))) == n])
    return {"data": data, "clusters": clusters_of(rng, n, rng.randint(2, min(n, 4))), "metric": m, "ccore": rng.random() < 0.5, "matrix": rng.random() < 0.4, "numpy": rng.random() < 0.2, "none": rng.random() < 0.2}


def check_sil(c):
    data, cl = c["data"], c["clusters"]
    n = len(data)
    d = [[gen.dist(c["metric"], a, b, data) for b in data] for a in data]
    kw = {} if c["metric"] == "EUCLIDEAN_SQUARE" and c["none"] else {"metric": gen.metric(c["metric"], data)}
    given = d if c["matrix"] else data
    arg = numpy.array(given) if c["numpy"] else copy.deepcopy(given)
    if c["matrix"]:
        kw["data_type"] = "distance_matrix"
    a = S.silhouette(arg, copy.deepcopy(cl), ccore=c["ccore"], **kw)
    with numpy.errstate(all="ignore"):
        r = a.process()
    got = a.get_score()
    expect(r is a and len(got) == n, lambda: "%d scores for %d points" % (len(got), n))
    for i, w in score(d, cl).items():
        if w is not None:
            expect(got[i] == got[i] and abs(got[i] - w) < 1e-6, lambda: "score of point %d is %r, the definition gives %r" % (i, got[i], w))
    expect([list(map(float, p)) for p in arg] == [list(map(float, p)) for p in given], "the data is changed")
    return n > 3


def g_search(rng, i):
    data = gen.points(rng, i, nmin=3, nmax=12)
    if rng.random() < 0.5:
        data = [[x + rng.gauss(0, 0.01) for x in p] for p in data]
    n = len(data)
    kmin = rng.randint(2, max(2, min(4, n - 1)))
    kmax = rng.randint(kmin + 1, n) if kmin < n else n
    cl = {str(k): clusters_of(rng, n, max(1, k - rng.choice([0, 0, 0, 0, 1]))) for k in range(kmin, kmax + 1)}
    return {"data": data, "kmin": kmin, "kmax": kmax, "clusters": cl, "seed": rng.randint(1, 10 ** 6), "type": rng.choice(["KMEANS", "KMEDIANS", "KMEDOIDS"])}


def judge_search(c, what, asked, amount, best, scores, given):
    """given: k -> clusters found for k"""
    data = c["data"]
    d = [[gen.dist("EUCLIDEAN_SQUARE", a, b) for b in data] for a in data]
    ks = list(range(c["kmin"], c["kmax"]))
    expect(asked is None or sorted(asked) == ks, lambda: "%s: the numbers %s are evaluated, the range is %s" % (what, asked, ks))
    expect(len(scores) == len(ks), lambda: "%s: %d scores for the numbers %s" % (what, len(scores), ks))
    vals = {}
    for k, s in zip(ks, scores):
        if given is not None and len(given[k]) == k:
            w = score(d, given[k])
            if all(x is not None for x in w.values()):
                m = math.fsum(w.values()) / len(w)
                expect(abs(s - m) < 1e-6, lambda: "%s: mean score for %d is %r, the definition gives %r" % (what, k, s, m))
        elif given is not None:
            expect(s != s, "%s: %r is reported for %d, for which there is no such clustering" % (what, s, k))
        if s == s:
            vals[k] = s
    top = max(vals.values()) if vals else None
    if top is not None and top > -1.0:
        expect(amount in vals and vals[amount] == best and best == top, lambda: "%s: %r with score %r is returned, the mean scores are %s" % (what, amount, best, vals))
    return len(vals) > 1


class Fake:
    answers, asked, n = None, None, 0

    def __init__(self, data, initial, *a, **k):
        self.k = len(initial)
        Fake.asked.append(self.k)

    def process(self):
        return self

    def get_clusters(self):
        return copy.deepcopy(Fake.answers[self.k])


def check_search_py(c):
    data = c["data"]
    given = {int(k): v for k, v in c["clusters"].items()}
    Fake.answers, Fake.asked = given, []
    name = c["type"].lower()
    old = getattr(S, name)
    setattr(S, name, Fake)
    try:
        with numpy.errstate(all="ignore"):
            a = S.silhouette_ksearch(copy.deepcopy(data), c["kmin"], c["kmax"], algorithm=S.silhouette_ksearch_type[c["type"]], ccore=False, random_state=c["seed"]).process()
    finally:
        setattr(S, name, old)
    sc = a.get_scores()
    expect(sorted(sc) == list(range(c["kmin"], c["kmax"])), lambda: "scores are reported for %s, the range is %d..%d" % (sorted(sc), c["kmin"], c["kmax"] - 1))
    return judge_search(c, "Python (given clusters)", Fake.asked, a.get_amount(), a.get_score(), [sc[k] for k in sorted(sc)], given)


def check_search_real(c):
    data = c["data"]
    if len(set(map(tuple, data))) < len(data):
        return False
    t = {"KMEANS": kmeans, "KMEDIANS": kmedians, "KMEDOIDS": kmedoids}[c["type"]]
    nt = False
    for cc in (False, True):
        a = S.silhouette_ksearch(copy.deepcopy(data), c["kmin"], c["kmax"], algorithm=S.silhouette_ksearch_type[c["type"]], ccore=cc, random_state=c["seed"])
        with numpy.errstate(all="ignore"):
            a.process()
        sc = a.get_scores()
        given = None
        if not cc:
            given = {}
            for k in range(c["kmin"], c["kmax"]):
                init = kmeans_plusplus_initializer(data, k, random_state=c["seed"]).initialize(return_index=c["type"] == "KMEDOIDS")
                given[k] = t(data, init).process().get_clusters()
        nt |= judge_search(c, "C++" if cc else "Python", None, a.get_amount(), a.get_score(), [sc[k] for k in sorted(sc)], given)
    return nt


def fmt(data):
    return "%d %d " % (len(data), len(data[0])) + " ".join(repr(float(x)) for p in data for x in p)


def check_search_cpp(c):
    given = {int(k): v for k, v in c["clusters"].items()}
    line = "S %d %d %s %d " % (c["kmin"], c["kmax"], fmt(c["data"]), len(given)) + " ".join("%d %d %s" % (k, len(v), " ".join("%d %s" % (len(x), " ".join(map(str, x))) for x in v)) for k, v in given.items())
    asked, amount, best, scores = DRV.ask(line).split("\t")
    return judge_search(c, "C++ (given clusters)", list(map(int, asked.split())), int(amount), float(best), list(map(float, scores.split())), given)


def g_elbow(rng, i):
    data = gen.points(rng, i, nmin=3, nmax=14)
    if rng.random() < 0.7:
        data = [[x + rng.gauss(0, 0.01) for x in p] for p in data]
    n = len(data)
    step = rng.choice([1, 1, 1, 2, 3])
    if n < 1 + 2 * step:
        step = 1
    kmin = rng.randint(1, n - 2 * step)
    kmax = rng.randint(kmin + 2 * step, n)
    return {"data": data, "kmin": kmin, "kmax": kmax, "step": step, "seed": rng.randint(1, 10 ** 6), "init": rng.choice(["plus", "random"])}


def judge_elbow(c, what, amount, wce, asked=None, start=None):
    data = c["data"]
    ks = list(range(c["kmin"], c["kmax"] + 1, c["step"]))
    expect(asked is None or sorted(asked) == ks, lambda: "%s: the numbers %s are evaluated, requested were %s" % (what, asked, ks))
    expect(len(wce) == len(ks), lambda: "%s: %d errors for the numbers %s" % (what, len(wce), ks))
    if c["kmin"] == 1:
        m = [math.fsum(p[d] for p in data) / len(data) for d in range(len(data[0]))]
        w = math.fsum(gen.dist("EUCLIDEAN_SQUARE", p, m) for p in data)
        expect(abs(w - wce[0]) <= 1e-6 * (1 + w), lambda: "%s: error of one cluster is %r, should be %r" % (what, wce[0], w))
    if start is not None:
        for k, w in zip(ks, wce):
            e = kmeans(data, start(k), ccore=False).process().get_total_wce()
            expect(abs(e - w) <= 1e-6 * (1 + abs(e)), lambda: "%s: error of K-Means with %d clusters is %r, reported is %r" % (what, k, e, w))
    x1, y0, y1 = float(len(ks) - 1), wce[0], wce[-1]
    dist = {k: abs((y0 - y1) * j + x1 * wce[j] - x1 * y0) / math.hypot(x1, y1 - y0) for j, k in enumerate(ks) if 0 < j < len(ks) - 1}
    top = max(dist.values())
    expect(amount in dist and dist[amount] >= top - 1e-9 * (1 + abs(y0)), lambda: "%s: %r is returned, errors %s have the distances %s from the chord" % (what, amount, wce, dist))
    return len(dist) > 1


class Recorder:
    asked = None

    def __init__(self, data, amount, **kw):
        self.data, self.amount = data, amount
        Recorder.asked.append(amount)

    def initialize(self, **kw):
        return [list(p) for p in self.data[:self.amount]]


def check_elbow_py(c):
    Recorder.asked = []
    a = EL.elbow(copy.deepcopy(c["data"]), c["kmin"], c["kmax"], kstep=c["step"], initializer=Recorder, ccore=False, random_state=c["seed"])
    r = a.process()
    expect(r is a, "process returns another object")
    return judge_elbow(c, "Python (given centres)", a.get_amount(), a.get_wce(), Recorder.asked, lambda k: [list(p) for p in c["data"][:k]])


def check_elbow_cpp(c):
    asked, amount, wce = DRV.ask("E %d %d %d %s" % (c["kmin"], c["kmax"], c["step"], fmt(c["data"]))).split("\t")
    return judge_elbow(c, "C++ (given centres)", int(amount), list(map(float, wce.split())), list(map(int, asked.split())))


def check_elbow_real(c):
    ini = {"plus": kmeans_plusplus_initializer, "random": random_center_initializer}[c["init"]]
    nt = False
    for cc in (False, True):
        a = EL.elbow(copy.deepcopy(c["data"]), c["kmin"], c["kmax"], kstep=c["step"], initializer=ini, ccore=cc, random_state=c["seed"]).process()
        nt = judge_elbow(c, "C++" if cc else "Python", a.get_amount(), a.get_wce())
    return nt


TARGETS = [Target("silhouette", g_sil, check_sil, 3), Target("ksearch.python", g_search, check_search_py), Target("ksearch.cpp", g_search, check_search_cpp), Target("ksearch.real", g_search, check_search_real),
           Target("elbow.python", g_elbow, check_elbow_py), Target("elbow.cpp", g_elbow, check_elbow_cpp), Target("elbow.real", g_elbow, check_elbow_real)]
