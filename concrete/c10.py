import copy
import math
import numpy
from .base import Target, expect
from . import gen
from pyclustering.cluster.encoder import cluster_encoder, type_encoding

T = [type_encoding.CLUSTER_INDEX_LABELING, type_encoding.CLUSTER_INDEX_LIST_SEPARATION, type_encoding.CLUSTER_OBJECT_LIST_SEPARATION]


def g(rng, i):
    data = gen.points(rng, i, nmax=16)
    mode = rng.choice(["float", "float", "int", "mixed", "scalar", "tuple", "numpy", "array"])
    n = len(data)
    if mode in ("int", "mixed"):
        data = [[int(x) if mode == "int" or rng.random() < 0.5 else float(int(x)) for x in p] for p in data]
    if mode == "scalar":
        data = [p[0] for p in data]
    k = rng.randint(1, max(1, min(5, n)))
    lab = [rng.randrange(k) if rng.random() < 0.8 else None for _ in range(n)]
    order = list(range(n))
    if rng.random() < 0.3:
        rng.shuffle(order)
    return {"data": data, "mode": mode, "labels": lab, "k": k, "order": order, "empty": rng.random() < 0.2, "start": rng.randrange(3), "chain": [rng.randrange(3) for _ in range(rng.randint(1, 5))], "nparr": rng.random() < 0.2}


def obj(c, p):
    return {"tuple": tuple, "numpy": numpy.array, "array": numpy.array}.get(c["mode"], copy.copy)(p)


def same(a, b):
    return bool(numpy.array_equal(a, b))


def check(c):
    n, lab = len(c["data"]), c["labels"]
    data = [obj(c, p) for p in c["data"]] if c["mode"] != "scalar" else list(c["data"])
    if c["mode"] == "array":
        data = numpy.array(c["data"])
    before = copy.deepcopy(data)
    idx = [[i for i in c["order"] if lab[i] == j] for j in range(c["k"])]
    if not c["empty"]:
        idx = [x for x in idx if x]
        lab = [None] * n
        for j, x in enumerate(idx):
            for i in x:
                lab[i] = j
    start = c["start"]
    if start == 0:
        cl = [float("NaN") if x is None else x for x in lab]
        if c["nparr"] and None not in lab and len(cl):
            cl = numpy.array(cl)
    elif start == 1:
        cl = copy.deepcopy(idx)
    else:
        cl = [[data[i] for i in x] for x in idx]
    e = cluster_encoder(T[start], cl, data)
    expect(e.get_encoding == T[start], "encoding reported")
    expect(e.set_encoding(T[start]) is e and e.get_clusters() is cl, "requesting the encoding in use changes the clusters")
    group = {}         # objects equal by value may be exchanged, their clusters not
    for i in range(n):
        j = next(q for q in range(n) if same(data[q], data[i]))
        group.setdefault(j, []).append(i)
    want = {j: sorted(-1 if lab[i] is None else lab[i] for i in g_) for j, g_ in group.items()}
    exact = start != 2 and 2 not in c["chain"]
    used = [start]
    for t in c["chain"]:
        r = e.set_encoding(T[t])
        used.append(t)
        expect(r is e and e.get_encoding == T[t] and e.get_data() is data, "set_encoding returns another object or reports another encoding")
        got = e.get_clusters()
        if t == 0:
            expect(len(got) == n, "%d labels for %d objects" % (len(got), n))
            l = [None if math.isnan(x) else int(x) for x in got]
        else:
            l = [None] * n
            if t == 1:
                for j, x in enumerate(got):
                    for i in x:
                        expect(0 <= i < n and l[i] is None, lambda: "index %s occurs twice or is out of range: %s" % (i, got))
                        l[i] = j
            else:
                pool = {j: list(g_) for j, g_ in group.items()}
                for j, x in enumerate(got):
                    for o in x:
                        k = next((q for q in pool if same(data[q], o)), None)
                        expect(k is not None and pool[k], lambda: "object %s occurs too often or is not in the data" % (o,))
                        l[pool[k].pop(0)] = j
        now = {j: sorted(-1 if l[i] is None else l[i] for i in g_) for j, g_ in group.items()}
        expect(now == want, lambda: "memberships %s after encodings %s, were %s" % (l, used, lab))
        if exact:
            expect(l == lab, lambda: "labels %s after encodings %s, were %s" % (l, used, lab))
    expect(all(same(a, b) for a, b in zip(before, data)), "the data is changed")
    return n > 1 and len(set(used)) > 1


TARGETS = [Target("encoder", g, check)]
