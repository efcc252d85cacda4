"""C05: agglomerative clustering (both back ends)."""
from vc.contract import Contract, Group
from .common import *
from .centre import COL, CSUM

D, CL, CE = "self.__pointer_data", "self.__clusters", "self.__centers"
EUC = {"args": ["point", "point"], "ret": "real", "fn": "metric", "ensures": ["result >= 0", "result < INF"], "doc": "euclidean_distance_square (value proved in C11/C22; overflow to infinity excluded)"}
A = "pyclustering/cluster/agglomerative.py"
SIZ = Group(measures={"siz": ("list[int]", "one", 2)})
LINK = {
    # smallest, largest and total distance between two index lists
    "nrow": (["points", "int", "list[int]", "int"], "real", ["lambda d, x, c, k, r: ite(k <= 0, r == INF, r == min(nrow(d, x, c, k - 1), metric(d[x], d[c[k - 1]])))"]),
    "near": (["points", "list[int]", "list[int]", "int"], "real", ["lambda d, a, b, k, r: ite(k <= 0, r == INF, r == min(near(d, a, b, k - 1), nrow(d, a[k - 1], b, len(b))))"]),
    "frow": (["points", "int", "list[int]", "int"], "real", ["lambda d, x, c, k, r: ite(k <= 0, r == 0, r == max(frow(d, x, c, k - 1), metric(d[x], d[c[k - 1]])))"]),
    "far": (["points", "list[int]", "list[int]", "int"], "real", ["lambda d, a, b, k, r: ite(k <= 0, r == 0, r == max(far(d, a, b, k - 1), frow(d, a[k - 1], b, len(b))))"]),
    "trow": (["points", "int", "list[int]", "int"], "real", ["lambda d, x, c, k, r: ite(k <= 0, r == 0, r == trow(d, x, c, k - 1) + metric(d[x], d[c[k - 1]]))"]),
    "tot": (["points", "list[int]", "list[int]", "int"], "real", ["lambda d, a, b, k, r: ite(k <= 0, r == 0, r == tot(d, a, b, k - 1) + trow(d, a[k - 1], b, len(b)))"]),
}
SP = dict(MET, **LINK)


def scan(fn, row, var, d, c1, c2, comb):
    """invariants of the double loop over the objects of two clusters"""
    return ["%s == %s(%s, %s, %s, _k)" % (var, fn, d, c1, c2)] + ["%s == %s" % (var, comb % ("%s(%s, %s, %s, %s)" % (fn, d, c1, c2, k), "%s(%s, %s[%s], %s, _k)" % (row, d, c1, k, c2))) for k in ("_k0", "_k2")] + \
           ["%s == %s(%s, %s, %s, _k2)" % (var, fn, d, c1, c2)]


def merged(cl, link, lo="old"):
    """two clusters at minimal link distance became one, nothing else changed"""
    o = "old(%s)" % cl
    return ["len(%s) == len(%s) - 1" % (cl, o), "cnt(%s) == cnt(%s)" % (cl, o), nonempty(cl),
            "exists(lambda a, b: 0 <= a and a < b and b < len(%s) and len(%s[a]) == len(%s[a]) + len(%s[b]) and forall(lambda i, j: implies(0 <= i and i < j and j < len(%s), %s <= %s)))"
            % (o, cl, o, o, o, link("a", "b", o), link("i", "j", o))]


SELF = {"__pointer_data": "points", "__clusters": "list[list[int]]", "__centers": "points", "__number_clusters": "int"}
AG = dict(file=A, cls="agglomerative", group=[PART], calls={"euclidean_distance_square": EUC}, self_=SELF, spec=SP)
NE = [nonempty(CL), in_range2(CL, "len(%s)" % D)]
single = lambda a, b, o=CL: "near(%s, %s[%s], %s[%s], len(%s[%s]))" % (D, o, a, o, b, o, a)
complete = lambda a, b, o=CL: "far(%s, %s[%s], %s[%s], len(%s[%s]))" % (D, o, a, o, b, o, a)


def best(var, link, ix="indexes", n=None, cpp=None):
    """the pair found so far is the best of the pairs looked at"""
    n = n or "len(%s)" % CL
    a, b = cpp or ("%s[0]" % ix, "%s[1]" % ix)
    w = link(a, b)
    seen = lambda i, j: "(0 <= i and i < j and j < %s and (i < _k0 %s))" % (n, "or (i == _k0 and j < _k0 + 1 + _k)" if j else "")
    ok = "0 <= %s and %s < %s and %s < %s" % (a, a, b, b, n)
    first = ["%s is None or (len(%s) == 2 and %s and %s == %s)" % (ix, ix, ok, var, w), "%s is not None or %s == INF" % (ix, var), "%s is not None or (_k0 == 0 and _k == 0)" % ix] if not cpp else \
            ["0 <= %s and %s < %s and (%s < %s or %s == INF)" % (a, a, b, b, n, var), "%s == INF or %s == %s" % (var, var, w), "%s < INF or (_k0 == 0 and _k == 0)" % var, "%s == INF or %s < %s" % (var, b, n)]
    return ["@%d: %s" % (d, c) for d in (0, 1) for c in first] + ["@0: forall(lambda i, j: implies(%s, %s <= %s))" % (seen(0, 0), var, link("i", "j")),
            "@1: forall(lambda i, j: implies(%s, %s <= %s))" % (seen(0, 1), var, link("i", "j"))]


def pair_function(name, func, fn, row, comb, var):
    c1, c2 = CL + "[index_cluster1]", CL + "[index_cluster2]"
    return Contract(name, func=func, params={"index_cluster1": "int", "index_cluster2": "int"}, ret="real", requires=NE + ["0 <= index_cluster1 and index_cluster1 < len(%s)" % CL, "0 <= index_cluster2 and index_cluster2 < len(%s)" % CL],
        ensures=["result == %s(%s, %s, %s, len(%s))" % (fn, D, c1, c2, c1), "result < INF", "result >= 0"],
        invariants=scan(fn, row, var, D, c1, c2, comb) + ["%s >= 0" % var, "%s < INF" % var, "%s < INF or _k == 0" % var, "%s < INF or (_k == 0 and _k0 == 0)" % var], **AG)


#: an average of finite distances is finite
AVG = {"avg": (["points", "list[int]", "list[int]"], "real", ["lambda d, a, b, r: implies(len(a) > 0 and len(b) > 0, r < INF and r == tot(d, a, b, len(a)) / (len(a) * len(b)))"])}
average = lambda a, b, o=CL: "avg(%s, %s[%s], %s[%s])" % (D, o, a, o, b)
centroid = lambda a, b, o=CE: "metric(%s[%s], %s[%s])" % (o, a, o, b)
RECT = lambda d: "forall(lambda i: implies(0 <= i and i < len(%s), len(%s[i]) == len(%s[0])))" % (d, d, d)
#: each centre is the mean of its cluster, in the arbitrary coordinate q
MEANS = lambda d, ce, cl: ["len(%s) == len(%s)" % (ce, cl), "forall(lambda i: implies(0 <= i and i < len(%s), len(%s[i]) == len(%s[0])))" % (ce, ce, d),
                           "implies(0 <= q and q < len(%s[0]), forall(lambda i: implies(0 <= i and i < len(%s), %s[i][q] * len(%s[i]) == csum(%s, %s[i], len(%s[i])))))" % (d, ce, ce, cl, d, cl, cl)]


CONTRACTS = [
 pair_function("agglomerative.calculate_farthest_distance", "__calculate_farthest_distance", "far", "frow", "max(%s, %s)", "candidate_maximum_distance"),
 pair_function("agglomerative.calculate_nearest_distance", "__calculate_nearest_distance", "near", "nrow", "min(%s, %s)", "candidate_minimum_distance"),
 Contract("agglomerative.merge_by_signle_link", func="__merge_by_signle_link", modifies=[CL], requires=NE + ["len(%s) > 1" % CL], ensures=merged(CL, single) + NE[1:],
    invariants=best("minimum_single_distance", single), locals={"indexes": "opt[list[int]]"}, uses=["agglomerative.calculate_nearest_distance"], **AG),
 Contract("agglomerative.merge_by_complete_link", func="__merge_by_complete_link", modifies=[CL], requires=NE + ["len(%s) > 1" % CL], ensures=merged(CL, complete) + NE[1:],
    invariants=best("minimum_complete_distance", complete), locals={"indexes": "opt[list[int]]"}, uses=["agglomerative.calculate_farthest_distance"], **AG),
 Contract("agglomerative.merge_by_average_link", func="__merge_by_average_link", modifies=[CL], requires=NE + ["len(%s) > 1" % CL], ensures=merged(CL, average) + NE[1:],
    invariants=best("minimum_average_distance", average) + [
        "@2: candidate_average_distance == tot(%s, %s[index_cluster1], %s[index_cluster2], _k)" % (D, CL, CL),
        "@3: candidate_average_distance == tot(%s, %s[index_cluster1], %s[index_cluster2], _k2) + trow(%s, %s[index_cluster1][_k2], %s[index_cluster2], _k)" % (D, CL, CL, D, CL, CL)],
    locals={"indexes": "opt[list[int]]"}, effort=8, **dict(AG, spec=dict(SP, **AVG))),
 Contract("agglomerative.calculate_center", func="__calculate_center", params={"cluster": "list[int]"}, ret="point",
    requires=["len(%s) > 0" % D, RECT(D), "len(cluster) > 0", in_range("cluster", "len(%s)" % D)],
    ensures=["len(result) == len(%s[0])" % D, "implies(0 <= q and q < len(%s[0]), result[q] * len(cluster) == csum(%s, cluster, len(cluster)))" % (D, D)],
    locals={"center": "point"},
    invariants=["len(center) == dimension", "implies(0 <= q and q < dimension, center[q] == csum(%s, cluster, _k))" % D,
                "implies(0 <= q and q < dimension, center[q] == csum(%s, cluster, _k0) + ite(q < _k, %s[index_point][q], 0))" % (D, D),
                "implies(0 <= q and q < _k, center[q] * len(cluster) == csum(%s, cluster, len(cluster)))" % D,
                "implies(_k <= q and q < dimension, center[q] == csum(%s, cluster, len(cluster)))" % D], **dict(AG, group=[PART, COL], spec=dict(SP, **CSUM))),
 Contract("agglomerative.merge_by_centroid_link", func="__merge_by_centroid_link", modifies=[CL, CE], requires=NE + ["len(%s) > 1" % CL, "len(%s) > 0" % D, RECT(D)] + MEANS(D, CE, CL),
    ensures=merged(CL, lambda a, b, o=CL: centroid(a, b, "old(%s)" % CE)) + NE[1:] + MEANS(D, CE, CL),
    invariants=best("minimum_centroid_distance", centroid, n="len(%s)" % CE), locals={"indexes": "opt[list[int]]"}, uses=["agglomerative.calculate_center"], **dict(AG, group=[PART, COL], spec=dict(SP, **CSUM))),

]
SIM = "self.__similarity"
LINKS = {"SINGLE_LINK": 0, "COMPLETE_LINK": 1, "AVERAGE_LINK": 2, "CENTROID_LINK": 3}
ALL = dict(SP, **dict(AVG, **CSUM))
CLINK = lambda a, b, o=CL: centroid(a, b, "old(%s)" % CE)
USES = ["agglomerative.merge_by_signle_link", "agglomerative.merge_by_complete_link", "agglomerative.merge_by_average_link", "agglomerative.merge_by_centroid_link"]
CENTRED = ["implies(%s == 3, %s)" % (SIM, c) for c in MEANS(D, CE, CL)]
AGM = dict(AG, group=[PART, COL], spec=ALL, self_=dict(SELF, __similarity="int", __ccore="bool"), consts=dict({"type_link." + k: v for k, v in LINKS.items()}, **{"self.__ccore is True": False}))
CONTRACTS += [
 Contract("agglomerative.merge_similar_clusters", func="__merge_similar_clusters", modifies=[CL, CE], uses=USES,
    requires=NE + ["len(%s) > 1" % CL, "len(%s) > 0" % D, RECT(D), "0 <= %s and %s <= 3" % (SIM, SIM)] + CENTRED,
    ensures=merged(CL, single)[:3] + ["implies(%s == %d, %s)" % (SIM, v, merged(CL, f)[3]) for v, f in enumerate([single, complete, average, CLINK])] + NE[1:] + CENTRED, **AGM),
 Contract("agglomerative.process", func="process", modifies=[CL, CE], uses=["agglomerative.merge_similar_clusters"],
    requires=["len(%s) > 0" % D, RECT(D), "0 <= %s and %s <= 3" % (SIM, SIM), "self.__number_clusters > 0", "implies(%s == 3, %s == %s)" % (SIM, CE, D)],
    ensures=[partition(CL, "len(%s)" % D), nonempty(CL), "len(%s) == min(len(%s), self.__number_clusters)" % (CL, D)] + NE[1:],
    invariants=["cnt(_comp) == ite(0 <= p and p < _k, 1, 0)", "forall(lambda i: implies(0 <= i and i < _k, len(_comp[i]) == 1 and _comp[i][0] == i))", "@0: forall(lambda i: implies(0 <= i and i < _k, csum(%s, _comp[i], 0) == 0 and csum(%s, _comp[i], 1) == %s[i][q]))" % (D, D, D),
                partition(CL, "len(%s)" % D), "current_number_clusters == len(%s)" % CL, "len(%s) >= min(len(%s), self.__number_clusters)" % (CL, D), "len(%s) <= len(%s)" % (CL, D)] + NE + CENTRED, **AGM),
]

# C++
XD, XC, XE = "self.m_ptr_data", "self.m_ptr_clusters", "self.m_centers"
XREC = {"args": ["point", "point"], "ret": "real", "fn": "metric", "ensures": ["result >= 0", "result < INF"], "doc": "euclidean_distance_square (value proved in C11; overflow to infinity excluded)"}
XA = dict(file="ccore/src/cluster/agglomerative.cpp", cls="agglomerative", lang="cpp", group=[PART, COL], spec=dict(ALL), calls={"euclidean_distance_square": XREC},
          self_={"m_ptr_data": "points", "m_ptr_clusters": "list[list[int]]", "m_centers": "points", "m_number_clusters": "int", "m_similarity": "int"})
xlink = lambda f: (lambda a, b, o=XC: f(a, b, o).replace(D, XD).replace(CE, XE))
XNE = [nonempty(XC), in_range2(XC, "len(%s)" % XD)]


def xbest(var, link, a, b, n, i1, i2):
    inv = [c.replace(CL, XC).replace(D, XD).replace(CE, XE) for c in best(var, link, cpp=(a, b), n=n)]
    return inv + ["@0: %s == _k" % i1, "@0: %s <= %s" % (i1, n), "@1: %s == _k0 + 1 + _k" % i2, "@1: %s <= %s" % (i2, n)]


def xscan(name, link, var, cand, body, a="index1", b="index2", i1="index_cluster1", i2="index_cluster2", n="len(%s)" % XC):
    return Contract("cpp.agglomerative." + name, func=name, modifies=[XC], requires=XNE + ["len(%s) > 1" % XC], ensures=merged(XC, xlink(link)) + XNE[1:],
        invariants=xbest(var, link, a, b, n, i1, i2) + body, effort=4, **XA)


def xdouble(fn, row, var, comb):
    c1, c2 = XC + "[index_cluster1]", XC + "[index_cluster2]"
    return ["@2: %s < INF or _k == 0" % var, "@3: %s < INF or (_k == 0 and _k2 == 0)" % var, "@2: %s >= 0" % var, "@3: %s >= 0" % var, "@2: %s == %s(%s, %s, %s, _k)" % (var, fn, XD, c1, c2), "@3: %s == %s" % (var, comb % ("%s(%s, %s, %s, _k2)" % (fn, XD, c1, c2), "%s(%s, %s[_k2], %s, _k)" % (row, XD, c1, c2)))]


CONTRACTS += [
 xscan("merge_by_signle_link", single, "minimum_single_distance", None, xdouble("near", "nrow", "candidate_minimum_distance", "min(%s, %s)")),
 xscan("merge_by_complete_link", complete, "minimum_complete_distance", None, xdouble("far", "frow", "candidate_maximum_distance", "max(%s, %s)")),
 xscan("merge_by_average_link", average, "minimum_average_distance", None, xdouble("tot", "trow", "candidate_average_distance", "%s + %s")),
]
XMEANS = MEANS(XD, XE, XC)
XSIM = "self.m_similarity"
XCENTRED = ["implies(%s == 3, %s)" % (XSIM, c) for c in XMEANS]
CONTRACTS += [
 Contract("cpp.agglomerative.calculate_center", func="calculate_center", params={"cluster": "list[int]", "center": "point"}, modifies=["center"],
    requires=["len(%s) > 0" % XD, RECT(XD), "len(cluster) > 0", in_range("cluster", "len(%s)" % XD)],
    ensures=["len(center) == len(%s[0])" % XD, "implies(0 <= q and q < len(%s[0]), center[q] * len(cluster) == csum(%s, cluster, len(cluster)))" % (XD, XD)],
    invariants=["len(center) == dimension", "@0: implies(0 <= q and q < dimension, center[q] == csum(%s, cluster, _k))" % XD, "index_dimension == _k", "index_dimension <= dimension",
                "@1: implies(0 <= q and q < dimension, center[q] == csum(%s, cluster, _k0) + ite(q < _k, %s[index_point][q], 0))" % (XD, XD),
                "@0: implies(0 <= q and q < _k, center[q] * len(cluster) == csum(%s, cluster, len(cluster)))" % XD,
                "@0: implies(_k <= q and q < dimension, center[q] == csum(%s, cluster, len(cluster)))" % XD], **XA),
 Contract("cpp.agglomerative.merge_by_centroid_link", func="merge_by_centroid_link", modifies=[XC, XE], requires=XNE + ["len(%s) > 1" % XC, "len(%s) > 0" % XD, RECT(XD)] + XMEANS,
    ensures=merged(XC, lambda a, b, o=XC: centroid(a, b, "old(%s)" % XE)) + XNE[1:] + XMEANS, uses=["cpp.agglomerative.calculate_center"],
    invariants=xbest("minimum_average_distance", centroid, "index_cluster1", "index_cluster2", "len(%s)" % XE, "index1", "index2"), **XA),
]
XAM = dict(XA, cpp={"accessors": {"p_result.clusters": "m_ptr_clusters"}, "types": {"agglomerative_data": "cluster_data"}}, consts={"enum." + k: v for k, v in LINKS.items()})
CONTRACTS += [
 Contract("cpp.agglomerative.merge_similar_clusters", func="merge_similar_clusters", modifies=[XC, XE], uses=["cpp." + u for u in USES],
    requires=XNE + ["len(%s) > 1" % XC, "len(%s) > 0" % XD, RECT(XD), "0 <= %s and %s <= 3" % (XSIM, XSIM)] + XCENTRED,
    ensures=merged(XC, single)[:3] + ["implies(%s == %d, %s)" % (XSIM, v, merged(XC, xlink(f))[3]) for v, f in enumerate([single, complete, average])] +
        ["implies(%s == 3, %s)" % (XSIM, merged(XC, lambda a, b, o=XC: centroid(a, b, "old(%s)" % XE))[3])] + XNE[1:] + XCENTRED, **XAM),
 Contract("cpp.agglomerative.process", func="process", params={"p_data": "points", "p_result": "cluster_data"}, modifies=[XC, XE, XD], uses=["cpp.agglomerative.merge_similar_clusters"],
    requires=["len(p_data) > 0", RECT("p_data"), "0 <= %s and %s <= 3" % (XSIM, XSIM), "self.m_number_clusters > 0"],
    ensures=[partition(XC, "len(p_data)"), nonempty(XC), "len(%s) == min(len(p_data), self.m_number_clusters)" % XC, in_range2(XC, "len(p_data)")],
    invariants=["@0: cnt(%s) == ite(0 <= p and p < _k, 1, 0)" % XC, "i == _k", "i <= len(p_data)", "len(%s) == len(p_data)" % XC, "forall(lambda i: implies(0 <= i and i < _k, len(%s[i]) == 1 and %s[i][0] == i))" % (XC, XC),
                "forall(lambda i: implies(_k <= i and i < len(%s), len(%s[i]) == 0))" % (XC, XC),
                "forall(lambda i: implies(0 <= i and i < _k, csum(%s, %s[i], 0) == 0 and csum(%s, %s[i], 1) == %s[i][q]))" % (XD, XC, XD, XC, XD),
                partition(XC, "len(p_data)"), "current_number_clusters == len(%s)" % XC, "len(%s) >= min(len(p_data), self.m_number_clusters)" % XC, "len(%s) <= len(p_data)" % XC] + XNE + XCENTRED, **XAM),
]
