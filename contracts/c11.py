from vc.contract import Contract
from .common import *

M = "pyclustering/utils/metric.py"
CPP = "ccore/src/interface/metric_interface.cpp"
CONTRACTS = []


def term(f):
    return ["lambda a, b, k, r: ite(k <= 0, r == 0, r == %s(a, b, k - 1) + %s)" % (f[0], f[1])]


#: definitions: name -> (spec function, summand at k - 1)
DEF = {
    "euclidean_distance_square": ("sqd", "(a[k - 1] - b[k - 1]) * (a[k - 1] - b[k - 1])"),
    "manhattan_distance": ("absd", "abs(a[k - 1] - b[k - 1])"),
    "canberra_distance": ("canb", "ite(abs(a[k - 1]) + abs(b[k - 1]) == 0, 0, abs(a[k - 1] - b[k - 1]) / (abs(a[k - 1]) + abs(b[k - 1])))"),
    "chi_square_distance": ("chi", "ite(abs(a[k - 1]) + abs(b[k - 1]) == 0, 0, (a[k - 1] - b[k - 1]) * (a[k - 1] - b[k - 1]) / (abs(a[k - 1]) + abs(b[k - 1])))"),
}
ZERO = "forall(lambda i: implies(0 <= i and i < len(point1), point1[i] == point2[i]))"
LEN = ["len(point1) == len(point2)"]
P2 = {"point1": "point", "point2": "point"}
NP1 = {"len(object1.shape) > 1": False, "len(object2.shape) > 1": False, "len(result.shape) > 1": False, "len(point1.shape) > 1": False}
NP2 = {"len(object1.shape) > 1": True, "len(object2.shape) > 1": False, "len(result.shape) > 1": True}


def props(fn, a="point1", b="point2"):
    """value by definition, non-negative, symmetric, zero for equal points"""
    return ["result == %s(%s, %s, len(%s))" % (fn, a, b, a), "result >= 0", "%s(%s, %s, len(%s)) == %s(%s, %s, len(%s))" % (fn, a, b, a, fn, b, a, a),
            "implies(%s, result == 0)" % ZERO.replace("point1", a).replace("point2", b)]


def invs(fn, a="point1", b="point2"):
    r = []
    z = ZERO.replace("point1", a).replace("point2", b)
    for k in ("_k",):
        r += ["distance == %s(%s, %s, %s)" % (fn, a, b, k), "%s(%s, %s, %s) == %s(%s, %s, %s)" % (fn, a, b, k, fn, b, a, k), "implies(%s, distance == 0)" % z]
    return r + ["distance >= 0"]


for f, (fn, t) in DEF.items():
    spec = {fn: (["point", "point", "int"], "real", term((fn, t)))}
    CONTRACTS.append(Contract("metric." + f, M, f, params=P2, ret="real", requires=LEN, spec=spec, ensures=props(fn), invariants=invs(fn)))
    CONTRACTS.append(Contract("cpp.metric." + f, CPP, f, lang="cpp", params=P2, ret="real", requires=LEN, spec=spec, ensures=props(fn), invariants=invs(fn) + ["iter_point1 == _k", "0 <= iter_point1"]))
    o = {"object1": "point", "object2": "point"}
    sm = {"sum": ("point", "sum")}
    CONTRACTS.append(Contract("metric.%s_numpy (vector)" % f, M, f + "_numpy", plain_quotients=True, params=o, ret="real", requires=["len(object1) == len(object2)"], spec=spec, consts=NP1, numpy=["*"], measures=sm,
        ensures=["result == %s(object1, object2, len(object1))" % fn], sum_as=["%s(object1, object2, _k)" % fn]))
    CONTRACTS.append(Contract("metric.%s_numpy (matrix)" % f, M, f + "_numpy", params={"object1": "points", "object2": "point"}, ret="point",
        requires=["forall(lambda i: implies(0 <= i and i < len(object1), len(object1[i]) == len(object2)))"], spec=spec, consts=NP2, numpy=["*"], measures=sm,
        ensures=["len(result) == len(object1)", "forall(lambda i: implies(0 <= i and i < len(object1), result[i] == %s(object1[i], object2, len(object2))))" % fn],
        sum_as=["%s(object1[_r], object2, _k)" % fn]))

SQ = {"sqd": (["point", "point", "int"], "real", term(("sqd", DEF["euclidean_distance_square"][1])))}
for lang, file, pre in (("py", M, ""), ("cpp", CPP, "cpp.")):
    CONTRACTS.append(Contract(pre + "metric.euclidean_distance", file, "euclidean_distance", lang=lang, params=P2, ret="real", requires=LEN, spec=SQ,
        ensures=["result >= 0", "result * result == sqd(point1, point2, len(point1))", "implies(%s, result == 0)" % ZERO]))
CONTRACTS += [
 Contract("metric.euclidean_distance_numpy (vector)", M, "euclidean_distance_numpy", params={"object1": "point", "object2": "point"}, ret="real", requires=["len(object1) == len(object2)"],
    spec=dict(SQ, sqd=(SQ["sqd"][0], "real", SQ["sqd"][2] + ["lambda a, b, k, r: r >= 0"])), consts=NP1, numpy=["*"], measures={"sum": ("point", "sum")}, sum_as=["sqd(object1, object2, _k)"],
    ensures=["result >= 0", "result * result == sqd(object1, object2, len(object1))"]),
 Contract("metric.euclidean_distance_numpy (matrix)", M, "euclidean_distance_numpy", params={"object1": "points", "object2": "point"}, ret="point",
    requires=["forall(lambda i: implies(0 <= i and i < len(object1), len(object1[i]) == len(object2)))"],
    spec=dict(SQ, sqd=(SQ["sqd"][0], "real", SQ["sqd"][2] + ["lambda a, b, k, r: r >= 0"])), consts=NP2, numpy=["*"], measures={"sum": ("point", "sum")}, sum_as=["sqd(object1[_r], object2, _k)"],
    timeout=20, ensures=["len(result) == len(object1)", "forall(lambda i: implies(0 <= i and i < len(object1), result[i] >= 0 and result[i] * result[i] == sqd(object1[i], object2, len(object2))))"]),
]
# Chebyshev: an upper bound of the differences that is one of them (or zero)
for lang, file, pre in (("py", M, ""), ("cpp", CPP, "cpp.")):
    CONTRACTS.append(Contract(pre + "metric.chebyshev_distance", file, "chebyshev_distance", lang=lang, params=P2, ret="real", requires=LEN,
        ensures=["result >= 0", "forall(lambda i: implies(0 <= i and i < len(point1), abs(point1[i] - point2[i]) <= result))",
                 "result == 0 or exists(lambda i: 0 <= i and i < len(point1) and abs(point1[i] - point2[i]) == result)"],
        invariants=["distance >= 0", "forall(lambda i: implies(0 <= i and i < _k, abs(point1[i] - point2[i]) <= distance))", "iter_point1 == _k",
                    "distance == 0 or exists(lambda i: 0 <= i and i < _k and abs(point1[i] - point2[i]) == distance)"]))
CONTRACTS.append(Contract("metric.chebyshev_distance_numpy (vector)", M, "chebyshev_distance_numpy", params={"object1": "point", "object2": "point"}, ret="real", consts=NP1, numpy=["*"],
    requires=["len(object1) == len(object2)", "len(object1) > 0"],
    ensures=["forall(lambda i: implies(0 <= i and i < len(object1), abs(object1[i] - object2[i]) <= result))", "exists(lambda i: 0 <= i and i < len(object1) and abs(object1[i] - object2[i]) == result)"]))
# Minkowski
MK = {"mink": (["point", "point", "real", "int"], "real", ["lambda a, b, d, k, r: ite(k <= 0, r == 0, r == mink(a, b, d, k - 1) + abs(a[k - 1] - b[k - 1]) ** d)"])}
CONTRACTS += [
 Contract("metric.minkowski_distance (degree 2)", M, "minkowski_distance", params=P2, ret="real", requires=LEN, spec=SQ,
    ensures=["result >= 0", "result * result == sqd(point1, point2, len(point1))"], invariants=["distance >= 0", "distance == sqd(point1, point2, _k)"]),
 Contract("cpp.metric.minkowski_distance", CPP, "minkowski_distance", lang="cpp", params={"p_point1": "point", "p_point2": "point", "p_degree": "real"}, ret="real",
    requires=["len(p_point1) == len(p_point2)", "p_degree > 0"], spec=MK,
    ensures=["result == mink(p_point1, p_point2, p_degree, len(p_point1)) ** (1.0 / p_degree)", "mink(p_point1, p_point2, p_degree, len(p_point1)) == mink(p_point2, p_point1, p_degree, len(p_point1))"],
    invariants=["distance == mink(p_point1, p_point2, p_degree, _k)", "mink(p_point1, p_point2, p_degree, _k) == mink(p_point2, p_point1, p_degree, _k)", "iter_point1 == _k"]),
 Contract("metric.minkowski_distance_numpy (vector)", M, "minkowski_distance_numpy", params={"object1": "point", "object2": "point", "degree": "real"}, ret="real", consts=NP1, numpy=["*"],
    requires=["len(object1) == len(object2)", "degree > 0"], spec=MK, measures={"sum": ("point", "sum")}, sum_as=["mink(object1, object2, degree, _k)"],
    ensures=["result == mink(object1, object2, degree, len(object1)) ** (1.0 / degree)"]),
 Contract("metric.minkowski_distance_numpy (matrix)", M, "minkowski_distance_numpy", params={"object1": "points", "object2": "point", "degree": "real"}, ret="point", consts=NP2, numpy=["*"],
    requires=["forall(lambda i: implies(0 <= i and i < len(object1), len(object1[i]) == len(object2)))", "degree > 0"], spec=MK, measures={"sum": ("point", "sum")},
    sum_as=["mink(object1[_r], object2, degree, _k)"],
    ensures=["len(result) == len(object1)", "forall(lambda i: implies(0 <= i and i < len(object1), result[i] == mink(object1[i], object2, degree, len(object2)) ** (1.0 / degree)))"]),
]
# Gower
GW = {"gow": (["point", "point", "point", "int"], "real", ["lambda a, b, m, k, r: ite(k <= 0, r == 0, r == gow(a, b, m, k - 1) + ite(m[k - 1] == 0, 0, abs(a[k - 1] - b[k - 1]) / m[k - 1]))"])}
GR = ["len(point1) == len(point2)", "len(point1) == len(max_range)", "len(point1) > 0", "forall(lambda i: implies(0 <= i and i < len(max_range), max_range[i] >= 0))"]
P3 = {"point1": "point", "point2": "point", "max_range": "point"}
GE = ["result * len(point1) == gow(point1, point2, max_range, len(point1))", "result >= 0", "gow(point1, point2, max_range, len(point1)) == gow(point2, point1, max_range, len(point1))", "implies(%s, result == 0)" % ZERO]
GI = ["distance == gow(point1, point2, max_range, _k)", "distance >= 0", "gow(point1, point2, max_range, _k) == gow(point2, point1, max_range, _k)", "implies(%s, distance == 0)" % ZERO,
      "iter_point1 == _k", "iter_range == _k"]
CONTRACTS += [
 Contract("metric.gower_distance", M, "gower_distance", params=P3, ret="real", requires=GR, spec=GW, ensures=GE, invariants=GI),
 Contract("cpp.metric.gower_distance", CPP, "gower_distance", lang="cpp", params=P3, ret="real", requires=GR, spec=GW, ensures=GE, invariants=GI),
 Contract("metric.gower_distance_numpy (vector)", M, "gower_distance_numpy", params=P3, ret="real", requires=GR, spec=GW, consts=NP1, numpy=["*"], measures={"sum": ("point", "sum")},
    timeout=30, sum_as=["gow(point1, point2, max_range, _k)"], ensures=[GE[0]]),
]
