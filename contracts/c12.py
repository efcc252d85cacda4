"""C12: silhouette and elbow scores."""
from vc.contract import Contract, Group
from .common import *

S, E = "pyclustering/cluster/silhouette.py", "pyclustering/cluster/elbow.py"
CL, D = "self.__clusters", "self.__data"
#: dsum: total of the entries of a row listed by a cluster; bmin: smallest average over the first k clusters other than x
SIL = {"dsum": (["point", "list[int]", "int"], "real", ["lambda d, c, k, r: ite(k <= 0, r == 0, r == dsum(d, c, k - 1) + d[c[k - 1]])"]),
       "avgd": (["point", "list[int]"], "real", ["lambda d, c, r: implies(len(c) > 0, r == dsum(d, c, len(c)) / len(c))"]),
       "bmin": (["point", "list[list[int]]", "int", "int"], "real", ["lambda d, cl, x, k, r: ite(k <= 0, r == INF, ite(k - 1 == x, r == bmin(d, cl, x, k - 1), r == min(bmin(d, cl, x, k - 1), avgd(d, cl[k - 1]))))"])}
#: the distances of all points to one point
MROW = {"mrow": (["points", "point"], "point", ["lambda a, b, r: len(r) == len(a) and forall(lambda i: implies(0 <= i and i < len(a), r[i] == metric(a[i], b)))"])}
ROWCALL = [METRICS[0], dict(METRICS[1], fn="mrow")]
WHOLE = [nonempty(CL), in_range2(CL, "len(%s)" % D)]
SELF = {"__clusters": "list[list[int]]", "__data": "points", "__data_type": "str", "__score": "point"}
SI = dict(file=S, cls="silhouette", self_=SELF, spec=dict(MET, **dict(SIL, **MROW)), calls={"self.__metric": ROWCALL}, consts={"nan": "none"})
ROW = ["len(difference) == len(%s)" % D]
INDEX = ["0 <= index_cluster and index_cluster < len(%s)" % CL]
FIN = lambda d: "forall(lambda i: implies(0 <= i and i < len(%s), avgd(%s, %s[i]) < INF))" % (CL, d, CL)
P = {"index_cluster": "int", "difference": "point"}
USER = "self.__metric.get_type() != type_metric.USER_DEFINED"

CONTRACTS = [
 Contract("silhouette.calculate_cluster_difference", func="__calculate_cluster_difference", params=P, ret="real", requires=WHOLE + ROW + INDEX,
    ensures=["result == dsum(difference, {0}[index_cluster], len({0}[index_cluster]))".format(CL)], invariants=["cluster_difference == dsum(difference, %s[index_cluster], _k)" % CL], **SI),
 Contract("silhouette.calculate_within_cluster_score", func="__calculate_within_cluster_score", params=P, ret="opt[real]", requires=WHOLE + ROW + INDEX,
    ensures=["(result is None) == (len(%s[index_cluster]) == 1)" % CL, "result is None or result == dsum(difference, {0}[index_cluster], len({0}[index_cluster])) / (len({0}[index_cluster]) - 1)".format(CL)],
    uses=["silhouette.calculate_cluster_difference"], **SI),
 Contract("silhouette.calculate_cluster_score", func="__calculate_cluster_score", params=P, ret="real", requires=WHOLE + ROW + INDEX,
    ensures=["result == avgd(difference, %s[index_cluster])" % CL], uses=["silhouette.calculate_cluster_difference"], **SI),
 Contract("silhouette.optimal_neighbor_cluster_score", func="__caclulate_optimal_neighbor_cluster_score", params=P, ret="real", requires=WHOLE + ROW + INDEX + [FIN("difference")],
    ensures=["result == ite(len({0}) == 1, -1, bmin(difference, {0}, index_cluster, len({0})))".format(CL)],
    invariants=["optimal_score == bmin(difference, %s, index_cluster, _k)" % CL, "(optimal_score < INF) == (_k > 1 or (_k == 1 and index_cluster > 0))"], uses=["silhouette.calculate_cluster_score"], **SI),
] + [
 Contract("silhouette.calculate_dataset_difference(%s)" % u, func="__calculate_dataset_difference", params={"index_point": "int"}, ret="point", requires=["0 <= index_point and index_point < len(%s)" % D],
    ensures=["len(result) == len(%s)" % D, "forall(lambda j: implies(0 <= j and j < len(result), result[j] == metric({0}[j], {0}[index_point])))".format(D)] + (["result == mrow({0}, {0}[index_point])".format(D)] if u == "named" else []),
    **dict(SI, consts={USER: u == "named"})) for u in ("named", "user")
]
A = "dsum({2}, {0}[{1}], len({0}[{1}])) / (len({0}[{1}]) - 1)"
ROWS = {"points": "mrow(%s, %s[{i}])" % (D, D), "matrix": "%s[{i}]" % D}


def score_of(t, i, c):
    a, b = A.format(CL, c, ROWS[t].format(i=i)), "bmin({0}, {1}, {2}, len({1}))".format(ROWS[t].format(i=i), CL, c)
    return "({1} - {0}) / max({0}, {1})".format(a, b), "max(%s, %s) > 0" % (a, b), FIN(ROWS[t].format(i=i))


SQUARE = "forall(lambda i: implies(0 <= i and i < len({0}), len({0}[i]) == len({0})))".format(D)
for t in ("points", "matrix"):
    sq = [SQUARE] if t == "matrix" else []
    val, defined, fin = score_of(t, "index_point", "index_cluster")
    CONTRACTS.append(Contract("silhouette.calculate_score(%s)" % t, func="__calculate_score", params={"index_point": "int", "index_cluster": "int"}, ret="real",
        requires=WHOLE + INDEX + sq + ["0 <= index_point and index_point < len(%s)" % D, "len(%s[index_cluster]) > 1" % CL, "len(%s) > 1" % CL, fin, defined], ensures=["result == " + val],
        uses=["silhouette.calculate_within_cluster_score", "silhouette.optimal_neighbor_cluster_score", "silhouette.calculate_dataset_difference(named)"],
        **dict(SI, consts={"nan": "none", "self.__data_type == 'points'": t == "points"})))
    val, defined, fin = score_of(t, "%s[g][h]" % CL, "g")
    vx, dx, fx = score_of(t, "x", "c")
    CONTRACTS.append(Contract("silhouette.process(%s)" % t, func="__process_by_python", modifies=["self.__score"], group=Group(ghost={"g": "int", "h": "int"}),
        requires=WHOLE + sq + ["len(%s) > 1" % CL, "forall(lambda c: implies(0 <= c and c < len({0}), len({0}[c]) > 1))".format(CL), "len(self.__score) == len(%s)" % D,
                  "0 <= g and g < len({0}) and 0 <= h and h < len({0}[g])".format(CL), "forall(lambda c, j: implies(0 <= c and c < len({0}) and 0 <= j and j < len({0}[c]) and {0}[c][j] == {0}[g][h], c == g and j == h))".format(CL),
                  "forall(lambda x: implies(0 <= x and x < len(%s), %s))" % (D, fx), "forall(lambda x, c: implies(0 <= x and x < len(%s) and 0 <= c and c < len(%s), %s))" % (D, CL, dx)],
        ensures=["self.__score[%s[g][h]] == %s" % (CL, val), "len(self.__score) == len(%s)" % D],
        invariants=["len(self.__score) == len(%s)" % D, "@0: implies(g < _k, self.__score[%s[g][h]] == %s)" % (CL, val), "@1: implies(g < _k0 or (g == _k0 and h < _k), self.__score[%s[g][h]] == %s)" % (CL, val)],
        uses=["silhouette.calculate_score(%s)" % t], **dict(SI, consts={"nan": "none"})))

SC, AM, BEST = "self.__scores", "self.__amount", "self.__score"
FOUND = lambda hi: ["forall(lambda k: implies(self.__kmin <= k and k < %s, k in %s))" % (hi, SC), "forall(lambda k: implies(k in %s, self.__kmin <= k and k < %s))" % (SC, hi),
                    "forall(lambda k: implies(self.__kmin <= k and k < %s and %s[k] is not None, %s[k] <= %s))" % (hi, SC, SC, BEST),
                    "(%s == -1 and %s == -1) or (self.__kmin <= %s and %s < %s and %s[%s] == %s)" % (AM, BEST, AM, AM, hi, SC, AM, BEST)]
CONTRACTS.append(Contract("silhouette_ksearch.process", func="__process_by_python", file=S, cls="silhouette_ksearch", modifies=[SC, AM, BEST], consts={"nan": "none"},
    self_={"__data": "points", "__kmin": "int", "__kmax": "int", "__amount": "int", "__score": "real", "__scores": "dict[int,opt[real]]"},
    requires=["self.__kmin > 1", "self.__kmin <= self.__kmax", "%s == -1" % AM, "%s == -1" % BEST], ensures=FOUND("self.__kmax"), invariants=FOUND("self.__kmin + _k"),
    calls={"self.__calculate_clusters": {"args": ["int"], "ret": "list[list[int]]", "doc": "clusters of a k-means, k-medians or k-medoids run (C01)"},
           "silhouette": {"args": ["points", "list[list[int]]"], "ret": "silo", "doc": "silhouette object"}, "*.process": {"args": ["silo"], "recv": True, "ret": "silo", "doc": "silhouette.process (proved above)"},
           "*.get_score": {"args": ["silo"], "recv": True, "ret": "point", "ensures": ["len(result) > 0"], "doc": "silhouette.get_score: one number per point"}}))

W, EL = "self.__wce", "self.__elbows"
EB = dict(file=E, cls="elbow", self_={"__wce": "point", "__elbows": "point", "__kvalue": "int", "__kmin": "int", "__kmax": "int", "__kstep": "int", "__data": "points", "__random_state": "int"})
CONTRACTS += [
 Contract("elbow.calculate_elbows", func="__calculate_elbows", modifies=[EL], requires=["len(%s) >= 3" % W, "len(%s) == 0" % EL],
    ensures=["len(%s) == len(%s) - 2" % (EL, W),
             # the distance of the point (i + 1, wce[i + 1]) from the line through the first and the last point
             "forall(lambda i: implies(0 <= i and i < len({1}), {1}[i] >= 0 and {1}[i] * math.sqrt((len({0}) - 1) ** 2 + ({0}[len({0}) - 1] - {0}[0]) ** 2) == "
             "abs(({0}[0] - {0}[len({0}) - 1]) * (i + 1) + (len({0}) - 1) * {0}[i + 1] - (len({0}) - 1) * {0}[0])))".format(W, EL)],
    invariants=["len(%s) == _k" % EL, "forall(lambda i: implies(0 <= i and i < _k, {1}[i] >= 0 and {1}[i] * math.sqrt((len({0}) - 1) ** 2 + ({0}[len({0}) - 1] - {0}[0]) ** 2) == "
             "abs(({0}[0] - {0}[len({0}) - 1]) * (i + 1) + (len({0}) - 1) * {0}[i + 1] - (len({0}) - 1) * {0}[0])))".format(W, EL)], **EB),
 Contract("elbow.find_optimal_kvalue", func="__find_optimal_kvalue", modifies=["self.__kvalue"], requires=["len(%s) > 0" % EL],
    ensures=["exists(lambda e: 0 <= e and e < len({0}) and self.__kvalue == (e + 1) * self.__kstep + self.__kmin and forall(lambda i: implies(0 <= i and i < len({0}), {0}[i] <= {0}[e])))".format(EL)], **EB),
]

# C++
XC, XD, XS = "self.m_clusters", "self.m_data", "self.result_score"
X = dict(file="ccore/src/cluster/silhouette.cpp", cls="silhouette", lang="cpp", spec=dict(MET, **SIL), calls={"self.m_metric": METRIC}, consts={"nan": "none", "enum.POINTS": 0, "enum.DISTANCE_MATRIX": 1},
         self_={"m_clusters": "list[list[int]]", "m_data": "points", "m_type": "int", "result_score": "point", "m_result": "silhouette_data"},
         cpp={"accessors": {"m_result.get_score": "result_score"}, "types": {"silhouette_data": "silhouette_data", "data_t": "int"}, "signature": {"process": "data_t"}})
XP = {"p_index_cluster": "int", "p_dataset_difference": "point"}
x_ = lambda l: [c.replace(CL, XC).replace(D, XD).replace("difference", "p_dataset_difference").replace("index_cluster", "p_index_cluster") if isinstance(c, str) else c for c in l]
XW = x_(WHOLE + ROW + INDEX)
XSQ = ["self.m_type == 1"] + x_([SQUARE])
XA = A.format(XC, "p_index_cluster", "%s[p_index_point]" % XD)
XB = "bmin({1}[p_index_point], {0}, p_index_cluster, len({0}))".format(XC, XD)
XN = "p_dataset_difference"
CONTRACTS += [
 Contract("cpp.silhouette.calculate_cluster_difference", func="calculate_cluster_difference", params=XP, ret="real", requires=XW,
    ensures=["result == dsum({1}, {0}[p_index_cluster], len({0}[p_index_cluster]))".format(XC, XN)], invariants=["cluster_difference == dsum(%s, %s[p_index_cluster], _k)" % (XN, XC)], **X),
 Contract("cpp.silhouette.calculate_within_cluster_score", func="calculate_within_cluster_score", params=XP, ret="opt[real]", requires=XW,
    ensures=["(result is None) == (len(%s[p_index_cluster]) == 1)" % XC, "result is None or result == dsum({1}, {0}[p_index_cluster], len({0}[p_index_cluster])) / (len({0}[p_index_cluster]) - 1)".format(XC, XN)],
    uses=["cpp.silhouette.calculate_cluster_difference"], **X),
 Contract("cpp.silhouette.calculate_cluster_score", func="calculate_cluster_score", params=XP, ret="real", requires=XW, ensures=["result == avgd(%s, %s[p_index_cluster])" % (XN, XC)],
    uses=["cpp.silhouette.calculate_cluster_difference"], **X),
 Contract("cpp.silhouette.optimal_neighbor_cluster_score", func="caclulate_optimal_neighbor_cluster_score", params=XP, ret="real", requires=XW + [FIN(XN).replace(CL, XC)],
    ensures=["result == bmin({1}, {0}, p_index_cluster, len({0}))".format(XC, XN)],
    invariants=["optimal_score == bmin(%s, %s, p_index_cluster, _k)" % (XN, XC), "index_neighbor_cluster == _k", "index_neighbor_cluster <= len(%s)" % XC], uses=["cpp.silhouette.calculate_cluster_score"], **X),
 Contract("cpp.silhouette.calculate_dataset_difference", func="calculate_dataset_difference", params={"p_index_point": "int", XN: "point"}, modifies=[XN],
    requires=["0 <= p_index_point and p_index_point < len(%s)" % XD, "len(%s) == 0" % XN, "self.m_type == 0 or self.m_type == 1", "implies(self.m_type == 1, %s)" % x_([SQUARE])[0]],
    ensures=["len(%s) == len(%s)" % (XN, XD), "implies(self.m_type == 1, %s == %s[p_index_point])" % (XN, XD), "implies(self.m_type == 0, forall(lambda j: implies(0 <= j and j < len({0}), {0}[j] == metric({1}[p_index_point], {1}[j]))))".format(XN, XD)],
    invariants=["len(%s) == _k" % XN, "forall(lambda j: implies(0 <= j and j < _k, {0}[j] == metric({1}[p_index_point], {1}[j])))".format(XN, XD)], **X),
 Contract("cpp.silhouette.calculate_score", func="calculate_score", params={"p_index_point": "int", "p_index_cluster": "int"}, ret="real",
    requires=XSQ + x_(WHOLE + INDEX) + ["0 <= p_index_point and p_index_point < len(%s)" % XD, "len(%s[p_index_cluster]) > 1" % XC, FIN("%s[p_index_point]" % XD).replace(CL, XC), "max(%s, %s) > 0" % (XA, XB)],
    ensures=["result == ({1} - {0}) / max({0}, {1})".format(XA, XB)],
    uses=["cpp.silhouette.calculate_within_cluster_score", "cpp.silhouette.optimal_neighbor_cluster_score", "cpp.silhouette.calculate_dataset_difference"], **X),
]
