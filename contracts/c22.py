from vc.contract import Contract
from .common import *

U = "pyclustering/utils/__init__.py"
SQ = {"sqd": (["point", "point", "int"], "real", ["lambda a, b, k, r: ite(k <= 0, r == 0, r == sqd(a, b, k - 1) + (a[k - 1] - b[k - 1]) * (a[k - 1] - b[k - 1]))", "lambda a, b, k, r: r >= 0"])}
CONTRACTS = []
TY = {"type(list_vector[0]) == list": True}

DOT = {"dot": (["point", "point", "int"], "real", ["lambda a, b, k, r: ite(k <= 0, r == 0, r == dot(a, b, k - 1) + a[k - 1] * b[k - 1])"])}

# element-wise list arithmetic
for f, op, num in (("list_math_subtraction", "-", 0), ("list_math_substraction_number", "-", 1), ("list_math_addition", "+", 0), ("list_math_addition_number", "+", 1),
                   ("list_math_division_number", "/", 1), ("list_math_division", "/", 0), ("list_math_multiplication_number", "*", 1), ("list_math_multiplication", "*", 0)):
    req = ([] if num else ["len(b) >= len(a)"])
    kw = {}
    more = []
    if op == "/":
        req.append("b != 0" if num else "forall(lambda i: implies(0 <= i and i < len(a), b[i] != 0))")
    if f == "list_math_multiplication":
        kw = dict(spec=DOT, measures={"sum": ("point", "sum")}, invariants=["mu('sum', _comp) == dot(a, b, _k)"])
        more = ["mu('sum', result) == dot(a, b, len(a))"]
    CONTRACTS.append(Contract("utils." + f, U, f, params={"a": "point", "b": "real" if num else "point"}, ret="point", requires=req,
        ensures=["len(result) == len(a)", "forall(lambda i: implies(0 <= i and i < len(a), result[i] == a[i] %s %s))" % (op, "b" if num else "b[i]")] + more, **kw))

CONTRACTS += [
 Contract("utils.linear_sum(points)", U, "linear_sum", params={"list_vector": "points"}, ret="point", consts=TY, locals={"linear_sum": "point"},
    requires=["len(list_vector) > 0", "forall(lambda i: implies(0 <= i and i < len(list_vector), len(list_vector[i]) == len(list_vector[0])))"],
    spec={"colsum": (["points", "int", "int"], "real", ["lambda l, j, k, r: ite(k <= 0, r == 0, r == colsum(l, j, k - 1) + l[k - 1][j])"])},
    ensures=["len(result) == len(list_vector[0])", "forall(lambda j: implies(0 <= j and j < len(result), result[j] == colsum(list_vector, j, len(list_vector))))"],
    invariants=["len(linear_sum) == dimension", "forall(lambda j: implies(0 <= j and j < dimension, linear_sum[j] == colsum(list_vector, j, _k)))",
                "forall(lambda j: implies(0 <= j and j < dimension, linear_sum[j] == colsum(list_vector, j, ite(j < _k, index_element + 1, index_element))))"]),
 Contract("utils.linear_sum(numbers)", U, "linear_sum", params={"list_vector": "point"}, ret="real", consts={"type(list_vector[0]) == list": False}, locals={"linear_sum": "real"},
    requires=["len(list_vector) > 0"], spec={"nsum": (["point", "int"], "real", ["lambda l, k, r: ite(k <= 0, r == 0, r == nsum(l, k - 1) + l[k - 1])"])},
    ensures=["result == nsum(list_vector, len(list_vector))"], invariants=["linear_sum == nsum(list_vector, _k)"]),
 Contract("utils.square_sum(points)", U, "square_sum", params={"list_vector": "points"}, ret="real", consts=TY, uses=["utils.list_math_multiplication"],
    requires=["len(list_vector) > 0"], measures={"sum": ("point", "sum")},
    spec=dict(DOT, sqs=(["points", "int"], "real", ["lambda l, k, r: ite(k <= 0, r == 0, r == sqs(l, k - 1) + dot(l[k - 1], l[k - 1], len(l[k - 1])))"])),
    ensures=["result == sqs(list_vector, len(list_vector))"], invariants=["square_sum == sqs(list_vector, _k)"]),
 Contract("utils.square_sum(numbers)", U, "square_sum", params={"list_vector": "point"}, ret="real", consts={"type(list_vector[0]) == list": False},
    requires=["len(list_vector) > 0"],
    spec={"sqn": (["point", "int"], "real", ["lambda a, k, r: ite(k <= 0, r == 0, r == sqn(a, k - 1) + a[k - 1] * a[k - 1])"])},
    ensures=["result == sqn(list_vector, len(list_vector))"], invariants=["square_sum == sqn(list_vector, _k)"]),
 Contract("utils.data_corners", U, "data_corners", params={"data": "points"}, ret="tuple[point, point]",
    requires=["len(data) > 0", "forall(lambda i: implies(0 <= i and i < len(data), len(data[i]) == len(data[0])))"],
    ensures=["len(result[0]) == len(data[0])", "len(result[1]) == len(data[0])",
             "forall(lambda i, j: implies(0 <= i and i < len(data) and 0 <= j and j < len(data[0]), result[0][j] <= data[i][j] and data[i][j] <= result[1][j]))",
             "forall(lambda j: implies(0 <= j and j < len(data[0]), exists(lambda i: 0 <= i and i < len(data) and result[0][j] == data[i][j])))",
             "forall(lambda j: implies(0 <= j and j < len(data[0]), exists(lambda i: 0 <= i and i < len(data) and result[1][j] == data[i][j])))"],
    invariants=["len(minimum_corner) == dimensions", "len(maximum_corner) == dimensions",
                "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < dimensions, minimum_corner[j] <= data[i][j]))",
                "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < dimensions, maximum_corner[j] >= data[i][j]))",
                "forall(lambda i, j: implies(0 <= i and i < _k0 and 0 <= j and j < dimensions, minimum_corner[j] <= data[i][j]))",
                "forall(lambda i, j: implies(0 <= i and i < _k0 and 0 <= j and j < dimensions, maximum_corner[j] >= data[i][j]))",
                "forall(lambda j: implies(0 <= j and j < _k, minimum_corner[j] <= data[index_point][j]))",
                "forall(lambda j: implies(0 <= j and j < _k, maximum_corner[j] >= data[index_point][j]))",
                "forall(lambda j: implies(0 <= j and j < dimensions, exists(lambda i: 0 <= i and i < len(data) and minimum_corner[j] == data[i][j])))",
                "forall(lambda j: implies(0 <= j and j < dimensions, exists(lambda i: 0 <= i and i < len(data) and maximum_corner[j] == data[i][j])))"]),
 Contract("utils.find_left_element", U, "find_left_element", params={"sorted_data": "point", "right": "int", "comparator": "fun[less]"}, ret="int",
    calls={"less": {"args": ["real", "real"], "ret": "bool", "fn": "less", "ensures": ["result == (a0 < a1)"], "doc": "comparator: the strict order the list is sorted by"}},
    requires=["0 <= right and right < len(sorted_data)", "forall(lambda i, j: implies(0 <= i and i <= j and j <= right, sorted_data[i] <= sorted_data[j]))"],
    ensures=["0 <= result and result <= right", "sorted_data[result] == sorted_data[right]", "forall(lambda i: implies(0 <= i and i < result, sorted_data[i] < sorted_data[right]))"],
    invariants=["0 <= left and left <= right and right <= old(right)", "middle == left + (right - left) // 2", "sorted_data[right] == target",
                "forall(lambda i: implies(0 <= i and i < left, sorted_data[i] < target))"]),
 Contract("utils.euclidean_distance_square", U, "euclidean_distance_square", params={"a": "point", "b": "point"}, ret="real", spec=SQ,
    consts={"type(a) == float": False, "type(a) == int": False, "type(b) == float": False, "type(b) == int": False}, requires=["len(b) >= len(a)"],
    ensures=["result == sqd(a, b, len(a))", "result >= 0"], invariants=["distance == sqd(a, b, _k)"]),
 Contract("utils.manhattan_distance", U, "manhattan_distance", params={"a": "point", "b": "point"}, ret="real",
    spec={"absd": (["point", "point", "int"], "real", ["lambda a, b, k, r: ite(k <= 0, r == 0, r == absd(a, b, k - 1) + abs(a[k - 1] - b[k - 1]))"])},
    consts={"type(a) == float": False, "type(a) == int": False, "type(b) == float": False, "type(b) == int": False}, requires=["len(b) >= len(a)"],
    ensures=["result == absd(a, b, len(a))"], invariants=["distance == absd(a, b, _k)"]),
]

# distances between clusters (points given directly or by index)
SQ1 = dict(SQ, d2="lambda a, b: sqd(a, b, len(a))")
DIM = "forall(lambda i: implies(0 <= i and i < len(%s), len(%s[i]) == %s))"
IDX = "forall(lambda i: implies(0 <= i and i < len(%s), 0 <= %s[i] and %s[i] < len(data)))"
for var in ("points", "indexes"):
    by = var == "indexes"
    P = {"cluster1": "list[int]" if by else "points", "cluster2": "list[int]" if by else "points", "data": "points" if by else "none"}
    CT = P["cluster1"]
    D = ["points"] if by else []
    dn, da = ("data, ", "data, ") if by else ("", "")
    at = (lambda c, i: "data[%s[%s]]" % (c, i)) if by else (lambda c, i: "%s[%s]" % (c, i))
    dim = "len(data[0])" if by else "len(cluster1[0])"
    req = ["len(cluster1) > 0", "len(cluster2) > 0"] + ([IDX % (("cluster1",) * 3), IDX % (("cluster2",) * 3), "len(data) > 0", DIM % ("data", "data", dim)] if by else
                                                     [DIM % ("cluster1", "cluster1", dim), DIM % ("cluster2", "cluster2", dim)])
    sp = dict(SQ1,
        rowd=(D + ["point", CT, "int"], "real", ["lambda %sx, c, k, r: ite(k <= 0, r == 0, r == rowd(%sx, c, k - 1) + d2(x, %s))" % (dn, da, at("c", "k - 1"))]),
        tot=(D + [CT, CT, "int"], "real", ["lambda %sa, b, k, r: ite(k <= 0, r == 0, r == tot(%sa, b, k - 1) + rowd(%s%s, b, len(b)))" % (dn, da, da, at("a", "k - 1"))]))
    CONTRACTS.append(Contract("utils.average_inter_cluster_distance(%s)" % var, U, "average_inter_cluster_distance", params=P, ret="real", uses=["utils.euclidean_distance_square"], spec=sp,
        requires=req,
        ensures=["result >= 0", "result * result * (len(cluster1) * len(cluster2)) == tot(%scluster1, cluster2, len(cluster1))" % da],
        invariants=["distance >= 0", "distance == tot(%scluster1, cluster2, _k)" % da, "distance == tot(%scluster1, cluster2, _k0) + rowd(%s%s, cluster2, _k)" % (da, da, at("cluster1", "_k0"))]))
    # within the union
    U2 = "ite(%s < len(a), %s, %s)"
    un = lambda i: U2 % (i, at("a", i), at("b", "%s - len(a)" % i))
    un2 = lambda i: un(i).replace("(a)", "(cluster1)").replace("a[", "cluster1[").replace("b[", "cluster2[").replace("datcluster1[", "data[")
    sp = dict(SQ1,
        urow=(D + ["point", CT, CT, "int"], "real", ["lambda %sx, a, b, k, r: ite(k <= 0, r == 0, r == urow(%sx, a, b, k - 1) + d2(x, %s))" % (dn, da, un("(k - 1)"))]),
        utot=(D + [CT, CT, "int"], "real", ["lambda %sa, b, k, r: ite(k <= 0, r == 0, r == utot(%sa, b, k - 1) + urow(%s%s, a, b, len(a) + len(b)))" % (dn, da, da, un("(k - 1)"))]))
    CONTRACTS.append(Contract("utils.average_intra_cluster_distance(%s)" % var, U, "average_intra_cluster_distance", params=P, ret="real", uses=["utils.euclidean_distance_square"], spec=sp,
        requires=req,
        ensures=["result >= 0", "result * result * ((len(cluster1) + len(cluster2)) * (len(cluster1) + len(cluster2) - 1)) == utot(%scluster1, cluster2, len(cluster1) + len(cluster2))" % da],
        invariants=["distance >= 0", "distance == utot(%scluster1, cluster2, _k)" % da, "distance == utot(%scluster1, cluster2, _k0) + urow(%s%s, cluster1, cluster2, _k)" % (da, da, un2("_k0"))]))
    sp = dict(SQ1,
        csum=(D + [CT, "int", "int"], "real", ["lambda %sc, j, k, r: ite(k <= 0, r == 0, r == csum(%sc, j, k - 1) + %s[j])" % (dn, da, at("c", "k - 1"))]),
        dev=(D + [CT, "point", "int"], "real", ["lambda %sc, m, k, r: ite(k <= 0, r == 0, r == dev(%sc, m, k - 1) + d2(%s, m))" % (dn, da, at("c", "k - 1"))]))
    inv = []
    for c in ("1", "2"):
        inv += ["len(member_cluster%s) == %s" % (c, dim), "forall(lambda j: implies(0 <= j and j < %s, member_cluster%s[j] == csum(%scluster%s, j, _k)))" % (dim, c, da, c),
                "distance_cluster%s == dev(%scluster%s, member_cluster%s, _k)" % (c, da, c, c)]
    inv += ["distance_general == dev(%scluster1, member_cluster_general, _k)" % da, "distance_general == dev(%scluster1, member_cluster_general, len(cluster1)) + dev(%scluster2, member_cluster_general, _k)" % (da, da)]
    CONTRACTS.append(Contract("utils.variance_increase_distance(%s)" % var, U, "variance_increase_distance", params=P, ret="real",
        uses=["utils.euclidean_distance_square", "utils.list_math_addition", "utils.list_math_division_number"], spec=sp, requires=req,
        ensures=["result == dev(%scluster1, member_cluster_general, len(cluster1)) + dev(%scluster2, member_cluster_general, len(cluster2)) - dev(%scluster1, member_cluster1, len(cluster1)) - dev(%scluster2, member_cluster2, len(cluster2))" % (da, da, da, da)] +
                ["forall(lambda j: implies(0 <= j and j < %s, member_cluster%s[j] * len(cluster%s) == csum(%scluster%s, j, len(cluster%s))))" % (dim, c, c, da, c, c) for c in ("1", "2")] +
                ["forall(lambda j: implies(0 <= j and j < %s, member_cluster_general[j] * (len(cluster1) + len(cluster2)) == csum(%scluster1, j, len(cluster1)) + csum(%scluster2, j, len(cluster2))))" % (dim, da, da)],
        invariants=inv))
CONTRACTS += [
 Contract("utils.norm_vector", U, "norm_vector", params={"vector": "point"}, ret="real", spec=DOT,
    ensures=["result >= 0", "result * result == dot(vector, vector, len(vector))"], invariants=["length >= 0", "length == dot(vector, vector, _k)"]),
 Contract("utils.calculate_distance_matrix", U, "calculate_distance_matrix", params={"sample": "points", "metric": "fun[metric]"}, ret="points", calls={"metric": METRIC}, spec={"metric": (["point", "point"], "real")},
    ensures=["len(result) == len(sample)", "forall(lambda i: implies(0 <= i and i < len(sample), len(result[i]) == len(sample)))",
             "forall(lambda i, j: implies(0 <= i and i < len(sample) and 0 <= j and j < len(sample), result[i][j] == metric(sample[i], sample[j])))"],
    invariants=["forall(lambda i: implies(0 <= i and i < _k, len(_comp[i]) == len(sample)))",
                "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < len(sample), _comp[i][j] == metric(sample[i], sample[j])))"]),
]
