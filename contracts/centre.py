"""Contracts of the centre-based algorithms (C01, C02, C03)."""
from vc.contract import Contract
from .common import *

USER = "self.__metric.get_type() != type_metric.USER_DEFINED"
SIZ = Group(measures={"siz": ("list[int]", "one", 2)})
KM = dict(file="pyclustering/cluster/kmeans.py", cls="kmeans", group=PART, spec=MET, calls={"self.__metric": METRICS},
          self_={"__pointer_data": "points", "__centers": "points", "__clusters": "list[list[int]]", "__total_wce": "real"})


def kmeans_differences():
    return [Contract("kmeans.calculate_dataset_difference(%s)" % u, func="__calculate_dataset_difference", params={"amount_clusters": "int"}, ret="points",
        requires=["0 <= amount_clusters and amount_clusters <= len(self.__centers)"],
        ensures=["len(result) == amount_clusters", "forall(lambda i: implies(0 <= i and i < amount_clusters, len(result[i]) == len(self.__pointer_data)))",
                 "forall(lambda i, j: implies(0 <= i and i < amount_clusters and 0 <= j and j < len(self.__pointer_data), result[i][j] == metric(self.__pointer_data[j], self.__centers[i])))"],
        invariants=["len(dataset_differences) == amount_clusters", "forall(lambda i: implies(0 <= i and i < amount_clusters, len(dataset_differences[i]) == len(self.__pointer_data)))",
                    "forall(lambda j: implies(0 <= j and j < _k, _comp[j] == metric(self.__pointer_data[j], self.__centers[index_center])))",
                    "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < len(self.__pointer_data), dataset_differences[i][j] == metric(self.__pointer_data[j], self.__centers[i])))"],
        consts={USER: u == "named"}, **KM) for u in ("named", "user")]


def kmeans_update_clusters(ensures):
    return Contract("kmeans.update_clusters", func="__update_clusters", ret="list[list[int]]", default_list="list[int]",
        requires=["len(self.__centers) > 0"], consts={USER: True}, ensures=ensures,
        invariants=["len(clusters) == len(self.__centers)", "cnt(clusters) == ite(0 <= p and p < _k, 1, 0)", "siz(clusters) == _k",
                    in_range2("clusters", "_k"), in_range2("_comp", "len(self.__pointer_data)")], **dict(KM, group=[PART, SIZ]))


#: an arbitrary coordinate q; colsum = sum of that coordinate over rows, csum = over the rows listed by an index list
COL = Group(ghost={"q": "int"}, measures={"colsum": ("points", "lambda x: x[q]", 1, {"real": True, "nonneg": False})})
CSUM = {"csum": (["points", "list[int]", "int"], "real", ["lambda d, c, k, r: ite(k <= 0, r == 0, r == csum(d, c, k - 1) + d[c[k - 1]][q])"])}
RECT = "forall(lambda i: implies(0 <= i and i < len(self.__pointer_data), len(self.__pointer_data[i]) == len(self.__pointer_data[0])))"


def kmeans_update_centers(exact):
    return Contract("kmeans.update_centers", func="__update_centers", ret="points",
        requires=["len(self.__pointer_data) > 0", RECT, nonempty("self.__clusters"), in_range2("self.__clusters", "len(self.__pointer_data)")],
        ensures=["len(result) == len(self.__clusters)", "forall(lambda i: implies(0 <= i and i < len(result), len(result[i]) == len(self.__pointer_data[0])))"] +
                (["implies(0 <= q and q < len(self.__pointer_data[0]), forall(lambda i: implies(0 <= i and i < len(result), result[i][q] * len(self.__clusters[i]) == csum(self.__pointer_data, self.__clusters[i], len(self.__clusters[i])))))"] if exact else []),
        invariants=["len(centers) == len(self.__clusters)", "forall(lambda i: implies(0 <= i and i < len(centers), len(centers[i]) == dimension))",
                    "forall(lambda i: implies(0 <= i and i < _k, len(_comp[i]) == len(self.__pointer_data[0])))"] +
                   (["mu('colsum', _comp) == csum(self.__pointer_data, self.__clusters[index], _k)",
                     "implies(0 <= q and q < dimension, forall(lambda i: implies(0 <= i and i < _k, centers[i][q] * len(self.__clusters[i]) == csum(self.__pointer_data, self.__clusters[i], len(self.__clusters[i])))))"] if exact else []),
        **dict(KM, group=[PART, COL] if exact else PART, spec=dict(MET, **CSUM) if exact else MET))


#: total within-cluster error: over the clusters, over their points, the distance to the centre of the cluster
WCE = {"crow": (["points", "point", "list[int]", "int"], "real", ["lambda d, c, l, k, r: ite(k <= 0, r == 0, r == crow(d, c, l, k - 1) + metric(d[l[k - 1]], c))"]),
       "wce": (["points", "points", "list[list[int]]", "int"], "real", ["lambda d, c, l, k, r: ite(k <= 0, r == 0, r == wce(d, c, l, k - 1) + crow(d, c[k - 1], l[k - 1], len(l[k - 1])))"])}


def total_wce(kw, name, centers, cond=None):
    D = "self.__pointer_data"
    return Contract(name + ".calculate_total_wce", func="__calculate_total_wce", modifies=["self.__total_wce"], consts={USER: True},
        requires=["len(self.__clusters) <= len(self.%s)" % centers, in_range2("self.__clusters", "len(self.__pointer_data)")],
        ensures=["self.__total_wce == wce(%s, self.%s, self.__clusters, len(self.__clusters))" % (D, centers)],
        invariants=["self.__total_wce == wce(%s, self.%s, self.__clusters, _k)" % (D, centers),
                    "self.__total_wce == wce(%s, self.%s, self.__clusters, _k0) + crow(%s, self.%s[_k0], self.__clusters[_k0], _k)" % (D, centers, D, centers)],
        **dict(kw, spec=dict(MET, **WCE)))


def predict(kw, name, centers, extra=(), **more):
    c = "self." + centers
    return Contract(name, func="predict", params={"points": "points"}, ret="list[int]", default_list="list[int]",
        requires=["implies(len(self.__clusters) > 0, len(%s) > 0)" % c] + list(extra),
        ensures=["implies(len(self.__clusters) == 0, len(result) == 0)", "implies(len(self.__clusters) > 0, len(result) == len(points))",
                 "forall(lambda i: implies(0 <= i and i < len(result), 0 <= result[i] and result[i] < len(%s)))" % c,
                 "forall(lambda i, j: implies(0 <= i and i < len(result) and 0 <= j and j < len(%s), metric(points[i], %s[result[i]]) <= metric(points[i], %s[j])))" % (c, c, c)],
        invariants=["len(differences) == len(points)", "forall(lambda i: implies(0 <= i and i < len(points), len(differences[i]) == len(%s)))" % c,
                    "forall(lambda j: implies(0 <= j and j < _k, _comp[j] == metric(points[index_point], %s[j])))" % c,
                    "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < len(%s), differences[i][j] == metric(points[i], %s[j])))" % (c, c)],
        **dict(kw, spec=MET, **more))


def kmeans_process(ensures, inv=()):
    return Contract("kmeans.process_by_python", func="__process_by_python", modifies=["self.__clusters", "self.__centers", "self.__total_wce"],
        consts={USER: True, "self.__observer is not None": False},
        requires=["len(self.__centers) > 0", "len(self.__pointer_data) > 0", RECT, "self.__itermax > 0", "self.__tolerance < INF"],
        uses=["kmeans.update_clusters", "kmeans.update_centers", "kmeans.calculate_changes", "kmeans.calculate_total_wce"],
        ensures=ensures,
        invariants=["iteration >= 0", "iteration > 0 or maximum_change == INF", "len(self.__centers) > 0", "implies(iteration > 0, cnt(self.__clusters) == ite(0 <= p and p < len(self.__pointer_data), 1, 0))",
                    "implies(iteration > 0, len(self.__clusters) > 0)",
                    "implies(iteration > 0, %s)" % nonempty("self.__clusters"), "implies(iteration > 0, len(self.__centers) == len(self.__clusters))",
                    "implies(iteration > 0, %s)" % in_range2("self.__clusters", "len(self.__pointer_data)"),
                    "implies(iteration > 0, len(self.__clusters) <= len(old(self.__centers)))", "len(self.__centers) <= len(old(self.__centers))"] + list(inv),
        **dict(KM, self_=dict(KM["self_"], __tolerance="real", __itermax="int")))


def kmeans_changes():
    return Contract("kmeans.calculate_changes", func="__calculate_changes", params={"updated_centers": "points"}, ret="real", consts={USER: True},
        requires=["len(updated_centers) > 0"], ensures=["result <= INF"], **KM)


KMED = dict(file="pyclustering/cluster/kmedians.py", cls="kmedians", self_={"__pointer_data": "points", "__medians": "points", "__clusters": "list[list[int]]", "__total_wce": "real"},
            calls={"self.__metric": METRICS, "self.__metric.enable_numpy_usage": {"args": [], "ret": "none"}, "self.__metric.disable_numpy_usage": {"args": [], "ret": "none"}}, group=PART)


def kmedians_update_clusters(ensures, nearest=False):
    m = "metric(self.__pointer_data[index_point], self.__medians[%s])"
    return Contract("kmedians.update_clusters", func="__update_clusters", ret="list[list[int]]", default_list="list[int]",
        requires=["len(self.__medians) > 0"], ensures=ensures, spec=MET,
        invariants=["len(clusters) == len(self.__medians)", "cnt(clusters) == ite(0 <= p and p < _k, 1, 0)", "cnt(clusters) == ite(0 <= p and p < index_point, 1, 0)",
                    "_k == 0 or (0 <= index_optim and index_optim < _k)",
                    "_k == 0 or dist_optim == " + m % "index_optim", "forall(lambda j: implies(0 <= j and j < _k, dist_optim <= %s))" % (m % "j")], **KMED)


def kmedians_differences():
    return [Contract("kmedians.calculate_dataset_difference(%s)" % u, func="__calculate_dataset_difference", params={"amount_clusters": "int"}, ret="points", spec=MET,
        requires=["0 <= amount_clusters and amount_clusters <= len(self.__medians)"],
        ensures=["len(result) == amount_clusters", "forall(lambda i: implies(0 <= i and i < amount_clusters, len(result[i]) == len(self.__pointer_data)))",
                 "forall(lambda i, j: implies(0 <= i and i < amount_clusters and 0 <= j and j < len(self.__pointer_data), result[i][j] == metric(self.__pointer_data[j], self.__medians[i])))"],
        invariants=["len(dataset_differences) == amount_clusters", "forall(lambda i: implies(0 <= i and i < amount_clusters, len(dataset_differences[i]) == len(self.__pointer_data)))",
                    "forall(lambda j: implies(0 <= j and j < _k, _comp[j] == metric(self.__pointer_data[j], self.__medians[index_center])))",
                    "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < len(self.__pointer_data), dataset_differences[i][j] == metric(self.__pointer_data[j], self.__medians[i])))"],
        consts={USER: u == "named"}, **KMED) for u in ("named", "user")]


EUC = {"args": ["point", "point"], "ret": "real", "fn": "metric", "doc": "euclidean_distance_square (proved in C11/C22)"}
CLR = dict(file="pyclustering/cluster/clarans.py", cls="clarans", group=PART, spec=MET,
    self_={"__pointer_data": "points", "__clusters": "list[list[int]]", "__belong": "list[int]", "__current": "list[int]", "__number_clusters": "int", "__maxneighbor": "int", "__numlocal": "int",
           "__optimal_medoids": "list[int]", "__optimal_estimation": "real"},
    calls={"euclidean_distance_square": EUC,
           "random.randint": {"args": ["int", "int"], "ret": "int", "requires": ["a0 <= a1"], "ensures": ["a0 <= result and result <= a1"], "doc": "random.randint"},
           "random.sample": {"args": ["list[int]", "int"], "ret": "list[int]", "requires": ["0 <= a1 and a1 <= len(a0)"], "doc": "random.sample",
                             "ensures": ["len(result) == a1", "forall(lambda i: implies(0 <= i and i < len(result), exists(lambda j: 0 <= j and j < len(a0) and result[i] == a0[j])))",
                                         "forall(lambda i, j: implies(0 <= i and i < j and j < len(result), result[i] != result[j]))"]}})
MEDS = lambda m: "forall(lambda j: implies(0 <= j and j < len(%s), 0 <= %s[j] and %s[j] < len(self.__pointer_data)))" % (m, m, m)
DIST = lambda m: "forall(lambda i, j: implies(0 <= i and i < j and j < len(%s), %s[i] != %s[j]))" % (m, m, m)


def clarans_update_clusters():
    m = "metric(self.__pointer_data[index_point], self.__pointer_data[medoids[%s]])"
    return Contract("clarans.update_clusters", func="__update_clusters", params={"medoids": "list[int]"}, default_list="list[int]", modifies=["self.__clusters", "self.__belong"],
        requires=["len(medoids) > 0", MEDS("medoids")],
        ensures=[partition("self.__clusters", "len(self.__pointer_data)"), nonempty("self.__clusters"), "len(self.__clusters) <= len(medoids)", "len(self.__belong) == len(self.__pointer_data)",
                 "forall(lambda i: implies(0 <= i and i < len(self.__belong), 0 <= self.__belong[i] and self.__belong[i] < len(medoids)))",
                 "forall(lambda i, j: implies(0 <= i and i < len(self.__belong) and 0 <= j and j < len(medoids), metric(self.__pointer_data[i], self.__pointer_data[medoids[self.__belong[i]]]) <= metric(self.__pointer_data[i], self.__pointer_data[medoids[j]])))"],
        invariants=["len(self.__clusters) == len(medoids)", "cnt(self.__clusters) == ite(0 <= p and p < _k, 1, 0)", "cnt(self.__clusters) == ite(0 <= p and p < index_point, 1, 0)",
                    "len(self.__belong) == len(self.__pointer_data)", "_k == 0 or (0 <= index_optim and index_optim < _k)",
                    "forall(lambda i: implies(0 <= i and i < _k, 0 <= self.__belong[i] and self.__belong[i] < len(medoids)))",
                    "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < len(medoids), metric(self.__pointer_data[i], self.__pointer_data[medoids[self.__belong[i]]]) <= metric(self.__pointer_data[i], self.__pointer_data[medoids[j]])))",
                    "_k == 0 or dist_optim == " + m % "index_optim", "forall(lambda j: implies(0 <= j and j < _k, dist_optim <= %s))" % (m % "j")], **CLR)


def clarans_optimize():
    CUR = "self.__current"
    return [Contract("clarans.calculate_estimation", func="__calculate_estimation", params={"medoids": "list[int]"}, ret="real", requires=["len(medoids) > 0", MEDS("medoids")], ensures=[], **CLR),
            Contract("clarans.optimize_configuration", func="__optimize_configuration", modifies=["self.__clusters", "self.__belong", CUR],
        requires=["self.__number_clusters > 0", "len(self.__current) == self.__number_clusters", MEDS(CUR), DIST(CUR)],
        ensures=["len(self.__current) == self.__number_clusters", MEDS(CUR), DIST(CUR)],
        invariants=["len(self.__current) == self.__number_clusters", MEDS(CUR), DIST(CUR), "0 <= candidate_medoid_index and candidate_medoid_index < len(self.__pointer_data)"], **CLR),
            Contract("clarans.process", func="process", modifies=["self.__clusters", "self.__belong", CUR, "self.__optimal_medoids", "self.__optimal_estimation"], ret="none",
        requires=["self.__number_clusters > 0", "self.__number_clusters <= len(self.__pointer_data)", "len(self.__pointer_data) > 0", "self.__numlocal > 0", "self.__optimal_estimation == INF", "len(self.__optimal_medoids) == 0"],
        ensures=["len(self.__optimal_medoids) == self.__number_clusters", MEDS("self.__optimal_medoids"), DIST("self.__optimal_medoids"), partition("self.__clusters", "len(self.__pointer_data)")],
        invariants=["_k == 0 or len(self.__optimal_medoids) == self.__number_clusters", "_k > 0 or self.__optimal_estimation == INF", MEDS("self.__optimal_medoids"), DIST("self.__optimal_medoids")],
        **dict(CLR, calls=dict(CLR["calls"], **{"self.__calculate_estimation": {"args": ["list[int]"], "ret": "real", "requires": ["len(a0) > 0", MEDS("a0")], "ensures": ["result < INF"],
                                                                               "doc": "clarans.__calculate_estimation: a sum of finite distances stays finite"}})))]


PTS = dict(file="pyclustering/cluster/kmedoids.py", cls="kmedoids", group=PART, spec={"dst": (["int", "int"], "real", ["lambda a, b, r: r >= 0 and r < INF"])},
    calls={"self.__distance_calculator": {"args": ["int", "int"], "ret": "real", "fn": "dst", "requires": ["0 <= a0 and a0 < len(self.__pointer_data) and 0 <= a1 and a1 < len(self.__pointer_data)"],
                                          "ensures": ["result >= 0", "result < INF"], "doc": "distance between two objects, by points or by matrix"}},
    self_={"__pointer_data": "points", "__clusters": "list[list[int]]", "__medoid_indexes": "list[int]", "__labels": "list[int]", "__distance_first_medoid": "point", "__distance_second_medoid": "point"})
N = "len(self.__pointer_data)"
SIZES = ["len(self.__labels) == " + N, "len(self.__distance_first_medoid) == " + N, "len(self.__distance_second_medoid) == " + N]
DEV = {"devs": (["list[int]", "list[int]", "int"], "real", ["lambda m, l, k, r: ite(k <= 0, r == 0, r == devs(m, l, k - 1) + dst(k - 1, m[l[k - 1]]))"])}


def kmedoids_update_clusters():
    lab = "self.__labels"
    m = "dst(index_point, self.__medoid_indexes[%s])"
    return Contract("kmedoids.update_clusters", func="__update_clusters", ret="real", default_list="list[int]", modifies=["self.__clusters", "self.__labels", "self.__distance_first_medoid", "self.__distance_second_medoid"],
        requires=["len(self.__medoid_indexes) > 0", MEDS("self.__medoid_indexes")] + SIZES,
        ensures=SIZES + [partition("self.__clusters", N), "len(self.__clusters) == len(self.__medoid_indexes)",
                 "forall(lambda i: implies(0 <= i and i < %s, 0 <= self.__labels[i] and self.__labels[i] < len(self.__medoid_indexes)))" % N,
                 "forall(lambda i, j: implies(0 <= i and i < %s and 0 <= j and j < len(self.__medoid_indexes), dst(i, self.__medoid_indexes[self.__labels[i]]) <= dst(i, self.__medoid_indexes[j])))" % N,
                 "forall(lambda i: implies(0 <= i and i < %s, self.__distance_first_medoid[i] == dst(i, self.__medoid_indexes[self.__labels[i]])))" % N],
        invariants=SIZES + ["len(self.__clusters) == len(self.__medoid_indexes)", "cnt(self.__clusters) == ite(0 <= p and p < _k, 1, 0)", "cnt(self.__clusters) == ite(0 <= p and p < index_point, 1, 0)",
                    "_k == 0 or (0 <= index_optim and index_optim < _k)", "_k == 0 or dist_optim_first == " + m % "index_optim", "forall(lambda j: implies(0 <= j and j < _k, dist_optim_first <= %s))" % (m % "j"),
                    "_k > 0 or dist_optim_first == INF", "dist_optim_first <= INF",
                    "forall(lambda i: implies(0 <= i and i < _k, 0 <= self.__labels[i] and self.__labels[i] < len(self.__medoid_indexes)))",
                    "forall(lambda i: implies(0 <= i and i < _k, self.__distance_first_medoid[i] == dst(i, self.__medoid_indexes[self.__labels[i]])))",
                    "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < len(self.__medoid_indexes), dst(i, self.__medoid_indexes[self.__labels[i]]) <= dst(i, self.__medoid_indexes[j])))"], **PTS)


def kmedoids_swap():
    M = "self.__medoid_indexes"
    return [Contract("kmedoids.calculate_swap_cost", func="__calculate_swap_cost", params={"index_candidate": "int", "cluster_index": "int"}, ret="real",
                     requires=SIZES + ["0 <= index_candidate and index_candidate < " + N], ensures=[], **PTS),
            Contract("kmedoids.swap_medoids", func="__swap_medoids", ret="real", modifies=[M], locals={"optimal_index_cluster": "opt[int]", "optimal_index_medoid": "opt[int]"},
        requires=SIZES + ["len(self.__clusters) == len(%s)" % M, MEDS(M), DIST(M)], ensures=["len(%s) == len(old(%s))" % (M, M), MEDS(M), DIST(M)],
        invariants=["optimal_index_cluster is None or (0 <= optimal_index_cluster and optimal_index_cluster < len(self.__clusters))",
                    "(optimal_index_cluster is None) == (optimal_index_medoid is None)",
                    "optimal_index_medoid is None or (0 <= optimal_index_medoid and optimal_index_medoid < %s)" % N,
                    "optimal_index_medoid is None or forall(lambda j: implies(0 <= j and j < len(%s), %s[j] != optimal_index_medoid))" % (M, M)], **PTS)]


def kmedoids_erase():
    M = "self.__medoid_indexes"
    return Contract("kmedoids.erase_empty_clusters", func="__erase_empty_clusters", modifies=["self.__clusters", M], default_list=None, locals={"none_empty_clusters": "list[list[int]]", "none_empty_medoids": "list[int]"},
        requires=["len(self.__clusters) == len(%s)" % M, MEDS(M), DIST(M)],
        ensures=["cnt(self.__clusters) == cnt(old(self.__clusters))", nonempty("self.__clusters"), "len(self.__clusters) == len(%s)" % M, "len(self.__clusters) <= len(old(self.__clusters))", MEDS(M), DIST(M)],
        invariants=["cnt(none_empty_clusters) == pre('cnt', self.__clusters, _k)", nonempty("none_empty_clusters"), "len(none_empty_clusters) == len(none_empty_medoids)", "len(none_empty_clusters) <= _k",
                    MEDS("none_empty_medoids"), DIST("none_empty_medoids"),
                    "forall(lambda j: implies(0 <= j and j < len(none_empty_medoids), exists(lambda i: 0 <= i and i < _k and none_empty_medoids[j] == %s[i])))" % M,
                    "erase_required or forall(lambda j: implies(0 <= j and j < _k, len(self.__clusters[j]) > 0))"], **PTS)


def kmedoids_process():
    M = "self.__medoid_indexes"
    return Contract("kmedoids.process(python)", func="process", modifies=["self.__clusters", "self.__labels", "self.__distance_first_medoid", "self.__distance_second_medoid", M, "self.__iterations", "self.__total_deviation"],
        consts={"self.__ccore is True": False},
        requires=SIZES + ["len(%s) > 0" % M, MEDS(M), DIST(M), "self.__itermax > 0"],
        ensures=[partition("self.__clusters", N), nonempty("self.__clusters"), "len(self.__clusters) == len(%s)" % M, "len(%s) <= len(old(%s))" % (M, M), MEDS(M), DIST(M)],
        invariants=SIZES + ["len(%s) == len(old(%s))" % (M, M), MEDS(M), DIST(M), partition("self.__clusters", N), "len(self.__clusters) == len(%s)" % M],
        **dict(PTS, self_=dict(PTS["self_"], __iterations="int", __total_deviation="real", __tolerance="real", __itermax="int")))


XM = dict(file="pyclustering/cluster/xmeans.py", cls="xmeans", group=PART, consts={"splitting_type.BAYESIAN_INFORMATION_CRITERION": 0, "splitting_type.MINIMUM_NOISELESS_DESCRIPTION_LENGTH": 1},
    self_={"__pointer_data": "points", "__centers": "points", "__clusters": "list[list[int]]", "__kmax": "int", "__criterion": "int", "__total_wce": "real"})
KMDOC = "kmeans(...).process(): partition of its data into non-empty clusters, one centre each (proved for the Python code in C01)"
IMPROVE = {"args": ["any", "list[int]"], "ret": "tuple[list[list[int]], points, real]", "ensures": ["len(result[0]) == len(result[1])", "len(result[0]) > 0"], "doc": KMDOC}


def xmeans_contracts():
    D = "len(self.__pointer_data)"
    return [
     Contract("xmeans.local_to_global_clusters", func="__local_to_global_clusters", params={"local_clusters": "list[list[int]]", "available_indexes": "list[int]"}, ret="list[list[int]]", default_list="list[int]",
        locals={"clusters": "list[list[int]]", "current_cluster": "list[int]"},
        requires=["forall(lambda i, j: implies(0 <= i and i < j and j < len(available_indexes), available_indexes[i] != available_indexes[j]))", in_range2("local_clusters", "len(available_indexes)")],
        ensures=["implies(0 <= t and t < len(available_indexes) and available_indexes[t] == p, cnt(result) == mu('cntt', local_clusters))",
                 "implies(forall(lambda i: implies(0 <= i and i < len(available_indexes), available_indexes[i] != p)), cnt(result) == 0)",
                 "len(result) == len(local_clusters)", "forall(lambda i: implies(0 <= i and i < len(result), len(result[i]) == len(local_clusters[i])))"],
        invariants=["implies(0 <= t and t < len(available_indexes) and available_indexes[t] == p, cnt(clusters) == pre('cntt', local_clusters, _k))",
                    "implies(0 <= t and t < len(available_indexes) and available_indexes[t] == p, cnt(current_cluster) == pre('cntt', local_clusters[_k0], _k))",
                    "implies(forall(lambda i: implies(0 <= i and i < len(available_indexes), available_indexes[i] != p)), cnt(clusters) == 0)",
                    "implies(forall(lambda i: implies(0 <= i and i < len(available_indexes), available_indexes[i] != p)), cnt(current_cluster) == 0)",
                    "len(clusters) == _k", "len(current_cluster) == _k", "forall(lambda i: implies(0 <= i and i < _k, len(clusters[i]) == len(local_clusters[i])))"],
        **dict(XM, group=Group(ghost={"p": "int", "t": "int"}, measures={"cnt": ("list[int]", "count:p", 3), "cntt": ("list[int]", "count:t", 3)}))),
     Contract("xmeans.improve_structure", func="__improve_structure", params={"clusters": "list[list[int]]", "centers": "points"}, ret="points", locals={"allocated_centers": "points"},
        requires=["len(clusters) == len(centers)", "len(centers) <= self.__kmax"], ensures=["len(result) <= self.__kmax", "len(result) >= len(centers)"],
        invariants=["amount_free_centers >= 0", "len(allocated_centers) == _k + (self.__kmax - len(centers) - amount_free_centers)", "amount_free_centers <= self.__kmax - len(centers)"],
        calls={"self.__improve_parameters": IMPROVE, "self.__splitting_criterion": {"args": ["list[list[int]]", "points"], "ret": "real", "doc": "splitting criterion (any value)"}}, **XM),
     Contract("xmeans.process_by_python", func="__process_by_python", modifies=["self.__clusters", "self.__centers", "self.__total_wce"], uses=["xmeans.improve_structure"], default_list="list[int]",
        requires=["0 < len(self.__centers)", "len(self.__centers) <= self.__kmax"],
        ensures=[partition("self.__clusters", D), nonempty("self.__clusters"), "len(self.__clusters) <= self.__kmax", "len(self.__clusters) == len(self.__centers)"],
        invariants=["0 < len(self.__centers)", "len(self.__centers) <= self.__kmax"],
        calls={"self.__improve_parameters": {"args": ["points"], "ret": "tuple[list[list[int]], points, real]", "requires": ["len(a0) > 0"], "doc": KMDOC,
               "ensures": ["len(result[0]) == len(result[1])", "len(result[0]) > 0", "len(result[0]) <= len(a0)", partition("result[0]", D), nonempty("result[0]")]}}, **XM)]


GM = dict(file="pyclustering/cluster/gmeans.py", cls="gmeans", group=PART, self_={"__data": "points", "__centers": "points", "__clusters": "list[list[int]]", "__k_max": "int", "__k_init": "int", "__total_wce": "real"})


def gmeans_contracts():
    inv = [partition("self.__clusters", "len(self.__data)"), nonempty("self.__clusters"), "len(self.__clusters) == len(self.__centers)", "implies(self.__k_max != -1, len(self.__clusters) <= self.__k_max)"]
    res = [partition("result[0]", "len(self.__data)"), nonempty("result[0]"), "len(result[0]) == len(result[1])"]
    return [
     Contract("gmeans.run_condition", func="_run_condition", ret="bool", requires=["self.__k_max == -1 or self.__k_max > 0"],
        ensures=["implies(self.__k_max != -1 and result, len(self.__clusters) < self.__k_max)", "implies(self.__k_max == -1, result)"], **GM),
     Contract("gmeans.statistical_optimization", func="_statistical_optimization", modifies=["self.__centers"], locals={"centers": "points"},
        requires=["len(self.__clusters) == len(self.__centers)", "self.__k_max == -1 or len(self.__clusters) <= self.__k_max"],
        ensures=["len(self.__centers) >= len(self.__clusters)", "implies(self.__k_max != -1, len(self.__centers) <= self.__k_max)"],
        invariants=["len(centers) >= _k", "len(centers) + len(self.__clusters) == _k + potential_amount_clusters", "implies(self.__k_max != -1, potential_amount_clusters <= self.__k_max)"],
        calls={"self._split_and_search_optimal": {"args": ["list[int]"], "ret": "opt[points]", "ensures": ["implies(result is not None, len(result) == 2)"], "doc": "gmeans._split_and_search_optimal: K-Means with two centres"}}, **GM),
     Contract("gmeans.perform_clustering", func="_perform_clustering", modifies=["self.__clusters", "self.__centers", "self.__total_wce"],
        requires=["len(self.__centers) > 0"], ensures=[partition("self.__clusters", "len(self.__data)"), nonempty("self.__clusters"), "len(self.__clusters) == len(self.__centers)", "len(self.__clusters) <= len(old(self.__centers))"],
        spec={"kn": (["km"], "int"), "kc": (["km"], "int"), "kcl": (["km"], "list[list[int]]"), "kce": (["km"], "points")},
        calls={"kmeans": {"args": ["points", "points"], "ret": "km", "ensures": ["kn(result) == len(a0)", "kc(result) == len(a1)"], "doc": KMDOC},
               "*.process": {"args": ["km"], "recv": True, "ret": "km", "ensures": ["kn(result) == kn(a0)", "kc(result) == kc(a0)"], "doc": KMDOC},
               "*.get_clusters": {"args": ["km"], "recv": True, "ret": "list[list[int]]", "doc": KMDOC, "ensures": ["result == kcl(a0)", partition("result", "kn(a0)"), nonempty("result"), "len(result) <= kc(a0)"]},
               "*.get_centers": {"args": ["km"], "recv": True, "ret": "points", "doc": KMDOC, "ensures": ["result == kce(a0)", "len(kce(a0)) == len(kcl(a0))"]},
               "*.get_total_wce": {"args": ["km"], "recv": True, "ret": "real", "doc": KMDOC}}, **GM),
     Contract("gmeans.process_by_python", func="_process_by_python", modifies=["self.__clusters", "self.__centers", "self.__total_wce"],
        requires=["len(self.__data) > 0", "self.__k_init > 0", "self.__k_max == -1 or self.__k_max >= self.__k_init"],
        ensures=[partition("self.__clusters", "len(self.__data)"), nonempty("self.__clusters"), "len(self.__clusters) == len(self.__centers)", "implies(self.__k_max != -1, len(self.__clusters) <= self.__k_max)"],
        invariants=inv + ["len(self.__centers) > 0"],
        calls={"self._search_optimal_parameters": {"args": ["points", "int"], "ret": "tuple[list[list[int]], points, real]", "doc": KMDOC, "requires": ["a1 > 0"],
                                                   "ensures": ["len(result[0]) == len(result[1])", "len(result[0]) > 0", "len(result[0]) <= a1", partition("result[0]", "len(a0)"), nonempty("result[0]")]}}, **GM)]


def soft_contracts(best):
    """extraction of the clusters from the memberships"""
    M = "self.__membership"
    F = dict(file="pyclustering/cluster/fcm.py", cls="fcm", group=PART, self_={"__data": "points", "__centers": "points", "__clusters": "list[list[int]]", "__membership": "points"})
    E = dict(file="pyclustering/cluster/ema.py", cls="ema", group=PART, self_={"__data": "points", "__rc": "points", "__clusters": "list[list[int]]", "__amount_clusters": "int"})
    mem = lambda cl, of: "forall(lambda c, i, j: implies(0 <= c and c < len(%s) and 0 <= i and i < len(%s[c]) and 0 <= j and j < len(%s), %s))" % (cl, cl, cl, of)
    return [
     Contract("fcm.extract_clusters", func="__extract_clusters", modifies=["self.__clusters"], default_list="list[int]",
        requires=["len(self.__centers) > 0", "len(self.__membership) > 0", "forall(lambda i: implies(0 <= i and i < len(self.__membership), len(self.__membership[i]) == len(self.__centers)))"],
        ensures=[partition("self.__clusters", "len(%s)" % M), "len(self.__clusters) == len(self.__centers)"] +
                ([in_range2("self.__clusters", "len(self.__membership)"), mem("self.__clusters", "self.__membership[self.__clusters[c][i]][j] <= self.__membership[self.__clusters[c][i]][c]")] if best else []),
        invariants=["len(self.__clusters) == len(self.__centers)", "cnt(self.__clusters) == ite(0 <= p and p < _k, 1, 0)"] +
                ([in_range2("self.__clusters", "_k"), mem("self.__clusters", "self.__membership[self.__clusters[c][i]][j] <= self.__membership[self.__clusters[c][i]][c]")] if best else []), **F),
    ]


def cxx(cls, file=None, **kw):
    d = dict(file=file or "ccore/src/cluster/%s.cpp" % cls, cls=cls, lang="cpp", group=PART,
             self_={"m_ptr_data": "points", "m_ptr_indexes": "list[int]", "result_clusters": "list[list[int]]", "result_centers": "points", "result_wce": "real"},
             cpp={"accessors": {"m_ptr_result.clusters": "result_clusters", "m_ptr_result.centers": "result_centers", "m_ptr_result.wce": "result_wce"}},
             calls={"self.m_metric": METRIC})
    d.update(kw)
    return d


KMAXINT = "18446744073709551615"


def cpp_assign(cls, centers, labels, swap=False, near=True):
    met = (lambda c: "metric(self.m_ptr_data[p_index_point], %s)" % c) if swap else (lambda c: "metric(%s, self.m_ptr_data[p_index_point])" % c)
    best = "index_cluster_optim" if cls == "kmedians" else "suitable_index_cluster"
    dist = "distance_optim" if cls == "kmedians" else "minimum_distance"
    at = lambda i: met("%s[%s]" % (centers, i))
    return Contract("cpp.%s.assign_point_to_cluster" % cls, func="assign_point_to_cluster", params={"p_index_point": "int", centers: "points", labels: "list[int]"},
        requires=["len(%s) > 0" % centers, "0 <= p_index_point and p_index_point < len(self.m_ptr_data)", "len(%s) == len(self.m_ptr_data)" % labels],
        modifies=[labels],
        ensures=["len(%s) == len(old(%s))" % (labels, labels), "0 <= %s[p_index_point] and %s[p_index_point] < len(%s)" % (labels, labels, centers),
                 "forall(lambda j: implies(0 <= j and j < len(%s), %s <= %s))" % (centers, at("%s[p_index_point]" % labels), at("j")),
                 "forall(lambda j: implies(0 <= j and j < len(%s) and j != p_index_point, %s[j] == old(%s)[j]))" % (labels, labels, labels)],
        spec=MET,
        invariants=["0 <= %s and (%s < _k or (_k == 0 and %s == 0))" % (best, best, best), "_k == 0 or %s == %s" % (dist, at(best)), "_k > 0 or %s == INF" % dist,
                    "forall(lambda j: implies(0 <= j and j < _k, %s <= %s))" % (dist, at("j"))], **cxx(cls))


def cpp_erase(cls):
    return Contract("cpp.%s.erase_empty_clusters" % cls, func="erase_empty_clusters", params={"p_clusters": "list[list[int]]"}, modifies=["p_clusters"],
    ensures=["cnt(p_clusters) == cnt(old(p_clusters))", "len(p_clusters) <= len(old(p_clusters))", nonempty("p_clusters")],
    invariants=["cnt(p_clusters) == cnt(old(p_clusters))", "len(p_clusters) <= len(old(p_clusters))",
                "index_cluster == %s or (0 <= index_cluster and index_cluster < len(p_clusters))" % KMAXINT,
                "forall(lambda j: implies((j > index_cluster or index_cluster == %s) and 0 <= j and j < len(p_clusters), len(p_clusters[j]) > 0))" % KMAXINT],
    requires=["len(p_clusters) < " + KMAXINT], **cxx(cls))


def cpp_update(cls, centers, labels):
    return Contract("cpp.%s.update_clusters" % cls, func="update_clusters", params={centers: "points", "p_clusters": "list[list[int]]"}, modifies=["p_clusters"],
    requires=["len(%s) > 0" % centers, "len(%s) < %s" % (centers, KMAXINT)] + (["len(self.m_ptr_indexes) == 0"] if cls == "kmeans" else []),
    ensures=[partition("p_clusters", "len(self.m_ptr_data)"), "len(p_clusters) <= len(%s)" % centers, nonempty("p_clusters")],
    invariants=["len(p_clusters) == len(%s)" % centers, "len(%s) == len(self.m_ptr_data)" % labels,
                "forall(lambda j: implies(0 <= j and j < _k, 0 <= %s[j] and %s[j] < len(%s)))" % (labels, labels, centers),
                "forall(lambda j: implies(0 <= j and j < len(%s), 0 <= %s[j] and %s[j] < len(%s)))" % (labels, labels, labels, centers),
                "cnt(p_clusters) == ite(0 <= p and p < _k, 1, 0)"], **cxx(cls))


def cpp_update_indexes():
    """K-Means on a subset of the points, given by distinct indexes"""
    I = "self.m_ptr_indexes"
    return Contract("cpp.kmeans.update_clusters(indexes)", func="update_clusters", params={"p_centers": "points", "p_clusters": "list[list[int]]"}, modifies=["p_clusters"],
    requires=["len(p_centers) > 0", "len(p_centers) < " + KMAXINT, "len(%s) > 0" % I, "forall(lambda j: implies(0 <= j and j < len(%s), 0 <= %s[j] and %s[j] < len(self.m_ptr_data)))" % (I, I, I)],
    ensures=["cnt(p_clusters) == cnt(%s)" % I, "len(p_clusters) <= len(p_centers)", nonempty("p_clusters")],
    invariants=["len(p_clusters) == len(p_centers)", "len(winners) == len(self.m_ptr_data)",
                "forall(lambda j: implies(0 <= j and j < len(winners), 0 <= winners[j] and winners[j] < len(p_centers)))", "cnt(p_clusters) == pre('cnt', %s, _k)" % I], **cxx("kmeans"))


DIMS = "forall(lambda i: implies(0 <= i and i < len(self.m_ptr_data), len(self.m_ptr_data[i]) == len(self.m_ptr_data[0])))"


def cpp_kmeans_centers():
    C = {"csumj": (["points", "list[int]", "int", "int"], "real", ["lambda d, c, j, k, r: ite(k <= 0, r == 0, r == csumj(d, c, j, k - 1) + d[c[k - 1]][j])"])}
    return [
     Contract("cpp.kmeans.update_center", func="update_center", params={"p_cluster": "list[int]", "p_center": "point"}, ret="real", modifies=["p_center"], spec=C,
        requires=["len(p_cluster) > 0", "forall(lambda i: implies(0 <= i and i < len(p_cluster), 0 <= p_cluster[i] and p_cluster[i] < len(self.m_ptr_data)))",
                  "len(self.m_ptr_data) > 0", DIMS, "len(p_center) == len(self.m_ptr_data[0])"],
        ensures=["len(p_center) == len(old(p_center))", "forall(lambda j: implies(0 <= j and j < len(p_center), p_center[j] * len(p_cluster) == csumj(self.m_ptr_data, p_cluster, j, len(p_cluster))))"],
        invariants=["len(total) == len(p_center)", "forall(lambda j: implies(0 <= j and j < len(total), total[j] == csumj(self.m_ptr_data, p_cluster, j, _k)))",
                    "forall(lambda j: implies(0 <= j and j < len(total), total[j] == csumj(self.m_ptr_data, p_cluster, j, ite(j < _k, _k0 + 1, _k0))))",
                    "forall(lambda j: implies(0 <= j and j < _k, total[j] * len(p_cluster) == csumj(self.m_ptr_data, p_cluster, j, len(p_cluster))))",
                    "forall(lambda j: implies(_k <= j and j < len(total), total[j] == csumj(self.m_ptr_data, p_cluster, j, len(p_cluster))))"], **cxx("kmeans")),
     Contract("cpp.kmeans.update_centers", func="update_centers", params={"clusters": "list[list[int]]", "centers": "points"}, ret="real", modifies=["centers"], spec=C,
        requires=["len(clusters) > 0", nonempty("clusters"), in_range2("clusters", "len(self.m_ptr_data)"), "len(self.m_ptr_data) > 0", DIMS, "len(centers) >= len(clusters)",
                  "forall(lambda i: implies(0 <= i and i < len(centers), len(centers[i]) == len(self.m_ptr_data[0])))"],
        ensures=["len(centers) == len(clusters)", "forall(lambda i: implies(0 <= i and i < len(centers), len(centers[i]) == len(self.m_ptr_data[0])))",
                 "forall(lambda i, j: implies(0 <= i and i < len(centers) and 0 <= j and j < len(self.m_ptr_data[0]), centers[i][j] * len(clusters[i]) == csumj(self.m_ptr_data, clusters[i], j, len(clusters[i]))))"],
        invariants=["len(calculated_clusters) == len(clusters)", "len(changes) == len(clusters)", "forall(lambda i: implies(0 <= i and i < len(calculated_clusters), len(calculated_clusters[i]) == dimension))",
                    "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < dimension, calculated_clusters[i][j] * len(clusters[i]) == csumj(self.m_ptr_data, clusters[i], j, len(clusters[i]))))"], **cxx("kmeans"))]


def cpp_total_wce():
    D, CE, CL = "self.m_ptr_data", "self.result_centers", "self.result_clusters"
    return Contract("cpp.kmeans.calculate_total_wce", func="calculate_total_wce", modifies=["self.result_wce"], spec=dict(MET, **WCE),
        requires=["self.result_wce == 0", "len(%s) <= len(%s)" % (CL, CE), in_range2(CL, "len(self.m_ptr_data)")],
        ensures=["self.result_wce == wce(%s, %s, %s, len(%s))" % (D, CE, CL, CL)],
        invariants=["self.result_wce == wce(%s, %s, %s, _k)" % (D, CE, CL),
                    "self.result_wce == wce(%s, %s, %s, _k0) + crow(%s, %s[_k0], %s[_k0], _k)" % (D, CE, CL, D, CE, CL)], **cxx("kmeans"))


def cpp_kmedoids_erase():
    CL, M = "self.result_clusters", "self.result_medoids"
    return Contract("cpp.kmedoids.erase_empty_clusters", func="erase_empty_clusters", modifies=[CL, M],
        requires=["len(%s) == len(%s)" % (CL, M), "len(%s) < %s" % (CL, KMAXINT), DIST(M)],
        ensures=["cnt(%s) == cnt(old(%s))" % (CL, CL), nonempty(CL), "len(%s) == len(%s)" % (CL, M), "len(%s) <= len(old(%s))" % (CL, CL), DIST(M)],
        invariants=["cnt(%s) == cnt(old(%s))" % (CL, CL), "len(%s) == len(%s)" % (CL, M), "len(%s) <= len(old(%s))" % (CL, CL), DIST(M),
                    "index_cluster == %s or (0 <= index_cluster and index_cluster < len(%s))" % (KMAXINT, CL),
                    "forall(lambda j: implies((j > index_cluster or index_cluster == %s) and 0 <= j and j < len(%s), len(%s[j]) > 0))" % (KMAXINT, CL, CL)],
        **cxx("kmedoids", self_={"result_clusters": "list[list[int]]", "result_medoids": "list[int]"},
              cpp={"accessors": {"m_result_ptr.clusters": "result_clusters", "m_result_ptr.medoids": "result_medoids"}}))


def cpp_structure():
    CL, CE = "self.result_clusters", "self.result_centers"
    return [
     Contract("cpp.xmeans.improve_structure", func="improve_structure", modifies=[CE],
        requires=["len(%s) == len(%s)" % (CL, CE), "len(%s) <= self.m_maximum_clusters" % CL, "self.m_maximum_clusters < " + KMAXINT], ensures=["len(%s) <= self.m_maximum_clusters" % CE, "len(%s) >= len(%s)" % (CE, CL)],
        invariants=["len(region_allocated_centers) == len(%s)" % CL, "forall(lambda i: implies(0 <= i and i < _k, len(region_allocated_centers[i]) > 0))", "amount_free_centers >= 0",
                    "amount_free_centers <= self.m_maximum_clusters", "len(allocated_centers) == _k + (self.m_maximum_clusters - len(%s) - amount_free_centers)" % CL, "len(allocated_centers) >= _k"],
        **cxx("xmeans", self_={"result_clusters": "list[list[int]]", "result_centers": "points", "m_maximum_clusters": "int"},
              calls={"self.improve_region_structure": {"args": ["list[int]", "point", "points"], "modifies": ["a2"], "ret": "none", "ensures": ["len(a2) > 0"], "doc": "xmeans::improve_region_structure (proved to give at least one centre)"}})),
     Contract("cpp.xmeans.improve_region_structure", func="improve_region_structure", params={"p_cluster": "list[int]", "p_center": "point", "p_allocated_centers": "points"}, modifies=["p_allocated_centers"],
        requires=["len(p_cluster) > 0", "forall(lambda i: implies(0 <= i and i < len(p_cluster), 0 <= p_cluster[i] and p_cluster[i] < len(self.m_ptr_data)))"],
        ensures=["len(p_allocated_centers) > 0"], consts={"enum.BAYESIAN_INFORMATION_CRITERION": 0, "enum.MINIMUM_NOISELESS_DESCRIPTION_LENGTH": 1},
        **cxx("xmeans", self_={"m_ptr_data": "points", "m_criterion": "int"},
              calls={"self.search_optimal_parameters": {"args": ["list[list[int]]", "points", "list[int]"], "modifies": ["a0", "a1"], "ret": "none", "ensures": ["len(a0) == len(a1)", "len(a0) > 0"], "doc": KMDOC},
                     "self.splitting_criterion": {"args": ["list[list[int]]", "points"], "ret": "real", "doc": "splitting criterion (any value)"}})),
     Contract("cpp.gmeans.is_run_condition", func="is_run_condition", ret="bool", consts={"IGNORE_KMAX": -1},
        ensures=["implies(self.m_kmax != -1 and result, len(%s) < self.m_kmax)" % CL], **cxx("gmeans", self_={"result_clusters": "list[list[int]]", "m_kmax": "int"})),
     Contract("cpp.gmeans.statistical_optimization", func="statistical_optimization", modifies=[CE], consts={"IGNORE_KMAX": -1},
        requires=["len(%s) == len(%s)" % (CL, CE), "self.m_kmax == -1 or len(%s) <= self.m_kmax" % CL],
        ensures=["len(%s) >= len(%s)" % (CE, CL), "implies(self.m_kmax != -1, len(%s) <= self.m_kmax)" % CE],
        invariants=["len(centers) + len(%s) == _k + potential_amount_clusters" % CL, "potential_amount_clusters >= len(%s)" % CL, "implies(self.m_kmax != -1, potential_amount_clusters <= self.m_kmax)"],
        **cxx("gmeans", self_={"result_clusters": "list[list[int]]", "result_centers": "points", "m_kmax": "int"},
              calls={"self.split_and_search_optimal": {"args": ["list[int]", "points"], "modifies": ["a1"], "ret": "none", "ensures": ["len(a1) == 0 or len(a1) == 2"], "doc": "gmeans::split_and_search_optimal: K-Means with two centres"}})),
    ]
