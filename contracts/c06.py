"""C06: DBSCAN. adj(i, j): j is another object within the radius of i; deg(i): how many such objects there are."""
from vc.contract import Contract, Group
from .common import METRIC, MET, in_range

N = "len(self.__pointer_data)"
#: two arbitrary objects p and p2; nn: the number of objects
TWO = Group(ghost={"p": "int", "p2": "int", "nn": "int"}, measures={"cnt": ("list[int]", "count:p", 2), "cnt2": ("list[int]", "count:p2", 2)})


def adjacency(n, sym=True):
    return {"adj": (["int", "int"], "bool", ["lambda i, j, r: implies(r, i != j and 0 <= j and j < %s)" % n] + (["lambda i, j, r: r == adj(j, i)"] if sym else [])), "deg": (["int"], "int")}


NEIGH = {"args": ["int"], "ret": "list[int]", "requires": ["0 <= a0 and a0 < " + N], "doc": "the neighbour search of the data type: both are under contract here",
         "ensures": ["mu('cnt', result) == ite(adj(a0, p), 1, 0)", "mu('cnt2', result) == ite(adj(a0, p2), 1, 0)", "len(result) == deg(a0)", in_range("result", N)]}
SELF = {"__pointer_data": "points", "__visited": "list[bool]", "__belong": "list[bool]", "__clusters": "list[list[int]]", "__noise": "list[int]", "__eps": "real", "__neighbors": "int", "__data_type": "str"}
V, B = "self.__visited", "self.__belong"
CORE = "lambda i: deg(i) >= self.__neighbors"
SPEC = lambda: dict(adjacency(N), core=CORE)
DB = dict(file="pyclustering/cluster/dbscan.py", cls="dbscan", group=TWO, self_=SELF)
IN = lambda x: "0 <= %s and %s < %s" % (x, x, N)
RNG = "forall(lambda i: implies(0 <= i and i < %s, %%s))" % N
#: belonging implies visited, the neighbourhood of a visited core object belongs to clusters, who belongs is reached by a core object
SHAPE = ["len(%s) == %s" % (V, N), "len(%s) == %s" % (B, N), RNG % "implies(%s[i], %s[i])" % (B, V), RNG % ("implies(%s[i] and core(i), %s[i])" % (V, B))]
REACH = [RNG % "implies(%s[i] and core(i) and adj(i, %s), %s[%s])" % (V, x, B, x) for x in ("p", "p2")]
SOUND = ["implies(%s and %s[p], exists(lambda i: %s and core(i) and (i == p or adj(i, p))))" % (IN("p"), B, IN("i"))]


def expand():
    ix = "index_point"
    live = [RNG % "implies(%s[i] and core(i) and adj(i, %s), %s[%s] or mu('%s', neighbors) > pre('%s', neighbors, _k))" % (V, x, B, x, c, c) for x, c in (("p", "cnt"), ("p2", "cnt2"))]
    done = ["implies(pre('%s', neighbors, _k) > 0, %s[%s] and %s[%s])" % (c, V, x, B, x) for x, c in (("p", "cnt"), ("p2", "cnt2"))]
    own = ["mu('cnt', cluster) == ite(%s and %s[p] and not old(%s)[p], 1, 0)" % (IN("p"), B, B), "implies(%s and core(p) and %s[p] and not old(%s)[p], mu('cnt', cluster) > 0)" % (IN("p"), V, V),
           "mu('cnt2', cluster) == ite(%s and %s[p2] and not old(%s)[p2], 1, 0)" % (IN("p2"), B, B), "implies(%s and core(p2) and %s[p2] and not old(%s)[p2], mu('cnt2', cluster) > 0)" % (IN("p2"), V, V)]
    mono = [RNG % "implies(old(%s)[i], %s[i]) and implies(old(%s)[i], %s[i])" % (V, V, B, B)]
    r = [c.replace("cluster", "result") for c in own]
    return Contract("dbscan.expand_cluster", func="__expand_cluster", params={ix: "int"}, ret="opt[list[int]]", modifies=[V, B], spec=SPEC(),
        calls={"self.__neighbor_searcher": NEIGH}, requires=SHAPE + REACH + SOUND + [IN(ix), "not %s[%s]" % (V, ix)],
        ensures=SHAPE + REACH + SOUND + mono + ["%s[%s]" % (V, ix), "(result is None) == (not core(%s))" % ix,
            "implies(result is None, forall(lambda i: implies(%s, %s[i] == old(%s)[i] and %s[i] == (old(%s)[i] or i == %s))))" % (IN("i"), B, B, V, V, ix)] +
            ["implies(result is not None, len(result) > 0 and result[0] == %s)" % ix] + ["implies(result is not None, %s)" % c for c in r],
        invariants=SHAPE + SOUND + live + done + mono + ["%s[%s] and %s[%s]" % (V, ix, B, ix), in_range("neighbors", N), "len(cluster) > 0 and cluster[0] == " + ix,
            "implies(mu('cnt', neighbors) > 0, exists(lambda i: %s and core(i) and adj(i, p)))" % IN("i"), in_range("_comp", N),
            "mu('cnt', _comp) == ite(mu('cnt', neighbors) == 0 and p != index_point, pre('cnt', next_neighbors, _k), 0)",
            "mu('cnt2', _comp) == ite(mu('cnt2', neighbors) == 0 and p2 != index_point, pre('cnt2', next_neighbors, _k), 0)"] + own, **DB)


CONTRACTS = [
 Contract("dbscan.neighbor_indexes_distance_matrix", func="__neighbor_indexes_distance_matrix", params={"index_point": "int"}, ret="list[int]",
    requires=[IN("index_point"), "len(self.__pointer_data[index_point]) == " + N],
    ensures=["mu('cnt', result) == ite(%s and p != index_point and self.__pointer_data[index_point][p] <= self.__eps, 1, 0)" % IN("p"), in_range("result", N)],
    invariants=["mu('cnt', _comp) == ite(0 <= p and p < _k and p != index_point and self.__pointer_data[index_point][p] <= self.__eps, 1, 0)", in_range("_comp", N)], **DB),
 expand(),
]


def pushed(cl, v):
    """two adjacent core objects are visited together, and then lie in a common cluster"""
    pq = "%s and %s and core(p) and core(p2) and adj(p, p2)" % (IN("p"), IN("p2"))
    return ["implies(%s, %s[p] == %s[p2])" % (pq, v, v), "implies(%s and %s[p], exists(lambda c: 0 <= c and c < len(%s) and mu('cnt', %s[c]) > 0 and mu('cnt2', %s[c]) > 0))" % (pq, v, cl, cl, cl)]


def process_ensures(cl, noise, v, b):
    return ["cnt(%s) + cnt(%s) == ite(%s, 1, 0)" % (cl, noise, IN("p")),                                              # partition
            "implies(%s and core(p), cnt(%s) == 1)" % (IN("p"), cl),                                                  # core objects are in clusters
            "implies(%s, forall(lambda i: implies(%s and core(i) and adj(i, p), cnt(%s) == 1)))" % (IN("p"), IN("i"), cl),   # and what they reach
            "implies(cnt(%s) > 0, exists(lambda i: %s and core(i) and (i == p or adj(i, p))))" % (cl, IN("i")),      # nothing else
            "forall(lambda c: implies(0 <= c and c < len(%s), len(%s[c]) > 0 and core(%s[c][0])))" % (cl, cl, cl),    # each cluster has a core object
            "implies(%s and %s and core(p) and core(p2) and adj(p, p2), exists(lambda c: 0 <= c and c < len(%s) and mu('cnt', %s[c]) > 0 and mu('cnt2', %s[c]) > 0))" % (IN("p"), IN("p2"), cl, cl, cl)]


CL, NO = "self.__clusters", "self.__noise"
TWO3 = Group(ghost={"p": "int", "p2": "int", "nn": "int"}, measures={"cnt": ("list[int]", "count:p", 3), "cnt2": ("list[int]", "count:p2", 3)})
PINV = SHAPE + REACH + SOUND + ["cnt(%s) == ite(%s and %s[p], 1, 0)" % (CL, IN("p"), B), "forall(lambda c: implies(0 <= c and c < len(%s), len(%s[c]) > 0 and core(%s[c][0])))" % (CL, CL, CL),
                                "forall(lambda i: implies(0 <= i and i < _k, %s[i]))" % V, "cnt(%s) == ite(0 <= p and p < _k and not %s[p], 1, 0)" % (NO, B)]
for t in ("points", "distance_matrix"):
    CONTRACTS.append(Contract("dbscan.process(%s)" % t, func="process", modifies=[CL, NO, V, B, "self.__kdtree", "self.__neighbor_searcher"], uses=["dbscan.expand_cluster"],
        spec=SPEC(), consts={"self.__ccore is True": False, "self.__data_type == 'points'": t == "points"},
        calls={"kdtree_balanced": {"args": ["points", "list[int]"], "ret": "kdtree", "doc": "kd-tree of all points with their indexes (C08)"},
               "self.__create_neighbor_searcher": {"args": ["str"], "ret": "searcher", "doc": "selects one of the two neighbour searches"}},
        requires=["len(%s) == 0" % CL, "len(%s) == 0" % NO], ensures=process_ensures(CL, NO, V, B), invariants=PINV + pushed(CL, V),
        **dict(DB, self_=dict(SELF, __kdtree="kdtree", __neighbor_searcher="searcher"), group=TWO3)))
#: the points variant relies on the range search of the kd-tree (C08): every stored point within the radius, with its payload, once
CONTRACTS.append(Contract("dbscan.neighbor_indexes_points", func="__neighbor_indexes_points", params={"index_point": "int"}, ret="list[int]", requires=[IN("index_point")],
    ensures=["mu('cnt', result) == ite(%s and p != index_point and edist(self.__pointer_data[index_point], self.__pointer_data[p]) <= self.__eps, 1, 0)" % IN("p"), in_range("result", N)],
    spec={"edist": (["point", "point"], "real")},
    calls={"self.__kdtree.find_nearest_dist_nodes": {"args": ["point", "real"], "ret": "list[tuple[real, dnode]]", "doc": "kdtree.find_nearest_dist_nodes of the tree of all points (C08)",
           "ensures": ["mu('pay', result) == ite(%s and edist(a0, self.__pointer_data[p]) <= a1, 1, 0)" % IN("p"), "forall(lambda j: implies(0 <= j and j < len(result), 0 <= result[j][1].payload and result[j][1].payload < %s))" % N]}},
    invariants=["mu('cnt', _comp) == ite(p != index_point, pre('pay', kdnodes, _k), 0)", in_range("_comp", N)],
    **dict(DB, self_=dict(SELF, __kdtree="kdtree"), group=[TWO, Group(measures={"pay": ("list[tuple[real, dnode]]", "lambda x: ite(x[1].payload == p, 1, 0)")})])))

# C++
XN = "len(self.m_data_ptr)"
XV, XB, XC, XO = "self.m_visited", "self.m_belong", "self.result_clusters", "self.result_noise"
XIN = lambda x: "0 <= %s and %s < %s" % (x, x, XN)
XR = "forall(lambda i: implies(0 <= i and i < %s, %%s))" % XN
XS = dict(adjacency("nn"), core="lambda i: deg(i) >= self.m_neighbors")
XSELF = {"m_data_ptr": "points", "m_visited": "list[bool]", "m_belong": "list[bool]", "result_clusters": "list[list[int]]", "result_noise": "list[int]", "m_initial_radius": "real", "m_neighbors": "int", "m_type": "int"}
X = dict(file="ccore/src/cluster/dbscan.cpp", cls="dbscan", lang="cpp", group=TWO, self_=XSELF,
         cpp={"accessors": {"m_result_ptr.clusters": "result_clusters", "m_result_ptr.noise": "result_noise"}, "types": {"dbscan_data": "dbscan_data", "data_t": "int"}, "signature": {"process": "data_t"}})
XNEIGH = {"args": ["int", "list[int]"], "ret": "none", "modifies": ["a1"], "requires": ["0 <= a0 and a0 < " + XN, "len(a1) == 0"], "doc": "dbscan::get_neighbors (both data types are under contract here)",
          "ensures": ["mu('cnt', a1) == ite(adj(a0, p), 1, 0)", "mu('cnt2', a1) == ite(adj(a0, p2), 1, 0)", "len(a1) == deg(a0)", in_range("a1", XN)]}
XSHAPE = ["%s == nn" % XN, "len(%s) == %s" % (XV, XN), "len(%s) == %s" % (XB, XN), XR % "implies(%s[i], %s[i])" % (XB, XV)]
XDONE = lambda out: [XR % ("implies(%s[i] and core(i) %s, %s[i])" % (XV, out, XB))] + [XR % ("implies(%s[i] and core(i) and adj(i, %s) %s, %s[%s])" % (XV, x, out, XB, x)) for x in ("p", "p2")]
XSOUND = ["implies(%s and %s[p], exists(lambda i: %s and core(i) and (i == p or adj(i, p))))" % (XIN("p"), XB, XIN("i"))]


def xexpand():
    L = "index_matrix_neighbors"
    live = [XR % "implies(%s[i] and core(i) and adj(i, %s), %s[%s] or mu('%s', %s) > pre('%s', %s, _k))" % (XV, x, XB, x, c, L, c, L) for x, c in (("p", "cnt"), ("p2", "cnt2"))] + XDONE("")[:1]
    done = ["implies(pre('%s', %s, _k) > 0, %s[%s] and %s[%s])" % (c, L, XV, x, XB, x) for x, c in (("p", "cnt"), ("p2", "cnt2"))]
    A = "allocated_cluster"
    own = []
    for x, c in (("p", "cnt"), ("p2", "cnt2")):
        own += ["mu('%s', %s) == ite(%s and %s[%s] and not old(%s)[%s], 1, 0)" % (c, A, XIN(x), XB, x, XB, x),
                "implies(%s and core(%s) and %s[%s] and (%s == p_index or not old(%s)[%s]), mu('%s', %s) > 0)" % (XIN(x), x, XV, x, x, XV, x, c, A)]
    mono = [XR % "implies(old(%s)[i], %s[i]) and implies(old(%s)[i], %s[i])" % (XV, XV, XB, XB)]
    pend = ["mu('%s', %s) - pre('%s', %s, _k) >= 0" % (c, L, c, L) for c in ("cnt", "cnt2")]
    inner = ["forall(lambda i: implies(%s and %s[i] and core(i) and adj(i, %s) and i != index_neighbor, %s[%s] or mu('%s', %s) > pre('%s', %s, _k0)))" % (XIN("i"), XV, x, XB, x, c, L, c, L) for x, c in (("p", "cnt"), ("p2", "cnt2"))] + \
            ["implies(pre('%s', neighbor_neighbor_indexes, _k) > 0, mu('%s', %s) > 0)" % (c, c, L) for c in ("cnt", "cnt2")] + \
            ["implies(pre('%s', %s, _k0) > 0, %s[%s] and %s[%s])" % (c, L, XV, x, XB, x) for x, c in (("p", "cnt"), ("p2", "cnt2"))] + \
            ["_k0 < len(%s)" % L, "index_neighbor == %s[_k0]" % L, "len(neighbor_neighbor_indexes) == deg(index_neighbor)", "mu('cnt', %s) > 0 or mu('cnt', %s) == 0" % (L, L)]
    return Contract("cpp.dbscan.expand_cluster", func="expand_cluster", params={"p_index": "int", A: "list[int]"}, modifies=[A, XV, XB], spec=XS, calls={"self.get_neighbors": XNEIGH},
        requires=XSHAPE + XDONE("and i != p_index") + XSOUND + [XIN("p_index"), "%s[p_index] and not %s[p_index]" % (XV, XB), "len(%s) == 0" % A],
        ensures=XSHAPE + XDONE("") + XSOUND + mono + ["(len(%s) == 0) == (not core(p_index))" % A, "implies(len(%s) == 0, forall(lambda i: implies(%s, %s[i] == old(%s)[i] and %s[i] == old(%s)[i])))" % (A, XIN("i"), XB, XB, XV, XV),
                 "implies(len(%s) > 0, %s[0] == p_index)" % (A, A)] + own[0:1] + own[2:3] + ["implies(len(%s) > 0, %s)" % (A, own[1]), "implies(len(%s) > 0, %s)" % (A, own[3])],
        invariants=XSHAPE + XSOUND + live + done + mono + pend + inner + ["k == _k", "%s[p_index] and %s[p_index]" % (XV, XB), in_range(L, XN), "len(%s) > 0 and %s[0] == p_index" % (A, A),
            "implies(mu('cnt', %s) > 0, exists(lambda i: %s and core(i) and adj(i, p)))" % (L, XIN("i"))] + own, **X)


CONTRACTS += [xexpand(),
 Contract("cpp.dbscan.get_neighbors_from_distance_matrix", func="get_neighbors_from_distance_matrix", params={"p_index": "int", "p_neighbors": "list[int]"}, modifies=["p_neighbors"],
    requires=[XIN("p_index"), "len(self.m_data_ptr[p_index]) == " + XN, "len(p_neighbors) == 0"],
    ensures=["mu('cnt', p_neighbors) == ite(%s and p != p_index and self.m_data_ptr[p_index][p] <= self.m_initial_radius, 1, 0)" % XIN("p"), in_range("p_neighbors", XN)],
    invariants=["index_neighbor == _k", "mu('cnt', p_neighbors) == ite(0 <= p and p < _k and p != p_index and self.m_data_ptr[p_index][p] <= self.m_initial_radius, 1, 0)", in_range("p_neighbors", XN)], **X),
]
CONTRACTS += [
 Contract("cpp.dbscan.process(%s)" % t, func="process", params={"p_data": "points", "p_type": "int", "p_result": "dbscan_data"},
    modifies=[XC, XO, XV, XB, "self.m_data_ptr", "self.m_result_ptr", "self.m_type"], uses=["cpp.dbscan.expand_cluster"],
    spec=XS, consts={"enum.POINTS": 0, "enum.DISTANCE_MATRIX": 1},
    calls={"self.create_kdtree": {"args": ["points"], "ret": "none", "doc": "kd-tree of all points with their indexes (C08)"}},
    requires=["len(%s) == 0" % XC, "len(%s) == 0" % XO, "p_type == %d" % i, "len(p_data) == nn"],
    ensures=[c.replace("self.__pointer_data", "p_data") for c in process_ensures(XC, XO, XV, XB)],
    invariants=XSHAPE + XDONE("") + XSOUND + ["self.m_data_ptr == p_data", "cnt(%s) == ite(%s and %s[p], 1, 0)" % (XC, XIN("p"), XB), "forall(lambda c: implies(0 <= c and c < len(%s), len(%s[c]) > 0 and core(%s[c][0])))" % (XC, XC, XC),
        "i == _k", "forall(lambda i: implies(0 <= i and i < _k, %s[i]))" % XV, "cnt(%s) == ite(0 <= p and p < _k and not %s[p], 1, 0)" % (XO, XB)] + [c.replace("self.__pointer_data", "self.m_data_ptr") for c in pushed(XC, XV)],
    **dict(X, self_=dict(XSELF, m_result_ptr="dbscan_data"), group=TWO3)) for i, t in enumerate(("points", "distance matrix"))]
