"""C13: centre initialisers. Every random draw is an arbitrary value of its range, so the claims hold for every seed.
p: an arbitrary but fixed index of the data set; 'cnt' counts its occurrences among the centres."""
from vc.contract import Contract
from .common import *

F = "pyclustering/cluster/center_initializer.py"
D, A = "self.__data", "self.__available_indexes"
N = "len(%s)" % D
RAND = {"random.randint": {"args": ["int", "int"], "ret": "int", "requires": ["a0 <= a1"], "ensures": ["a0 <= result", "result <= a1"], "doc": "random.randint: any integer of the closed range"},
        "random.random": {"args": [], "ret": "real", "ensures": ["0 <= result", "result < 1"], "doc": "random.random: any real of [0, 1)"}}
IN = lambda x: "0 <= {0} and {0} < {1}".format(x, N)
R = dict(file=F, cls="random_center_initializer", self_={"__data": "points", "__amount": "int", "__available_indexes": "set[int]"}, group=PART, calls=RAND)
AVAIL = "forall(lambda i: implies(i in %s, %s))" % (A, IN("i"))
FROM = lambda l, d=D: "forall(lambda k: implies(0 <= k and k < len({0}), exists(lambda j: 0 <= j and j < len({1}) and {0}[k] == {1}[j])))".format(l, d)
ROOM = "self.__amount > 0 and self.__amount <= " + N
SETC = "card(%s)" % A
def rnd(tag, index):
    ret = "list[int]" if index else "points"
    cc = {"return_index": index}
    inv = ["len(_comp) == _k", AVAIL, "len(%s) == %s - _k" % (A, N)]
    if index:
        inv += ["mu('cnt', _comp) == ite(0 <= p and p < {0} and not (p in {1}), 1, 0)".format(N, A), in_range("_comp", N)]
        ens = ["len(result) == self.__amount", in_range("result", N), "mu('cnt', result) <= 1"]
    else:
        inv += [FROM("_comp")]
        ens = ["len(result) == self.__amount", FROM("result")]
    return [Contract("random.create_center(%s)" % tag, func="__create_center", params={"return_index": "bool"}, ret="int" if index else "point", static=cc, requires=["len(%s) > 0" % A, AVAIL], modifies=[A],
                ensures=[AVAIL, "len({0}) == len(old({0})) - 1".format(A)] + ([IN("result"), "result in old(%s)" % A, "not (result in %s)" % A, "forall(lambda i: (i in {0}) == ((i in old({0})) and i != result))".format(A)] if index else
                         ["exists(lambda j: %s and result == %s[j])" % (IN("j"), D)]), **R),
            Contract("random.initialize(%s)" % tag, func="initialize", params={}, ret=ret, requires=[ROOM], modifies=[A], consts={"kwargs.get('return_index', False)": index, "return_index": index}, uses=["random.create_center(%s)" % tag],
                ensures=ens, invariants=inv, **R)]

K, FR = dict(file=F, cls="kmeans_plusplus_initializer", self_={"__data": "points", "__amount": "int", "__candidates": "int", "__free_indexes": "set[int]", "__data_type": "str"}, group=PART), "self.__free_indexes"
#: free indexes are exactly those that are no centre
FREE = lambda c: "forall(lambda k: implies(0 <= k and k < len({0}), {1} and not ({0}[k] in {2})))".format(c, IN(c + "[k]"), FR)
FRIN = "forall(lambda i: implies(i in %s, %s))" % (FR, IN("i"))
COMPL = lambda c: "forall(lambda i: implies({1} and not (i in {2}), exists(lambda k: 0 <= k and k < len({0}) and {0}[k] == i)))".format(c, IN("i"), FR)
MINOF = "forall(lambda j: implies(0 <= j and j < len(m[0]), exists(lambda k: 0 <= k and k < len(m) and result[j] == m[k][j]) and forall(lambda k: implies(0 <= k and k < len(m), result[j] <= m[k][j]))))"
NP = {"numpy.nanmin": {"names": ["m", "axis"], "args": ["points", "int"], "ret": "point", "requires": ["len(m) > 0", "axis == 0"], "ensures": ["len(result) == len(m[0])", MINOF], "doc": "numpy.nanmin(axis=0): column minima (no not-a-number: distances are finite)"}}
SEL = {"numpy.nanargmax": {"args": ["list[opt[real]]"], "ret": "int", "requires": ["exists(lambda j: 0 <= j and j < len(a0) and a0[j] is not None)"],
        "ensures": ["0 <= result and result < len(a0)", "a0[result] is not None", "forall(lambda j: implies(0 <= j and j < len(a0) and a0[j] is not None, a0[j] <= a0[result]))"], "doc": "numpy.nanargmax: raises ValueError when every value is not-a-number"}}
PTS = {"self.__data_type == 'points'": True, "self.__data_type == 'distance_matrix'": False}
MAT = {"self.__data_type == 'points'": False, "self.__data_type == 'distance_matrix'": True}
CIN = in_range("centers", N)
ROW = lambda k: "len(dataset_differences[{0}]) == {1} and forall(lambda j: implies({2}, dataset_differences[{0}][j] == {3}))".format(k, N, IN("j"), "%s")
DIFF = lambda val: "forall(lambda q: implies(0 <= q and q < _k, len(dataset_differences[q]) == {0} and forall(lambda j: implies(0 <= j and j < {0}, dataset_differences[q][j] == {1}))))".format(N, val)
#: distance of point j to centre c: by the metric (0 on itself, see C11) or from the given matrix (zero diagonal)
def shortest(tag, val, refl, consts):
    v = lambda c, j: val.format(c=c, j=j)
    return Contract("kpp.shortest_distances(%s)" % tag, func="__calculate_shortest_distances", params={"data": "points", "centers": "list[int]"}, ret="point", consts=consts, spec=MET if tag == "points" else {},
        requires=["len(centers) > 0", CIN, "data == " + D, N + " > 0"] + refl,
        ensures=["len(result) == " + N, "forall(lambda j: implies(%s, result[j] >= 0))" % IN("j"), "forall(lambda k: implies(0 <= k and k < len(centers), result[centers[k]] == 0))",
                 "forall(lambda j, k: implies({0} and 0 <= k and k < len(centers), result[j] <= {1}))".format(IN("j"), v("centers[k]", "j")), "forall(lambda j: implies({0}, exists(lambda k: 0 <= k and k < len(centers) and result[j] == {1})))".format(IN("j"), v("centers[k]", "j"))],
        invariants=["len(dataset_differences) == len(centers)", DIFF(v("centers[q]", "j"))], calls=dict(NP, **{"self.__metric": METRICS}), **K)
def nxt(tag, refl, consts):
    base = dict(func="__get_next_center", params={"centers": "list[int]"}, ret="int", requires=["len(centers) > 0", CIN, N + " > 0", FREE("centers"), FRIN, COMPL("centers"), "len(%s) > 0" % FR] + refl,
                ensures=["result in " + FR, IN("result")])
    far = "self.__candidates == kmeans_plusplus_initializer.FARTHEST_CENTER_CANDIDATE"
    sp = MET if tag == "points" else {}
    return [Contract("kpp.get_next_center(%s, farthest)" % tag, uses=["kpp.shortest_distances(%s)" % tag], consts=dict(consts, **{far: True, "nan": "none"}), locals={"distances": "list[opt[real]]"}, calls=SEL, spec=sp,
                invariants=["len(distances) == " + N, "forall(lambda j: implies({0} and j in {1}, distances[j] is not None))".format(IN("j"), FR), "forall(lambda k: implies(0 <= k and k < _k, distances[centers[k]] is None))"], **dict(K, **base)),
            Contract("kpp.get_next_center(%s, probable)" % tag, uses=["kpp.shortest_distances(%s)" % tag, "kpp.calculate_probabilities", "kpp.get_probable_center"], consts=dict(consts, **{far: False}), spec=sp, **dict(K, **dict(base, requires=base["requires"] + ["self.__candidates > 0"])))]
PROB = ["len(probabilities) == len(distances)", "forall(lambda j: implies(0 <= j and j < len(distances), distances[j] >= 0 and implies(distances[j] == 0, probabilities[j] == ite(j == 0, 0, probabilities[j - 1]))))"]
REFP, REFM = ["forall(lambda i: implies({0}, metric({1}[i], {1}[i]) == 0))".format(IN("i"), D)], ["forall(lambda i: implies({0}, len({1}[i]) == {2} and {1}[i][i] == 0))".format(IN("i"), D, N), "forall(lambda i, j: implies({0} and {1}, {2}[i][j] >= 0))".format(IN("i"), IN("j"), D)]
CONTRACTS = rnd("points", False) + rnd("indexes", True) + [
 shortest("points", "metric(%s[{j}], %s[{c}])" % (D, D), REFP, PTS), shortest("matrix", "%s[{c}][{j}]" % D, REFM, MAT),
 Contract("kpp.calculate_probabilities", func="__calculate_probabilities", params={"distances": "point"}, ret="point", requires=["len(distances) > 0", "forall(lambda j: implies(0 <= j and j < len(distances), distances[j] >= 0))"],
    ensures=[x.replace("probabilities", "result") for x in PROB], calls={"numpy.cumsum": {"args": ["point"], "ret": "point", "ensures": ["len(result) == len(a0)", "forall(lambda j: implies(0 <= j and j < len(a0), result[j] == ite(j == 0, 0, result[j - 1]) + a0[j]))"], "doc": "numpy.cumsum (exact)"}}, **K),
 Contract("kpp.get_probable_center", func="__get_probable_center", params={"distances": "point", "probabilities": "point"}, ret="int", requires=["len(distances) == " + N, N + " > 0", "self.__candidates > 0", "len(%s) > 0" % FR, FRIN, "forall(lambda j: implies({0} and not (j in {1}), distances[j] == 0))".format(IN("j"), FR)] + PROB,
    ensures=["result in " + FR, IN("result")], calls=RAND,
    invariants=[IN("index_best_candidate"), "@0: implies(_k > 0, index_best_candidate in %s)" % FR, "@1: implies(_k1 > 0, candidate_probability >= probabilities[_k1 - 1])", "@1: index_candidate == -1", "@1: candidate_probability >= 0"], **K),
] + nxt("points", REFP, PTS) + nxt("matrix", REFM, MAT) + [
 Contract("kpp.get_initial_center(index)", func="__get_initial_center", params={"return_index": "bool"}, static={"return_index": True}, ret="int", requires=[N + " > 0"], ensures=[IN("result")], calls=RAND, **K),
] + [Contract("kpp.initialize(%s, %s)" % (tag, how), func="initialize", params={}, ret="list[int]", requires=[ROOM, "self.__candidates > 0"] + refl, uses=["kpp.get_initial_center(index)", "kpp.get_next_center(%s, %s)" % (tag, how)], modifies=[FR], spec=MET if tag == "points" else {},
    consts=dict(consts, **{"kwargs.get('return_index', None)": True, "return_index": True}),
    ensures=["len(result) == self.__amount", in_range("result", N), "mu('cnt', result) <= 1"],
    invariants=["len(centers) == _k + 1", CIN, FREE("centers"), FRIN, COMPL("centers"), "len(%s) == %s - _k - 1" % (FR, N), "mu('cnt', centers) == ite(0 <= p and p < {0} and not (p in {1}), 1, 0)".format(N, FR)], **K) for tag, refl, consts in (("points", REFP, PTS), ("matrix", REFM, MAT)) for how in ("farthest", "probable")]
