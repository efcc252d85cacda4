"""C04: BSAS, MBSAS, TTSAS."""
from vc.contract import Contract
from .common import *

#: an arbitrary coordinate q of the data set D; w = the sum of that coordinate over the points listed by an index list
MEAN = Group(ghost={"p": "int", "q": "int", "D": "points"},
             measures={"cnt": ("list[int]", "count:p", 3), "w": ("list[int]", "lambda x: D[x][q]", 1, {"real": True, "nonneg": False}), "siz": ("list[int]", "one", 2)})
SELF = {"_data": "points", "_amount": "int", "_threshold": "real", "_clusters": "list[list[int]]", "_representatives": "points"}
B = dict(file="pyclustering/cluster/bsas.py", cls="bsas", group=MEAN, spec=MET, calls={"self._metric": METRIC}, self_=SELF)
DATA = "self._data == D"
RECT = "forall(lambda i: implies(0 <= i and i < len(self._data), len(self._data[i]) == len(self._data[0])))"
R, C = "self._representatives", "self._clusters"
DIMS = "forall(lambda i: implies(0 <= i and i < len(%s), len(%s[i]) == len(self._data[0])))" % (R, R)
EXACT = "implies(0 <= q and q < len(self._data[0]), forall(lambda i: implies(0 <= i and i < len(%s), %s[i][q] * len(%s[i]) == mu('w', %s[i]))))" % (R, R, C, C)
SHAPE = ["len(%s) == len(%s)" % (R, C), DIMS, EXACT, nonempty(C), in_range2(C, "len(self._data)")]
NEAREST = ["0 <= result[0] and result[0] < len(%s)" % R, "result[1] == metric(point, %s[result[0]])" % R,
           "forall(lambda j: implies(0 <= j and j < len(%s), result[1] <= metric(point, %s[j])))" % (R, R)]


def find_nearest(name, **kw):
    return Contract(name, func="_find_nearest_cluster", params={"point": "point"}, ret="tuple[int, real]", requires=["len(%s) > 0" % R], ensures=NEAREST,
        invariants=["_k == 0 or (0 <= index_cluster and index_cluster < _k)", "_k == 0 or nearest_distance == metric(point, %s[index_cluster])" % R, "_k > 0 or nearest_distance == INF",
                    "forall(lambda j: implies(0 <= j and j < _k, nearest_distance <= metric(point, %s[j])))" % R], **dict(B, **kw))


def update_rep(name, **kw):
    d = "(len(%s[index_cluster]) - 1) * old(%s)[index_cluster][j] + point[j]" % (C, R)
    return Contract(name, func="_update_representative", params={"index_cluster": "int", "point": "point"}, modifies=["self._representatives"],
        requires=["0 <= index_cluster and index_cluster < len(%s)" % R, "len(%s) == len(%s)" % (R, C), "len(%s[index_cluster]) == len(point)" % R, "len(%s[index_cluster]) > 0" % C],
        ensures=["len(%s) == len(old(%s))" % (R, R), "len(%s[index_cluster]) == len(point)" % R,
                 "forall(lambda i: implies(0 <= i and i < len(%s) and i != index_cluster, %s[i] == old(%s)[i]))" % (R, R, R),
                 "forall(lambda j: implies(0 <= j and j < len(point), %s[index_cluster][j] * len(%s[index_cluster]) == %s))" % (R, C, d)],
        invariants=["len(%s) == len(old(%s))" % (R, R), "len(%s[index_cluster]) == len(point)" % R,
                    "forall(lambda i: implies(0 <= i and i < len(%s) and i != index_cluster, %s[i] == old(%s)[i]))" % (R, R, R),
                    "forall(lambda j: implies(0 <= j and j < _k, %s[index_cluster][j] * len(%s[index_cluster]) == %s))" % (R, C, d),
                    "forall(lambda j: implies(_k <= j and j < len(point), %s[index_cluster][j] == old(%s)[index_cluster][j]))" % (R, R)], **dict(B, **kw))


#: a cluster is opened in an iteration only if the point is farther than the threshold from every representative of that moment
OPEN = "implies(len(%s) > len(old(%s)), forall(lambda j: implies(0 <= j and j < len(old(%s)), metric(self._data[%s[len(%s) - 1][0]], old(%s)[j]) > self._threshold)))" % (C, C, R, C, C, R)
EMPTY = ["len(%s) == 0" % C, "len(%s) == 0" % R]
PRE = EMPTY + [DATA, "len(self._data) > 0", RECT, "self._amount > 0"]
POST = [partition(C, "len(self._data)"), "len(%s) <= self._amount" % C] + SHAPE

CONTRACTS = [
 find_nearest("bsas._find_nearest_cluster"),
 update_rep("bsas._update_representative"),
 Contract("bsas.process", func="__prcess_by_python", modifies=["self._clusters", "self._representatives"], requires=PRE, ensures=POST, steps=[OPEN],
    invariants=["cnt(%s) == ite(0 <= p and p < _k + 1, 1, 0)" % C, "len(%s) > 0" % C, "len(%s) <= self._amount" % C, in_range2(C, "_k + 1")] + SHAPE, **B),
]
MB = dict(B, file="pyclustering/cluster/mbsas.py", cls="mbsas", bases=["bsas"], uses=["bsas._find_nearest_cluster", "bsas._update_representative"])
CONTRACTS += [
 Contract("mbsas.process", func="__prcess_by_python", modifies=["self._clusters", "self._representatives"], requires=PRE, ensures=POST, steps=[OPEN], locals={"skipped_objects": "list[int]"},
    invariants=["cnt(%s) + cnt(skipped_objects) == ite(0 <= p and p < _k + 1, 1, 0)" % C, "len(%s) > 0" % C, "len(%s) <= self._amount" % C,
                "cnt(%s) + cnt(skipped_objects) - pre('cnt', skipped_objects, _k) == ite(0 <= p and p < len(self._data), 1, 0)" % C, in_range("skipped_objects", "len(self._data)")] + SHAPE, **MB),
]
# TTSAS: skipped objects are flagged; an object is in a cluster as soon as its flag is off
TT = dict(B, file="pyclustering/cluster/ttsas.py", cls="ttsas", bases=["bsas"], uses=["bsas._find_nearest_cluster", "bsas._update_representative"],
          self_=dict(SELF, _threshold2="real", _amount_skipped_objects="int", _skipped_objects="list[bool]"))
TT["group"] = [MEAN, Group(measures={"left": ("list[bool]", "lambda x: ite(x, 1, 0)")})]
F = "self._skipped_objects"
TMOD = ["self._clusters", "self._representatives", "self._amount_skipped_objects", "self._skipped_objects"]
STATE = [DATA, RECT, "len(self._data) > 0", "len(%s) == len(self._data)" % F, "self._amount_skipped_objects == mu('left', %s)" % F,
         "cnt(%s) == ite(0 <= p and p < len(self._data) and not %s[p], 1, 0)" % (C, F)] + SHAPE
IDX = ["0 <= index_point and index_point < len(self._data)", "%s[index_point]" % F, "point == self._data[index_point]"]
P2 = {"index_point": "int", "point": "point"}
#: effect of a step on the flags: only set objects are taken off, and never put back
KEEP = ["forall(lambda i: implies(0 <= i and i < len(self._data) and %s[i], old(%s)[i]))" % (F, F), "len(%s) >= len(old(%s))" % (C, C)]
ONE = ["forall(lambda i: implies(0 <= i and i < len(self._data), %s[i] == (old(%s)[i] and i != index_point)))" % (F, F),
       "self._amount_skipped_objects == old(self._amount_skipped_objects) - 1"]
CONTRACTS += [
 Contract("ttsas.append_to_cluster", func="__append_to_cluster", params=dict({"index_cluster": "int"}, **P2), modifies=TMOD,
    requires=STATE + IDX + ["0 <= index_cluster and index_cluster < len(%s)" % C], ensures=STATE + ONE + ["len(%s) == len(old(%s))" % (C, C)], **TT),
 Contract("ttsas.allocate_cluster", func="__allocate_cluster", params=P2, modifies=TMOD,
    requires=STATE + IDX, ensures=STATE + ONE + ["len(%s) == len(old(%s)) + 1" % (C, C)], **TT),
 Contract("ttsas.process_skipped_object", func="__process_skipped_object", params={"index_point": "int"}, modifies=TMOD,
    requires=STATE + IDX[:2] + ["len(%s) > 0" % C],
    ensures=STATE + KEEP + ["implies(len(%s) > len(old(%s)), forall(lambda j: implies(0 <= j and j < len(old(%s)), metric(self._data[index_point], old(%s)[j]) > self._threshold2)))" % (C, C, R, R),
                            "forall(lambda i: implies(0 <= i and i < len(self._data) and i != index_point, %s[i] == old(%s)[i]))" % (F, F),
                            "self._amount_skipped_objects <= old(self._amount_skipped_objects)"], **TT),
 Contract("ttsas.process_objects", func="__process_objects", params={"changes": "int"}, modifies=TMOD,
    requires=STATE + ["self._amount_skipped_objects > 0", "changes == 0 or len(%s) > 0" % C],
    ensures=STATE + KEEP + ["len(%s) > 0" % C, "implies(changes == 0, self._amount_skipped_objects < old(self._amount_skipped_objects))"],
    invariants=STATE + KEEP + ["len(%s) > 0" % C, "implies(changes == 0, self._amount_skipped_objects < old(self._amount_skipped_objects))"], **TT),
 Contract("ttsas.process", func="__prcess_by_python", modifies=TMOD,
    requires=EMPTY + [DATA, "len(self._data) > 0", RECT, "self._amount_skipped_objects == len(self._data)", "len(%s) == len(self._data)" % F,
                      "forall(lambda i: implies(0 <= i and i < len(self._data), %s[i]))" % F, "mu('left', %s) == len(self._data)" % F],
    ensures=[partition(C, "len(self._data)")] + SHAPE,
    invariants=STATE + ["changes == 0 or len(%s) > 0" % C], **TT),
]

# C++
CC, CR = "self.result_clusters", "self.result_representatives"
X = dict(lang="cpp", group=PART, spec=MET, calls={"self.m_metric": METRIC},
         self_={"result_clusters": "list[list[int]]", "result_representatives": "points", "m_threshold": "real", "m_amount": "int", "m_result_ptr": "bsas_data"},
         cpp={"accessors": {"m_result_ptr.clusters": "result_clusters", "m_result_ptr.representatives": "result_representatives"}, "types": {"bsas_data": "bsas_data", "ttsas_data": "bsas_data", "mbsas_data": "bsas_data"}})
XB = dict(X, file="ccore/src/cluster/bsas.cpp", cls="bsas")
XSHAPE = ["len(%s) == len(%s)" % (CR, CC), nonempty(CC)]
XDIM = lambda d: "forall(lambda i: implies(0 <= i and i < len(%s), len(%s[i]) == len(%s[0])))" % (CR, CR, d)
XRECT = lambda d: "forall(lambda i: implies(0 <= i and i < len(%s), len(%s[i]) == len(%s[0])))" % (d, d, d)
XOPEN = lambda d: "implies(len(%s) > len(old(%s)), forall(lambda j: implies(0 <= j and j < len(old(%s)), metric(%s[%s[len(%s) - 1][0]], old(%s)[j]) > self.m_threshold)))" % (CC, CC, CR, d, CC, CC, CR)


def x_find(**kw):
    return Contract("cpp.bsas.find_nearest_cluster", func="find_nearest_cluster", params={"p_point": "point"}, ret="nearest_cluster", requires=["len(%s) > 0" % CR, "len(%s) == len(%s)" % (CC, CR)],
        ensures=["0 <= result.m_index and result.m_index < len(%s)" % CR, "result.m_distance == metric(p_point, %s[result.m_index])" % CR,
                 "forall(lambda j: implies(0 <= j and j < len(%s), result.m_distance <= metric(p_point, %s[j])))" % (CR, CR)],
        invariants=["_k == 0 or (0 <= result.m_index and result.m_index < _k)", "_k == 0 or result.m_distance == metric(p_point, %s[result.m_index])" % CR, "_k > 0 or result.m_distance == INF",
                    "forall(lambda j: implies(0 <= j and j < _k, result.m_distance <= metric(p_point, %s[j])))" % CR], **dict(XB, **kw))


def x_rep(**kw):
    return Contract("cpp.bsas.update_representative", func="update_representative", params={"p_index": "int", "p_point": "point"}, modifies=[CR],
        requires=["0 <= p_index and p_index < len(%s)" % CR, "len(%s) > 0" % CC, "len(%s[p_index]) == len(p_point)" % CR],
        ensures=["len(%s) == len(old(%s))" % (CR, CR), "forall(lambda i: implies(0 <= i and i < len(%s), len(%s[i]) == len(old(%s)[i])))" % (CR, CR, CR),
                 "forall(lambda i: implies(0 <= i and i < len(%s) and i != p_index, %s[i] == old(%s)[i]))" % (CR, CR, CR)],
        invariants=["len(%s) == len(old(%s))" % (CR, CR), "forall(lambda i: implies(0 <= i and i < len(%s), len(%s[i]) == len(old(%s)[i])))" % (CR, CR, CR),
                    "forall(lambda i: implies(0 <= i and i < len(%s) and i != p_index, %s[i] == old(%s)[i]))" % (CR, CR, CR)], **dict(XB, **kw))


XP = {"p_data": "points", "p_result": "bsas_data"}
XPRE = ["len(%s) == 0" % CC, "len(%s) == 0" % CR, "len(p_data) > 0", XRECT("p_data"), "self.m_amount > 0"]
XPOST = [partition(CC, "len(p_data)"), "len(%s) <= self.m_amount" % CC, XDIM("p_data")] + XSHAPE
CONTRACTS += [x_find(), x_rep(),
 Contract("cpp.bsas.process", func="process", params=XP, modifies=[CC, CR, "self.m_result_ptr"], requires=XPRE, ensures=XPOST, steps=[XOPEN("p_data")],
    invariants=["cnt(%s) == ite(0 <= p and p < _k + 1, 1, 0)" % CC, "i == _k + 1", "i <= len(p_data)", "len(%s) > 0" % CC, "len(%s) <= self.m_amount" % CC, XDIM("p_data")] + XSHAPE, **XB)]
XU = dict(uses=["cpp.bsas.find_nearest_cluster", "cpp.bsas.update_representative"], bases=["bsas"])
CONTRACTS += [
 Contract("cpp.mbsas.process", func="process", params=XP, modifies=[CC, CR, "self.m_result_ptr"], requires=XPRE, ensures=XPOST, steps=[XOPEN("p_data")],
    invariants=["cnt(%s) + cnt(skipped_objects) == ite(0 <= p and p < _k + 1, 1, 0)" % CC, "i == _k + 1", "i <= len(p_data)", "len(%s) > 0" % CC, "len(%s) <= self.m_amount" % CC, XDIM("p_data"),
                "cnt(%s) + cnt(skipped_objects) - pre('cnt', skipped_objects, _k) == ite(0 <= p and p < len(p_data), 1, 0)" % CC, in_range("skipped_objects", "len(p_data)")] + XSHAPE,
    **dict(X, file="ccore/src/cluster/mbsas.cpp", cls="mbsas", **XU)),
]

# C++ TTSAS
XT = dict(X, file="ccore/src/cluster/ttsas.cpp", cls="ttsas", **XU)
XT["group"] = [PART, Group(measures={"left": ("list[bool]", "lambda x: ite(x, 1, 0)")})]
XT["self_"] = dict(X["self_"], m_data_ptr="points", m_threshold2="real", m_skipped_objects="list[bool]", m_start="int")
XF, XD = "self.m_skipped_objects", "self.m_data_ptr"
XMOD = [CC, CR, "self.m_amount", XF]
XSTATE = [XRECT(XD), "len(%s) > 0" % XD, "len(%s) == len(%s)" % (XF, XD), "self.m_amount == mu('left', %s)" % XF, XDIM(XD), "0 <= self.m_start and self.m_start <= len(%s)" % XD,
          "cnt(%s) == ite(0 <= p and p < len(%s) and not %s[p], 1, 0)" % (CC, XD, XF), "forall(lambda i: implies(0 <= i and i < self.m_start, not %s[i]))" % XF] + XSHAPE
XI = ["0 <= p_index_point and p_index_point < len(%s)" % XD, "%s[p_index_point]" % XF]
XI2 = XI + ["p_point == %s[p_index_point]" % XD]
XKEEP = ["forall(lambda i: implies(0 <= i and i < len(%s) and %s[i], old(%s)[i]))" % (XD, XF, XF), "len(%s) >= len(old(%s))" % (CC, CC)]
XONE = ["forall(lambda i: implies(0 <= i and i < len(%s), %s[i] == (old(%s)[i] and i != p_index_point)))" % (XD, XF, XF), "self.m_amount == old(self.m_amount) - 1"]
CONTRACTS += [
 Contract("cpp.ttsas.append_to_cluster", func="append_to_cluster", params={"p_index_cluster": "int", "p_index_point": "int", "p_point": "point"}, modifies=XMOD,
    requires=XSTATE + XI2 + ["0 <= p_index_cluster and p_index_cluster < len(%s)" % CC], ensures=XSTATE + XONE + ["len(%s) == len(old(%s))" % (CC, CC)], **XT),
 Contract("cpp.ttsas.allocate_cluster", func="allocate_cluster", params={"p_index_point": "int", "p_point": "point"}, modifies=XMOD,
    requires=XSTATE + XI2, ensures=XSTATE + XONE + ["len(%s) == len(old(%s)) + 1" % (CC, CC)], **XT),
 Contract("cpp.ttsas.process_skipped_object", func="process_skipped_object", params={"p_index_point": "int"}, modifies=XMOD,
    requires=XSTATE + XI + ["len(%s) > 0" % CC],
    ensures=XSTATE + XKEEP + ["implies(len(%s) > len(old(%s)), forall(lambda j: implies(0 <= j and j < len(old(%s)), metric(%s[p_index_point], old(%s)[j]) > self.m_threshold2)))" % (CC, CC, CR, XD, CR),
                              "forall(lambda i: implies(0 <= i and i < len(%s) and i != p_index_point, %s[i] == old(%s)[i]))" % (XD, XF, XF), "self.m_amount <= old(self.m_amount)"], **XT),
 Contract("cpp.ttsas.process_objects", func="process_objects", params={"p_changes": "int"}, positive=[("left", XF)], modifies=XMOD + ["self.m_start"],
    requires=XSTATE + ["self.m_amount > 0", "p_changes == 0 or len(%s) > 0" % CC],
    ensures=XSTATE + XKEEP + ["len(%s) > 0" % CC, "implies(p_changes == 0, self.m_amount < old(self.m_amount))"],
    invariants=XSTATE + XKEEP + ["len(%s) > 0" % CC, "implies(p_changes == 0, self.m_amount < old(self.m_amount))", "0 <= i and i <= len(%s)" % XD, "self.m_amount == old(self.m_amount)"], **XT),
 Contract("cpp.ttsas.process", func="process", params=XP, modifies=XMOD + ["self.m_start", "self.m_result_ptr", "self.m_data_ptr"],
    requires=["len(%s) == 0" % CC, "len(%s) == 0" % CR, "len(p_data) > 0", XRECT("p_data")],
    ensures=[partition(CC, "len(p_data)"), XDIM("p_data")] + XSHAPE,
    invariants=XSTATE + ["changes == 0 or len(%s) > 0" % CC, "%s == p_data" % XD], **XT),
]
