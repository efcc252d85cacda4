"""C10: conversions between cluster encodings."""
from vc.contract import Contract, Group
from .common import *

F, CL, D = "pyclustering/cluster/encoder.py", "self.__clusters", "self.__data"
#: an arbitrary value w, an arbitrary cluster g; measure: how often w occurs in a list of objects
VAL = Group(ghost={"w": "point", "g": "int"}, measures={"eqw": ("points", "lambda x: ite(x == w, 1, 0)", 1)})
NAN = {"nan": "none"}
#: numbers of objects equal to w among the first k objects labelled g / the first k indices of an index list
LC = {"lcount": (["points", "list[opt[int]]", "int"], "int", ["lambda d, l, k, r: ite(k <= 0, r == 0, r == lcount(d, l, k - 1) + ite(l[k - 1] is not None and l[k - 1] == g and d[k - 1] == w, 1, 0))"])}
IC = {"icount": (["points", "list[int]", "int"], "int", ["lambda d, l, k, r: ite(k <= 0, r == 0, r == icount(d, l, k - 1) + ite(d[l[k - 1]] == w, 1, 0))"])}
LAB = dict(file=F, cls="cluster_encoder", self_={"__clusters": "list[opt[int]]", "__data": "points"}, consts=NAN)
IDX = dict(file=F, cls="cluster_encoder", self_={"__clusters": "list[list[int]]", "__data": "points"}, consts=NAN)
LABELS = ["len(%s) == len(%s)" % (CL, D), "forall(lambda i: implies(0 <= i and i < len(%s) and %s[i] is not None, %s[i] >= 0))" % (CL, CL, CL)]
HAS = lambda k: "p < %s and %s[p] is not None" % (k, CL)

CONTRACTS = [
 Contract("encoder.index_to_label", func="__convert_index_to_label", ret="list[opt[int]]", group=PART, locals={"clusters": "list[opt[int]]"},
    requires=[in_range2(CL, "len(%s)" % D), "0 <= p and p < len(%s)" % D],
    ensures=["len(result) == len(%s)" % D, "(result[p] is None) == (cnt(%s) == 0)" % CL,
             "implies(result[p] is not None, 0 <= result[p] and result[p] < len(%s) and mu('cnt', %s[result[p]]) > 0)" % (CL, CL)],
    invariants=["len(clusters) == len(%s)" % D, "@0: index_cluster == _k", "@1: index_cluster == _k0",
                "@0: (clusters[p] is None) == (pre('cnt', %s, _k) == 0)" % CL, "@0: implies(clusters[p] is not None, 0 <= clusters[p] and clusters[p] < _k and mu('cnt', %s[clusters[p]]) > 0)" % CL,
                "@1: (clusters[p] is None) == (pre('cnt', %s, _k0) + pre('cnt', %s[_k0], _k) == 0)" % (CL, CL),
                "@1: implies(clusters[p] is not None, (0 <= clusters[p] and clusters[p] < _k0 and mu('cnt', %s[clusters[p]]) > 0) or (clusters[p] == _k0 and pre('cnt', %s[_k0], _k) > 0))" % (CL, CL)], **IDX),
 Contract("encoder.index_to_object", func="__convert_index_to_object", ret="list[points]", default_list="points", group=VAL, spec=IC,
    requires=[in_range2(CL, "len(%s)" % D)],
    ensures=["len(result) == len(%s)" % CL, "forall(lambda c: implies(0 <= c and c < len(%s), mu('eqw', result[c]) == icount(%s, %s[c], len(%s[c])) and len(result[c]) == len(%s[c])))" % (CL, D, CL, CL, CL)],
    invariants=["forall(lambda i: implies(0 <= i and i < _k, len(_comp[i]) == 0))", "len(clusters) == len(%s)" % CL,
                "@0: forall(lambda c: implies(0 <= c and c < _k, mu('eqw', clusters[c]) == icount(%s, %s[c], len(%s[c])) and len(clusters[c]) == len(%s[c])))" % (D, CL, CL, CL),
                "@1: forall(lambda c: implies(0 <= c and c < _k0, mu('eqw', clusters[c]) == icount(%s, %s[c], len(%s[c])) and len(clusters[c]) == len(%s[c])))" % (D, CL, CL, CL),
                "@1: len(clusters[_k0]) == _k and mu('eqw', clusters[_k0]) == icount(%s, %s[_k0], _k)" % (D, CL),
                "@0: forall(lambda c: implies(_k <= c and c < len(%s), len(clusters[c]) == 0 and mu('eqw', clusters[c]) == 0))" % CL,
                "@1: forall(lambda c: implies(_k0 < c and c < len(%s), len(clusters[c]) == 0 and mu('eqw', clusters[c]) == 0))" % CL,
                "forall(lambda i: implies(0 <= i and i < _k, mu('eqw', _comp[i]) == 0))"], **IDX),
 Contract("encoder.label_to_index", func="__convert_label_to_index", ret="list[list[int]]", default_list="list[int]", group=PART,
    requires=LABELS + ["0 <= p and p < len(%s)" % D],
    ensures=["cnt(result) == ite(%s[p] is not None, 1, 0)" % CL, "implies(%s[p] is not None, %s[p] < len(result) and mu('cnt', result[%s[p]]) == 1)" % (CL, CL, CL)],
    invariants=["forall(lambda i: implies(0 <= i and i < _k, len(_comp[i]) == 0))", "cnt(_comp) == 0", "cnt(clusters) == ite(%s, 1, 0)" % HAS("_k"),
                "forall(lambda i: implies(0 <= i and i < len(%s) and %s[i] is not None, %s[i] < len(clusters)))" % (CL, CL, CL),
                "forall(lambda i: implies(0 <= i and i < _k and %s[i] is not None, exists(lambda j: 0 <= j and j < len(_comp) and _comp[j] == %s[i])))" % (CL, CL),
                "forall(lambda j: implies(0 <= j and j < len(_comp), _comp[j] >= 0))",
                "implies(%s, mu('cnt', clusters[%s[p]]) == 1)" % (HAS("_k"), CL)], **LAB),
 Contract("encoder.label_to_object", func="__convert_label_to_object", ret="list[points]", default_list="points", group=VAL, spec=LC,
    requires=LABELS, ensures=["implies(0 <= g and g < len(result), mu('eqw', result[g]) == lcount(%s, %s, len(%s)))" % (D, CL, D),
                              "forall(lambda i: implies(0 <= i and i < len(%s) and %s[i] is not None, %s[i] < len(result)))" % (CL, CL, CL)],
    invariants=["forall(lambda i: implies(0 <= i and i < _k, len(_comp[i]) == 0))", "implies(0 <= g and g < len(_comp), mu('eqw', _comp[g]) == 0)",
                "forall(lambda i: implies(0 <= i and i < len(%s) and %s[i] is not None, %s[i] < len(clusters)))" % (CL, CL, CL),
                "forall(lambda i: implies(0 <= i and i < _k and %s[i] is not None, exists(lambda j: 0 <= j and j < len(_comp) and _comp[j] == %s[i])))" % (CL, CL),
                "forall(lambda j: implies(0 <= j and j < len(_comp), _comp[j] >= 0))",
                "implies(0 <= g and g < len(clusters), mu('eqw', clusters[g]) == lcount(%s, %s, _k))" % (D, CL)], **LAB),
]
