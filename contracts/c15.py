"""C15: saturation-degree colouring. Adjacency matrix of an undirected graph without self-loops."""
from vc.contract import Contract

DP, CO = "self.__data_pointer", "self.__coloring"
N = "len(%s)" % DP
D = dict(file="pyclustering/gcolor/dsatur.py", cls="dsatur", self_={"__data_pointer": "list[list[int]]", "__coloring": "list[int]"})
SQ = "forall(lambda i: implies(0 <= i and i < {1}, len({0}[i]) == {1}))".format(DP, N)
IN = lambda x: "0 <= {0} and {0} < {1}".format(x, N)
RNG = lambda l: "forall(lambda k: implies(0 <= k and k < len({0}), 0 <= {0}[k] and {0}[k] < {1}))".format(l, N)
#: adjacent vertices that have colours have different ones
PROPER = "forall(lambda i, j: implies({0} and {1} and {2}[i][j] != 0 and {3}[i] != 0, {3}[i] != {3}[j]))".format(IN("i"), IN("j"), DP, CO)
SYM = "forall(lambda i, j: implies({0} and {1}, ({2}[i][j] != 0) == ({2}[j][i] != 0) and implies(i == j, {2}[i][j] == 0)))".format(IN("i"), IN("j"), DP)
U = "uncolored_vertices"
FREE = "forall(lambda i: (i in {0}) == ({1} and {2}[i] == 0))".format(U, IN("i"), CO)
COL = "forall(lambda i: implies(%s, 0 <= %s[i] and %s[i] <= color_counter))" % (IN("i"), CO, CO)
DEG = ["len(degrees) == " + N, "forall(lambda k: implies(%s, degrees[k][1] == k))" % IN("k")]
CONTRACTS = [
 Contract("dsatur.get_neighbors", func="__get_neighbors", params={"node_index": "int"}, ret="list[int]", requires=[IN("node_index"), SQ],
    ensures=[RNG("result"), "forall(lambda k: implies(0 <= k and k < len(result), %s[node_index][result[k]] != 0))" % DP, "forall(lambda j: implies(%s and %s[node_index][j] != 0, exists(lambda k: 0 <= k and k < len(result) and result[k] == j)))" % (IN("j"), DP)],
    invariants=[RNG("_comp"), "forall(lambda k: implies(0 <= k and k < len(_comp), %s[node_index][_comp[k]] != 0))" % DP, "forall(lambda j: implies(0 <= j and j < _k and %s[node_index][j] != 0, exists(lambda k: 0 <= k and k < len(_comp) and _comp[k] == j)))" % DP], **D),
 Contract("dsatur.get_amount_color", func="__get_amount_color", params={"node_indexes": "list[int]", "color_number": "int"}, ret="int", requires=[RNG("node_indexes"), "len(%s) == %s" % (CO, N)],
    ensures=["result >= 0", "(result == 0) == forall(lambda k: implies(0 <= k and k < len(node_indexes), %s[node_indexes[k]] != color_number))" % CO],
    invariants=["color_counter >= 0", "(color_counter == 0) == forall(lambda k: implies(0 <= k and k < _k, %s[node_indexes[k]] != color_number))" % CO], **D),
 Contract("dsatur.process", func="process", modifies=[CO], requires=[N + " > 0", SQ], uses=["dsatur.get_neighbors", "dsatur.get_amount_color"],
    ensures=["len(%s) == %s" % (CO, N), "forall(lambda i: implies(%s, %s[i] > 0))" % (IN("i"), CO)],
    invariants=["len(%s) == %s" % (CO, N), "len(saturation_degrees) == " + N, FREE, COL, "color_counter >= 1"] + DEG + ["@0: len(degrees) == _k", "@0: forall(lambda k: implies(0 <= k and k < _k, degrees[k][1] == k))", IN("index_maximum_degree"), IN("coloring_index"),
        "forall(lambda k: implies(%s, saturation_degrees[k] >= 0))" % IN("k"), "implies(_k > 0, maximum_satur_degree >= 0)", "maximum_satur_degree >= -1",
        "@1: implies(_k1 == 0, maximum_satur_degree == -1)", "@1: implies(_k1 > 0, exists(lambda q: 0 <= q and q < _k1 and saturation_degrees[_seq[q]] == maximum_satur_degree))",
        "@1: implies(_k1 > 0, exists(lambda w: w in %s and saturation_degrees[w] == maximum_satur_degree))" % U, "exists(lambda w: w in %s and saturation_degrees[w] == maximum_satur_degree)" % U,
        "@1: forall(lambda k: implies(0 <= k and k < _k1, saturation_degrees[_seq[k]] <= maximum_satur_degree))", "@1: forall(lambda k: implies(0 <= k and k < _k1 and saturation_degrees[_seq[k]] == maximum_satur_degree, len(_comp) > 0))",
        "forall(lambda k: implies(0 <= k and k < len(_comp), _comp[k] in %s))" % U, "coloring_index in " + U, RNG("node_index_neighbors"),
        "forall(lambda k: implies(0 <= k and k < len(indexes_maximum_satur_degree), indexes_maximum_satur_degree[k] in %s))" % U], **D),
 Contract("dsatur.process proper", func="process", modifies=[CO], requires=[N + " > 0", SQ, SYM], uses=["dsatur.get_neighbors", "dsatur.get_amount_color"], safe_by="dsatur.process", ensures=[PROPER],
    invariants=["len(%s) == %s" % (CO, N), "len(saturation_degrees) == " + N, PROPER, FREE, COL, "color_counter >= 1"] + DEG + ["@0: len(degrees) == _k", "@0: forall(lambda k: implies(0 <= k and k < _k, degrees[k][1] == k))", IN("index_maximum_degree"), IN("coloring_index"),
        "forall(lambda k: implies(0 <= k and k < len(_comp), _comp[k] in %s))" % U, "coloring_index in " + U, RNG("node_index_neighbors"),
        "forall(lambda k: implies(0 <= k and k < len(indexes_maximum_satur_degree), indexes_maximum_satur_degree[k] in %s))" % U], **D),
]
