"""C16: connections of a network. In the matrix representation conn[i][j] says whether i is connected to j; in the list representation the row of i holds its neighbours, q is an arbitrary one."""
from vc.contract import Contract, Group

G = Group(ghost={"q": "int"}, measures={"cnt": ("list[int]", "count:q", 2)})
C, N = "self._osc_conn", "self._num_osc"
MK = {"self._conn_represent == conn_represent.MATRIX": True, "self._conn_represent == conn_represent.LIST": False}
LK = {"self._conn_represent == conn_represent.MATRIX": False, "self._conn_represent == conn_represent.LIST": True}
DYN = {"self.structure != conn_type.DYNAMIC": False}
NET = dict(file="pyclustering/nnet/__init__.py", cls="network", group=G,
           self_={"_num_osc": "int", "_osc_conn": "list[list[int]]", "_conn_represent": "int", "__conn_type": "int", "__height": "int", "__width": "int"})
M, L = ["self._conn_represent == 1"], ["self._conn_represent == 0"]
EMPTY = ["len(%s) == 0" % C, "%s >= 0" % N]
ROWS = lambda k: "forall(lambda i: implies(0 <= i and i < %s, len(%s[i]) == %s))" % (k, C, N)
CELLS = lambda k, v: "forall(lambda i, j: implies(0 <= i and i < %s and 0 <= j and j < %s, %s[i][j] == ite(%s, 1, 0)))" % (k, N, C, v)
LIST = lambda k, v: "forall(lambda i: implies(0 <= i and i < %s, mu('cnt', %s[i]) == ite(0 <= q and q < %s and (%s), 1, 0)))" % (k, C, N, v)
CONTRACTS = []


def structure(name, func, cell, modifies=[C], **kw):
    li = cell.replace("j", "q")
    CONTRACTS.append(Contract("network.%s(matrix)" % name, func=func, modifies=modifies, requires=M + EMPTY, ensures=["len(%s) == %s" % (C, N), ROWS(N), CELLS(N, cell)],
        invariants=["@0: len(%s) == _k" % C, ROWS("_k"), CELLS("_k", cell), "len(_comp) == _k"], **dict(dict(NET, consts=MK), **kw)))
    CONTRACTS.append(Contract("network.%s(list)" % name, func=func, modifies=modifies, requires=L + EMPTY, ensures=["len(%s) == %s" % (C, N), LIST(N, li)],
        invariants=["@0: len(%s) == _k" % C, "@0: " + LIST("_k", li), "mu('cnt', _comp) == ite(0 <= q and q < _k and q != index, 1, 0)", "len(_comp) == _k",
                    "forall(lambda i: implies(0 <= i and i < _k, len(_comp[i]) == 0))"], **dict(dict(NET, consts=LK, default_list="list[int]"), **kw)))


structure("create_all_to_all_connections", "__create_all_to_all_connections", "i != j")
structure("create_list_bidir_connections", "__create_list_bidir_connections", "j == i + 1 or j == i - 1")
structure("create_none_connections", "__create_none_connections", "False")
structure("create_dynamic_connection", "__create_dynamic_connection", "False")
IN = lambda *x: " and ".join("0 <= {0} and {0} < {1}".format(y, N) for y in x)
SHAPE = ["len(%s) == %s" % (C, N), ROWS(N)]
CONTRACTS += [
 Contract("network.create_connection(matrix)", func="__create_connection", params={"index1": "int", "index2": "int"}, modifies=[C], requires=M + SHAPE + [IN("index1", "index2")],
    ensures=SHAPE + ["forall(lambda i, j: implies({0}, {1}[i][j] == ite(i == index1 and j == index2, 1, old({1})[i][j])))".format(IN("i", "j"), C)], **dict(NET, consts=dict(MK, **DYN))),
 Contract("network.create_connection(list)", func="__create_connection", params={"index1": "int", "index2": "int"}, modifies=[C], requires=L + SHAPE[:1] + [IN("index1")],
    ensures=SHAPE[:1] + ["forall(lambda i: implies({0}, mu('cnt', {1}[i]) == mu('cnt', old({1})[i]) + ite(i == index1 and index2 == q, 1, 0)))".format(IN("i"), C)], **dict(NET, consts=dict(LK, **DYN))),
 Contract("network.has_connection(matrix)", func="has_connection", params={"i": "int", "j": "int"}, ret="int", requires=M + SHAPE + [IN("i", "j")], ensures=["result == %s[i][j]" % C], **dict(NET, consts=dict(MK, **DYN))),
 Contract("network.has_connection(list)", func="has_connection", params={"i": "int", "j": "int"}, ret="bool", requires=L + SHAPE[:1] + [IN("i"), "j == q"], ensures=["result == (mu('cnt', %s[i]) > 0)" % C],
    invariants=["pre('cnt', %s[i], _k) == 0" % C], **dict(NET, consts=dict(LK, **DYN))),
 Contract("network.get_neighbors(matrix)", func="get_neighbors", params={"index": "int"}, ret="list[int]", requires=M + SHAPE + [IN("index")],
    ensures=["mu('cnt', result) == ite(%s and %s[index][q] == 1, 1, 0)" % (IN("q"), C)], invariants=["mu('cnt', _comp) == ite(0 <= q and q < _k and %s[index][q] == 1, 1, 0)" % C], **dict(NET, consts=dict(MK, **DYN))),
 Contract("network.get_neighbors(list)", func="get_neighbors", params={"index": "int"}, ret="list[int]", requires=L + SHAPE[:1] + [IN("index")], ensures=["result == %s[index]" % C], **dict(NET, consts=dict(LK, **DYN))),
 Contract("network.set_connection(matrix)", func="set_connection", params={"i": "int", "j": "int"}, modifies=[C], requires=M + SHAPE + [IN("i", "j")],
    ensures=SHAPE + ["forall(lambda a, b: implies({0}, {1}[a][b] == ite((a == i and b == j) or (a == j and b == i), 1, old({1})[a][b])))".format(IN("a", "b"), C)], **dict(NET, consts=dict(MK, **DYN))),
 Contract("network.set_connection(list)", func="set_connection", params={"i": "int", "j": "int"}, modifies=[C], requires=L + SHAPE[:1] + [IN("i", "j")],
    ensures=SHAPE[:1] + ["forall(lambda a: implies({0}, mu('cnt', {1}[a]) == mu('cnt', old({1})[a]) + ite(a == i and j == q, 1, 0) + ite(a == j and i == q, 1, 0)))".format(IN("a"), C)], **dict(NET, consts=dict(LK, **DYN))),
]
W = "self.__width"
#: a grid connects no node with itself, only the nodes before and after in the numbering or one row away, and always the latter
NEAR4 = "(%s == i - 1 or %s == i + 1 or %s == i - {0} or %s == i + {0})".format(W)
NEAR8 = "(%s == i - 1 or %s == i + 1 or %s == i - {0} or %s == i + {0} or %s == i - {0} - 1 or %s == i - {0} + 1 or %s == i + {0} - 1 or %s == i + {0} + 1)".format(W)


def grid(name, func, near, n, pre, uses, w):
    nj, nq = near % (("j",) * n), near % (("q",) * n)
    vert = "(%s == i + {0} or %s == i - {0})".format(W)
    cell = lambda k, a, b: ["forall(lambda i, j: implies(0 <= i and i < %s and 0 <= j and j < %s, 0 <= %s[i][j] and %s[i][j] <= 1 and implies(%s[i][j] == 1, %s and i != j) and implies(%s, %s[i][j] == 1)))" % (k, N, C, C, C, a, b, C)]
    rest = lambda k: ["forall(lambda i, j: implies(%s <= i and i < %s and 0 <= j and j < %s, %s[i][j] == 0))" % (k, N, N, C)]
    base = dict(NET, consts=MK)
    CONTRACTS.append(Contract("network.%s(matrix)" % name, func=func, modifies=[C], requires=M + ["%s >= 0" % N, W + " > 1"], uses=uses[0], ensures=SHAPE + cell(N, nj, vert % ("j", "j")),
        invariants=["len(_comp) == _k", "forall(lambda i: implies(0 <= i and i < _k, len(_comp[i]) == %s))" % N, "forall(lambda i, j: implies(0 <= i and i < _k and 0 <= j and j < %s, _comp[i][j] == 0))" % N] + SHAPE +
            ["side_size == " + W] + (cell("_k", nj, vert % ("j", "j")) + rest("_k") if n == 4 else cell(N, nj, vert % ("j", "j"))), **base))
    each = lambda k, c: "forall(lambda i: implies(0 <= i and i < %s, %s))" % (k, c)
    some = lambda k, a, b: [each(k, "implies(mu('cnt', %s[i]) > 0, 0 <= q and q < %s and %s and i != q)" % (C, N, a)), each(k, "implies(0 <= q and q < %s and %s, mu('cnt', %s[i]) >= 1)" % (N, b, C))] + ([each(k, "mu('cnt', %s[i]) <= 1" % C)] if n == 4 else [])
    CONTRACTS.append(Contract("network.%s(list)" % name, func=func, modifies=[C], requires=L + ["%s >= 0" % N, W + " > %d" % w], uses=uses[1], default_list="list[int]", plain_quotients=True, ensures=["len(%s) == %s" % (C, N)] + some(N, nq, vert % ("q", "q")),
        invariants=["len(_comp) == _k", "forall(lambda i: implies(0 <= i and i < _k, len(_comp[i]) == 0))", "len(%s) == %s" % (C, N), "side_size == " + W] +
            (some("_k", nq, vert % ("q", "q")) + ["forall(lambda i: implies(_k <= i and i < %s, mu('cnt', %s[i]) == 0))" % (N, C)] if n == 4 else some(N, nq, vert % ("q", "q"))),
        **dict(NET, consts=LK)))


grid("create_grid_four_connections", "__create_grid_four_connections", NEAR4, 4, [], (["network.create_connection(matrix)"], ["network.create_connection(list)"]), 1)
grid("create_grid_eight_connections", "__create_grid_eight_connections", NEAR8, 8, [], (["network.create_connection(matrix)", "network.create_grid_four_connections(matrix)"], ["network.create_connection(list)", "network.create_grid_four_connections(list)"]), 1)
CX = lambda m: dict(NET, consts=dict(MK if m == "matrix" else LK, **{"conn_type.NONE": 0, "conn_type.ALL_TO_ALL": 1, "conn_type.GRID_FOUR": 2, "conn_type.GRID_EIGHT": 3, "conn_type.LIST_BIDIR": 4, "conn_type.DYNAMIC": 5}))
KIND = [(1, "i != j"), (4, "j == i + 1 or j == i - 1"), (0, "False"), (5, "False")]
GRID = "(type_conn == 2 or type_conn == 3)"
for m in ("matrix", "list"):
    call = ["network.%s(%s)" % (x, m) for x in ("create_all_to_all_connections", "create_list_bidir_connections", "create_none_connections", "create_dynamic_connection", "create_grid_four_connections", "create_grid_eight_connections")]
    CONTRACTS.append(Contract("network.create_structure(%s)" % m, func="_create_structure", params={"type_conn": "int"}, modifies=[C], uses=call,
        requires=(M if m == "matrix" else L) + ["%s >= 0" % N, "0 <= type_conn and type_conn <= 5", "implies(%s, self.__width > 1 and self.__height * self.__width == %s)" % (GRID, N)],
        ensures=["len(%s) == %s" % (C, N)] + ["implies(type_conn == %d, %s)" % (t, CELLS(N, cell) if m == "matrix" else LIST(N, cell.replace("j", "q"))) for t, cell in KIND], **CX(m)))
