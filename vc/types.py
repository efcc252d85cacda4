"""Types, sorts and values of the verified core language."""
import ast
import z3


class Unsupported(Exception):
    """The function left the verified subset: it is reported as not extractable, never skipped."""


class Ty:
    __slots__ = ("kind", "args", "name")

    def __init__(self, kind, args=(), name=None):
        self.kind, self.args, self.name = kind, tuple(args), name

    def __eq__(self, o):
        return isinstance(o, Ty) and (self.kind, self.args, self.name) == (o.kind, o.args, o.name)

    def __hash__(self):
        return hash((self.kind, self.args, self.name))

    def __repr__(self):
        if self.kind in ("ref", "rec", "fun", "abs"):
            return "%s_%s" % (self.kind, self.name)
        if self.args:
            return "%s[%s]" % (self.kind, ",".join(map(repr, self.args)))
        return self.kind

    @property
    def elem(self):
        return self.args[0]


INT, REAL, BOOL, NONE, STR = Ty("int"), Ty("real"), Ty("bool"), Ty("none"), Ty("str")
UNK = Ty("unk")


def TList(e):
    return Ty("list", (e,))


def TSet(e):
    return Ty("set", (e,))


def TTuple(es):
    return Ty("tuple", es)


def TOpt(e):
    return Ty("opt", (e,))


RECORDS = {"sync_network_state": [("m_phase", "point"), ("m_time", "real")],
           "dnode": [("payload", "int"), ("data", "point")],
           "nearest_cluster": [("m_index", "int"), ("m_distance", "real")]}      # name -> list of (field, Ty)     value records
CLASSES = {}      # name -> dict field -> Ty        heap classes


def parse_ty(s):
    if isinstance(s, Ty):
        return s
    node = ast.parse(s, mode="eval").body
    return _pt(node)


def _pt(n):
    if isinstance(n, ast.Name):
        m = {"int": INT, "real": REAL, "bool": BOOL, "none": NONE, "str": STR, "unk": UNK,
             "point": TList(REAL), "points": TList(TList(REAL))}
        if n.id in m:
            return m[n.id]
        if n.id in RECORDS:
            return Ty("rec", (), n.id)
        if n.id in CLASSES:
            return Ty("ref", (), n.id)
        return Ty("abs", (), n.id)
    if isinstance(n, ast.Subscript):
        k = n.value.id
        a = n.slice
        args = a.elts if isinstance(a, ast.Tuple) else [a]
        if k in ("ref", "rec", "fun", "abs"):
            return Ty(k, (), args[0].id)
        return Ty(k, [_pt(x) for x in args])
    raise Unsupported("type " + ast.dump(n))


_sorts = {}


def nm(ty):
    return repr(ty).replace("[", "_").replace("]", "").replace(",", "_")


def sort(ty):
    if ty in _sorts:
        return _sorts[ty]
    k = ty.kind
    if k in ("int", "str"):
        s = z3.IntSort()
    elif k == "real":
        s = z3.RealSort()
    elif k in ("bool", "none"):
        s = z3.BoolSort()
    elif k == "list":
        d = z3.Datatype("L_" + nm(ty.elem))
        d.declare("mk_" + nm(ty), ("len_" + nm(ty), z3.IntSort()), ("arr_" + nm(ty), z3.ArraySort(z3.IntSort(), sort(ty.elem))))
        s = d.create()
    elif k == "set":
        s = z3.ArraySort(sort(ty.elem), z3.BoolSort())
    elif k == "dict":        # total array of optional values
        s = z3.ArraySort(sort(ty.args[0]), sort(TOpt(ty.args[1])))
    elif k == "tuple":
        d = z3.Datatype("T_" + nm(ty))
        d.declare("mk_" + nm(ty), *[("f%d_%s" % (i, nm(ty)), sort(t)) for i, t in enumerate(ty.args)])
        s = d.create()
    elif k == "opt":
        d = z3.Datatype("O_" + nm(ty))
        d.declare("none_" + nm(ty))
        d.declare("some_" + nm(ty), ("val_" + nm(ty), sort(ty.elem)))
        s = d.create()
    elif k == "rec":
        d = z3.Datatype("R_" + ty.name)
        d.declare("mk_" + ty.name, *[(f + "_" + ty.name, sort(parse_ty(t))) for f, t in RECORDS[ty.name]])
        s = d.create()
    elif k in ("ref", "abs"):
        s = z3.DeclareSort(ty.name + "_" + k)
    elif k == "fun":
        s = z3.DeclareSort("fun_" + ty.name)
    else:
        raise Unsupported("no sort for %r" % ty)
    _sorts[ty] = s
    return s


class V:
    __slots__ = ("ty", "z")

    def __init__(self, ty, z):
        self.ty, self.z = ty, z

    def __repr__(self):
        return "V(%r, %s)" % (self.ty, self.z)


def llen(v):
    return sort(v.ty).accessor(0, 0)(v.z)


def larr(v):
    return sort(v.ty).accessor(0, 1)(v.z)


def lget(v, i):
    return V(v.ty.elem, z3.Select(larr(v), i))


def lmk(ty, n, a):
    return V(ty, sort(ty).constructor(0)(n, a))


def tmk(vs, ty=None):
    ty = ty or TTuple([v.ty for v in vs])
    return V(ty, sort(ty).constructor(0)(*[v.z for v in vs]))


def tget(v, i):
    return V(v.ty.args[i], sort(v.ty).accessor(0, i)(v.z))


def onone(ty):
    return V(ty, sort(ty).constructor(0)())


def osome(ty, v):
    return V(ty, sort(ty).constructor(1)(v.z))


def ois_none(v):
    return sort(v.ty).recognizer(0)(v.z)


def oval(v):
    return V(v.ty.elem, sort(v.ty).accessor(1, 0)(v.z))


def rget(v, f):
    for i, (n, t) in enumerate(RECORDS[v.ty.name]):
        if n == f:
            return V(parse_ty(t), sort(v.ty).accessor(0, i)(v.z))
    raise Unsupported("record %s has no field %s" % (v.ty.name, f))


def rset(v, f, x):
    fs = RECORDS[v.ty.name]
    vals = [(x.z if n == f else sort(v.ty).accessor(0, i)(v.z)) for i, (n, t) in enumerate(fs)]
    return V(v.ty, sort(v.ty).constructor(0)(*vals))


def dget(v, key):
    """optional value of a dictionary at a key"""
    return V(TOpt(v.ty.args[1]), z3.Select(v.z, key))


def null(ty):
    return V(ty, z3.Const("null_" + ty.name, sort(ty)))
