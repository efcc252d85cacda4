"""Deductive verifier for the core language: forward symbolic execution, loops cut by invariants.

Everything a verified function may do is modelled here; anything else raises Unsupported, and the
function is then reported as not extractable.
"""
import ast
import re
import copy
import itertools
import z3

from .types import *          # noqa: F401,F403
from .types import Unsupported, Ty, V

U64 = 1 << 64
MUT = {"append", "pop", "remove", "extend", "insert", "clear", "sort", "reverse", "add", "discard",
       "__push__", "__popback__", "__resize__", "__clear__", "__reserve__", "__eraseat__", "__assign__",
       "__insert__", "__copyat__", "__swapwith__", "__setdefault__"}


class Alias:
    """A variable denoting a place inside another variable (Python sharing, C++ reference)."""
    __slots__ = ("root", "path")

    def __init__(self, root, path):
        self.root, self.path = root, tuple(path)

    def __repr__(self):
        return "Alias(%s,%s)" % (self.root, self.path)


class State:
    __slots__ = ("env", "heap", "pc", "shared")

    def __init__(self, env, heap, pc, shared):
        self.env, self.heap, self.pc, self.shared = env, heap, pc, shared

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, set(self.shared))


class Ob:
    __slots__ = ("name", "n", "pc", "goal", "line")

    def __init__(self, name, n, pc, goal, line):
        self.name, self.n, self.pc, self.goal, self.line = name, n, pc, goal, line


def conj(*a):
    a = [x for x in a if not z3.is_true(x)]
    if not a:
        return z3.BoolVal(True)
    return a[0] if len(a) == 1 else z3.And(*a)


def disj(*a):
    a = [x for x in a if not z3.is_false(x)]
    if not a:
        return z3.BoolVal(False)
    return a[0] if len(a) == 1 else z3.Or(*a)


class Renamer(ast.NodeTransformer):
    def __init__(self, names, suffix):
        self.names, self.suffix = names, suffix

    def visit_Name(self, n):
        if n.id in self.names:
            return ast.copy_location(ast.Name(n.id + self.suffix, n.ctx), n)
        return n

    def visit_While(self, n):
        n = self.generic_visit(n)
        if getattr(n, "_inc", None):
            n._inc = [self.visit(x) for x in n._inc]
        return n


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.While) and getattr(n, "_inc", None):
                out |= assigned_names(n._inc)
    return out


class Measure:
    """Homomorphic measure on lists: mu([])=0, mu(l+[x])=mu(l)+f(x)."""

    def __init__(self, name, ty, f, real=False, nonneg=True):
        self.name, self.ty, self.f, self.real, self.nonneg = name, ty, f, real, nonneg
        rs = z3.RealSort() if real else z3.IntSort()
        self.mu = z3.Function("%s_%s" % (name, nm(ty)), sort(ty), rs)
        self.pre = z3.Function("%s_pre_%s" % (name, nm(ty)), sort(ty), z3.IntSort(), rs)
        self.zero = z3.RealVal(0) if real else z3.IntVal(0)


class Engine:
    def __init__(self, unit, registry, source):
        """unit: Contract being verified; registry: contracts by name; source: Source (function bodies)."""
        self.unit, self.registry, self.source = unit, registry, source
        self.facts, self.obs = [], []
        self.cnt = itertools.count()
        self.spec_depth = 0
        self.bound_depth = 0
        self.bound_vars = []
        self.in_axiom = 0
        self.param_alias = {}     # parameter names of the contract -> names in the code
        self.expr_consts = {k: v for k, v in unit.consts.items() if not re.match(r'^[\w.]+$', k)}
        self.frames = []
        self.entry = None
        self.old_stack = []
        self.measures = {}
        self.ghost = {}
        self.trusted_used = set()
        self.quot_axiom = False
        self.inlined = set()
        self.dry = 0
        self.houdini_stats = [0, 0]
        self.loop_types = {}
        self.strs = {}
        self.ufs = {}
        self.loop_stack = []
        self.solver_time = 0.0
        self.kept = []
        self.steps_seen = set()
        self.depth = 0
        for g, t in unit.all_ghost().items():
            self.ghost[g] = V(parse_ty(t), z3.Const("ghost_" + g, sort(parse_ty(t))))
        self.mk_measures()
        self.note_seen = set()
        self.INF = z3.Real("INF")
        self.facts.append(self.INF > 0)

    # ------------------------------------------------------------------ measures
    def mk_measures(self):
        def add(name, ty, f, **kw):
            self.measures.setdefault(ty, []).append(Measure(name, ty, f, **kw))
        for name, spec in self.unit.all_measures().items():
            base, how, levels = parse_ty(spec[0]), spec[1], spec[2] if len(spec) > 2 else 1
            kw = spec[3] if len(spec) > 3 else {}
            if how == "sum":
                f = lambda x: x.z
                kw = dict(real=base.elem.kind == "real", nonneg=False, **kw)
            elif how == "len":
                f = lambda x: llen(x)
            elif how == "one":
                f = lambda x: z3.IntVal(1)
            elif how.startswith("count:"):
                g = self.ghost[how.split(":")[1]]
                f = (lambda g: lambda x: z3.If(x.z == g.z, 1, 0))(g)
            else:
                node = ast.parse(how, mode="eval").body
                f = (lambda node: lambda x: self.apply_spec_lambda(node, [x]).z)(node)
            add(name, base, f, **kw)
            ty = base
            for _ in range(levels - 1):
                inner = self.measures[ty][-1]
                ty = TList(ty)
                add(name, ty, (lambda inner: lambda x: inner.mu(x.z))(inner), **kw)

    def note(self, v):
        """Well-formedness facts of a list value."""
        if v.ty.kind != "list":
            if v.ty.kind == "tuple":
                for i in range(len(v.ty.args)):
                    if v.ty.args[i].kind in ("list", "tuple"):
                        self.note(tget(v, i))
            elif v.ty.kind == "opt" and v.ty.elem.kind == "list":
                self.note(oval(v))
            return
        if self.bound_depth:
            return
        self.facts.append(llen(v) >= 0)
        for m in self.measures.get(v.ty, []):
            if m.nonneg:
                self.facts.append(m.mu(v.z) >= 0)
            self.facts.append(m.pre(v.z, 0) == m.zero)
            self.facts.append(m.pre(v.z, llen(v)) == m.mu(v.z))
            self.facts.append(z3.Implies(llen(v) == 0, m.mu(v.z) == m.zero))

    def note_read(self, v, i):
        if self.bound_depth:
            return
        key = (v.ty, v.z.get_id(), i.get_id())
        inb = z3.And(i >= 0, i < llen(v))
        x = lget(v, i)
        for m in self.measures.get(v.ty, []):
            self.facts.append(z3.Implies(inb, m.pre(v.z, i + 1) == m.pre(v.z, i) + m.f(x)))
            if m.nonneg:
                self.facts.append(z3.Implies(inb, z3.And(m.mu(v.z) >= m.f(x), m.pre(v.z, i) >= 0,
                                                         m.pre(v.z, i + 1) <= m.mu(v.z))))
        if v.ty.elem.kind in ("list", "tuple"):
            self.note_elem(x, inb)

    def note_elem(self, x, guard):
        if x.ty.kind == "list":
            self.facts.append(z3.Implies(guard, llen(x) >= 0))
            for m in self.measures.get(x.ty, []):
                if m.nonneg:
                    self.facts.append(z3.Implies(guard, m.mu(x.z) >= 0))
                self.facts.append(z3.Implies(z3.And(guard, llen(x) == 0), m.mu(x.z) == m.zero))
                self.facts.append(m.pre(x.z, llen(x)) == m.mu(x.z))
                self.facts.append(m.pre(x.z, 0) == m.zero)
        elif x.ty.kind == "tuple":
            for i in range(len(x.ty.args)):
                if x.ty.args[i].kind in ("list", "tuple"):
                    self.note_elem(tget(x, i), guard)

    # ------------------------------------------------------------------ basics
    def fresh(self, ty, hint="v"):
        if ty.kind == "fun":
            return V(ty, ty.name)
        z = z3.Const("%s!%d" % (hint, next(self.cnt)), sort(ty))
        v = V(ty, z)
        self.note(v)
        return v

    def fact(self, st, f):
        if self.bound_depth:
            return
        self.facts.append(f if z3.is_true(st.pc) else z3.Implies(st.pc, f))

    def assume(self, st, f):
        st.pc = conj(st.pc, f)

    def oblige(self, st, goal, name, node=None):
        if self.spec_depth:
            return
        goal = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        if self.unit.safe_by and name.startswith(("safety: ", "precondition of ")):
            # the same obligation of the same text is discharged by the unit named, under a weaker precondition
            self.fact(st, goal)
            return
        self.obs.append(Ob(name, len(self.facts), st.pc, goal, getattr(node, "lineno", 0)))

    def uf(self, name, args, rty):
        key = (name, tuple(a.ty for a in args), rty)
        if key not in self.ufs:
            nme = name + "".join("_" + nm(a.ty) for a in args)
            self.ufs[key] = z3.Function(nme, *([sort(a.ty) for a in args] + [sort(rty)])) if args else z3.Const(nme, sort(rty))
        f = self.ufs[key]
        return V(rty, f(*[a.z for a in args]) if args else f)

    def coerce(self, v, ty, node=None):
        if v.ty == ty:
            return v
        if v.ty.kind == "int" and ty.kind == "real":
            return V(ty, z3.ToReal(v.z))
        if v.ty.kind == "bool" and ty.kind == "int":
            return V(ty, z3.If(v.z, 1, 0))
        if v.ty.kind == "bool" and ty.kind == "real":
            return V(ty, z3.If(v.z, z3.RealVal(1), z3.RealVal(0)))
        if ty.kind == "opt":
            if v.ty.kind == "none":
                return onone(ty)
            return osome(ty, self.coerce(v, ty.elem))
        if ty.kind == "ref" and v.ty.kind == "none":
            return null(ty)
        if v.ty.kind == "dict" and ty.kind == "dict" and v.z is None:
            return self.default(ty)
        if v.ty.kind == "list" and ty.kind == "list":
            if v.z is None:
                return self.empty(ty)
            if (v.ty.elem.kind, ty.elem.kind) in (("int", "real"), ("bool", "int"), ("bool", "real")):
                i = z3.Int("ci!%d" % next(self.cnt))
                r = self.fresh(ty, "coerce")
                self.facts.append(llen(r) == llen(v))
                self.facts.append(z3.ForAll([i], larr(r)[i] == self.coerce(V(v.ty.elem, larr(v)[i]), ty.elem).z, patterns=[larr(r)[i]]))
                return r
            if ty.elem.kind == "opt" and (v.ty.elem.kind == "none" or v.ty.elem == ty.elem.elem):
                i = z3.Int("ci!%d" % next(self.cnt))
                r = self.fresh(ty, "coerce")
                self.facts.append(llen(r) == llen(v))
                e = onone(ty.elem) if v.ty.elem.kind == "none" else osome(ty.elem, V(v.ty.elem, larr(v)[i]))
                self.facts.append(z3.ForAll([i], larr(r)[i] == e.z, patterns=[larr(r)[i]]))
                return r
        if v.ty.kind == "tuple" and ty.kind == "tuple" and len(v.ty.args) == len(ty.args):
            return tmk([self.coerce(tget(v, i), ty.args[i]) for i in range(len(ty.args))], ty)
        if v.ty.kind == "opt" and v.ty.elem == ty:
            if not self.spec_depth:
                raise Unsupported("optional value used as %r" % ty)
            return oval(v)
        raise Unsupported("cannot use %r as %r%s" % (v.ty, ty, " line %d" % node.lineno if node is not None and hasattr(node, "lineno") else ""))

    def join_ty(self, a, b):
        if a == b:
            return a
        for x, y in ((a, b), (b, a)):
            if x.kind == "int" and y.kind == "real":
                return y
            if x.kind == "bool" and y.kind == "int":
                return y
            if x.kind == "none":
                return y if y.kind in ("ref", "opt") else TOpt(y)
            if x.kind == "opt" and x.elem == y:
                return x
            if x.kind == "list" and x.elem.kind == "unk" and y.kind == "list":
                return y
            if x.kind == "list" and y.kind == "list" and x.elem.kind == "int" and y.elem.kind == "real":
                return y
        if a.kind == "tuple" and b.kind == "tuple" and len(a.args) == len(b.args):
            return TTuple([self.join_ty(x, y) for x, y in zip(a.args, b.args)])
        raise Unsupported("types %r and %r do not join" % (a, b))

    def empty(self, ty):
        v = lmk(ty, z3.IntVal(0), z3.K(z3.IntSort(), self.default(ty.elem).z)) if ty.elem.kind != "unk" else V(ty, None)
        if ty.elem.kind != "unk":
            for m in self.measures.get(ty, []):
                self.facts.append(m.mu(v.z) == m.zero)
                self.facts.append(m.pre(v.z, 0) == m.zero)
        return v

    def default(self, ty):
        k = ty.kind
        if k in ("int", "str"):
            return V(ty, z3.IntVal(0))
        if k == "real":
            return V(ty, z3.RealVal(0))
        if k in ("bool", "none"):
            return V(ty, z3.BoolVal(False))
        if k == "list":
            return self.empty(ty) if ty.elem.kind != "unk" else lmk(ty, z3.IntVal(0), z3.K(z3.IntSort(), self.default(ty.elem).z))
        if k == "tuple":
            return tmk([self.default(t) for t in ty.args], ty)
        if k == "opt":
            return onone(ty)
        if k == "rec":
            return V(ty, sort(ty).constructor(0)(*[self.default(parse_ty(t)).z for _, t in RECORDS[ty.name]]))
        if k in ("ref", "abs", "fun"):
            return V(ty, z3.Const("dflt_" + nm(ty), sort(ty)))
        if k == "set":
            return V(ty, z3.K(sort(ty.elem), z3.BoolVal(False)))
        if k == "dict":
            return V(ty, z3.K(sort(ty.args[0]), onone(TOpt(ty.args[1])).z))
        raise Unsupported("default of %r" % ty)

    # ------------------------------------------------------------------ places
    def lookup(self, st, name):
        if name in st.env:
            return name
        base = name.split("@")[0]
        if self.spec_depth or base != name:
            c = [k for k in st.env if k.split("@")[0] == base]
            if c:
                return c[-1]
        if self.spec_depth and name in self.param_alias and self.param_alias[name] != name:
            return self.lookup(st, self.param_alias[name])
        return None

    def read_root(self, st, root):
        v = st.env[root]
        if isinstance(v, Alias):
            return self.read(st, v.root, v.path)
        return v

    def read(self, st, root, path):
        v = self.read_root(st, root)
        for kind, i in path:
            if kind == "idx":
                v = lget(v, i)
            elif kind == "tup":
                v = tget(v, i)
            elif kind == "opt":
                v = oval(v)
            elif kind == "key":
                v = oval(dget(v, i))
            else:
                v = rget(v, i)
        return v

    def write(self, st, root, path, val, node=None):
        b = st.env.get(root)
        if isinstance(b, Alias):
            return self.write(st, b.root, tuple(b.path) + tuple(path), val, node)
        if path and (root, sum(1 for k, _ in path if k == "idx") - 1) in st.shared and path[-1][0] == "idx":
            self.oblige(st, z3.BoolVal(False), "frame: in-place change of an object shared through %s" % root.split("@")[0], node)
        st.env[root] = self.upd(st, self.read_root(st, root) if path else None, path, val)

    def upd(self, st, cur, path, val):
        if not path:
            return val
        kind, i = path[0]
        if kind == "idx":
            inner = self.upd(st, lget(cur, i), path[1:], val)
            if inner.ty.kind == "opt" and inner.ty.elem == cur.ty.elem:
                self.oblige(st, z3.Not(ois_none(inner)), "safety: stored value is not None", None)
                inner = oval(inner)
            inner = self.coerce(inner, cur.ty.elem)
            new = lmk(cur.ty, llen(cur), z3.Store(larr(cur), i, inner.z))
            for m in self.measures.get(cur.ty, []):
                self.facts.append(z3.Implies(z3.And(i >= 0, i < llen(cur)),
                                             m.mu(new.z) == m.mu(cur.z) - m.f(lget(cur, i)) + m.f(inner)))
                if m.nonneg:
                    self.facts.append(m.mu(new.z) >= 0)
            return self.name_it(new)
        if kind == "key":
            inner = self.coerce(self.upd(st, oval(dget(cur, i)), path[1:], val), cur.ty.args[1])
            return V(cur.ty, z3.Store(cur.z, i, osome(TOpt(cur.ty.args[1]), inner).z))
        if kind == "opt":
            return osome(cur.ty, self.upd(st, oval(cur), path[1:], val))
        if kind == "tup":
            vs = [tget(cur, j) for j in range(len(cur.ty.args))]
            vs[i] = self.coerce(self.upd(st, vs[i], path[1:], val), cur.ty.args[i])
            return tmk(vs, cur.ty)
        inner = self.upd(st, rget(cur, i), path[1:], val)
        for n, t in RECORDS[cur.ty.name]:
            if n == i:
                inner = self.coerce(inner, parse_ty(t))
        return rset(cur, i, inner)

    def name_it(self, v):
        """Give a compound value a name, to keep terms small."""
        if v.ty.kind in ("list", "tuple", "rec") and not self.bound_depth:
            c = z3.Const("s!%d" % next(self.cnt), sort(v.ty))
            self.facts.append(c == v.z)
            n = V(v.ty, c)
            if v.ty.kind == "list":
                self.facts.append(llen(n) == z3.simplify(llen(v)))
                self.facts.append(larr(n) == z3.simplify(larr(v)))
                for m in self.measures.get(v.ty, []):
                    self.facts.append(m.pre(c, 0) == m.zero)
                    self.facts.append(m.pre(c, llen(n)) == m.mu(c))
                    self.facts.append(z3.Implies(llen(n) == 0, m.mu(c) == m.zero))
            return n
        return v

    def place(self, st, node):
        """(root, path) of an lvalue expression, or None if it is not one."""
        if isinstance(node, ast.Name):
            n = self.lookup(st, node.id)
            if n is None:
                return None
            v = st.env[n]
            if isinstance(v, Alias):
                return (v.root, v.path) if not isinstance(st.env.get(v.root), Alias) else \
                    (st.env[v.root].root, tuple(st.env[v.root].path) + tuple(v.path))
            return (n, ())
        if isinstance(node, ast.Attribute):
            if isinstance(node.value, ast.Name) and node.value.id.split("@")[0] in ("self", "this"):
                k = "self." + node.attr
                v = st.env.get(k)
                if v is None:
                    return None
                if isinstance(v, Alias):
                    return (v.root, v.path)
                return (k, ())
            b = self.place(st, node.value)
            if b is None:
                return None
            bv = self.read(st, *b)
            if bv.ty.kind == "rec":
                return (b[0], b[1] + (("fld", node.attr),))
            return None
        if isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Slice):
            b = self.place(st, node.value)
            if b is None:
                return None
            bv = self.read(st, *b)
            if bv.ty.kind == "opt":
                self.oblige(st, z3.Not(ois_none(bv)), "safety: value is not None", node)
                b = (b[0], b[1] + (("opt", None),))
                bv = oval(bv)
            if bv.ty.kind == "tuple":
                c = self.const_index(node.slice)
                if c is None:
                    return None
                return (b[0], b[1] + (("tup", c),))
            if bv.ty.kind == "dict":
                key = self.coerce(self.ev(st, node.slice), bv.ty.args[0])
                if isinstance(getattr(node, "ctx", None), ast.Load):
                    self.oblige(st, z3.Not(ois_none(dget(bv, key.z))), "safety: key is in the dictionary", node)
                return (b[0], b[1] + (("key", key.z),))
            if bv.ty.kind != "list":
                return None
            i = self.index(st, bv, node.slice, node)
            return (b[0], b[1] + (("idx", i),))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "__ref__":
            return self.place(st, node.args[0])
        return None

    def const_index(self, n):
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            return -n.operand.value
        return None

    def index(self, st, lv, slice_node, node):
        c = self.const_index(slice_node)
        if c is not None and c < 0:
            self.oblige(st, llen(lv) >= -c, "safety: index in range", node)
            i = z3.simplify(llen(lv) + c)
        else:
            iv = self.ev(st, slice_node)
            if iv.ty.kind == "bool":
                iv = self.coerce(iv, INT)
            if iv.ty.kind == "opt":
                self.oblige(st, z3.Not(ois_none(iv)), "safety: index is not None", node)
                iv = oval(iv)
            if iv.ty.kind != "int":
                raise Unsupported("index of type %r line %d" % (iv.ty, node.lineno))
            i = iv.z
            self.oblige(st, z3.And(i >= 0, i < llen(lv)), "safety: index in range", node)
        self.note_read(lv, i)
        return i

    # ------------------------------------------------------------------ spec
    def spec(self, st, text, extra=None, old=None):
        """Evaluate a contract expression to a V (no obligations)."""
        node = text if isinstance(text, ast.AST) else ast.parse(text.strip(), mode="eval").body
        s = st.copy()
        if extra:
            s.env.update(extra)
        self.spec_depth += 1
        if old is not None:
            self.old_stack.append(old)
        try:
            return self.ev(s, node)
        finally:
            self.spec_depth -= 1
            if old is not None:
                self.old_stack.pop()

    def spec_bool(self, st, text, extra=None, old=None):
        return self.truth(st, self.spec(st, text, extra, old))

    def apply_spec_lambda(self, lam, args):
        st = State({a.arg: v for a, v in zip(lam.args.args, args)}, dict(self.heap0) if hasattr(self, "heap0") else {}, z3.BoolVal(True), set())
        self.spec_depth += 1
        self.bound_depth += 1
        try:
            return self.ev(st, lam.body)
        finally:
            self.bound_depth -= 1
            self.spec_depth -= 1

    # ------------------------------------------------------------------ expressions
    def truth(self, st, v):
        k = v.ty.kind
        if k == "bool":
            return v.z
        if k == "int":
            return v.z != 0
        if k == "real":
            return v.z != 0
        if k == "list":
            if v.z is None:
                return z3.BoolVal(False)
            return llen(v) > 0
        if k == "opt":
            return z3.And(z3.Not(ois_none(v)), self.truth(st, oval(v))) if v.ty.elem.kind in ("list",) else z3.Not(ois_none(v))
        if k == "ref":
            return v.z != null(v.ty).z
        if k == "none":
            return z3.BoolVal(False)
        raise Unsupported("truth of %r" % v.ty)

    def ev(self, st, n):
        if self.expr_consts and isinstance(n, (ast.Compare, ast.Call)):
            t = ast.unparse(n)
            if t in self.expr_consts:
                return self.const_val(self.expr_consts[t])
        meth = getattr(self, "ev_" + type(n).__name__, None)
        if meth is None:
            raise Unsupported("expression %s line %s" % (type(n).__name__, getattr(n, "lineno", "?")))
        return meth(st, n)

    def ev_Constant(self, st, n):
        v = n.value
        if v is None:
            return V(NONE, z3.BoolVal(False))
        if isinstance(v, bool):
            return V(BOOL, z3.BoolVal(v))
        if isinstance(v, int):
            return V(INT, z3.IntVal(v))
        if isinstance(v, float):
            if v == float("inf"):
                return V(REAL, self.INF)
            return V(REAL, z3.RealVal(repr(v)))
        if isinstance(v, str):
            return V(STR, z3.IntVal(self.strs.setdefault(v, len(self.strs))))
        raise Unsupported("constant %r" % (v,))

    def ev_JoinedStr(self, st, n):
        return V(STR, z3.IntVal(-1))

    def ev_Name(self, st, n):
        k = self.lookup(st, n.id)
        if k is not None:
            v = st.env[k]
            if isinstance(v, Alias):
                return self.read(st, v.root, v.path)
            return v
        if n.id in self.ghost and (self.spec_depth or n.id.startswith("g_")):
            return self.ghost[n.id]
        if n.id in self.unit.consts:
            return self.const_val(self.unit.consts[n.id])
        if n.id == "INF":
            return V(REAL, self.INF)
        if n.id in ("True", "False"):
            return V(BOOL, z3.BoolVal(n.id == "True"))
        raise Unsupported("name %s is not defined here (line %s)" % (n.id, getattr(n, "lineno", "?")))

    def const_val(self, c):
        if isinstance(c, tuple):      # (type, name) symbolic constant
            ty = parse_ty(c[0])
            return V(ty, z3.Const("const_" + c[1], sort(ty)))
        return self.ev_Constant(None, ast.Constant(c))

    def dotted(self, n):
        if isinstance(n, ast.Name):
            return n.id.split("@")[0]
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value)
            return b + "." + n.attr if b else None
        return None

    def ev_Attribute(self, st, n):
        d = self.dotted(n)
        if d and d in self.unit.consts:
            return self.const_val(self.unit.consts[d])
        if d in ("math.nan", "numpy.nan") and self.unit.consts.get("nan") == "none":
            return V(NONE, z3.BoolVal(False))
        if d in ("math.inf", "numpy.inf", "sys.maxsize", "numpy.Inf"):
            return V(REAL, self.INF)
        if d in ("math.pi", "numpy.pi"):
            v = V(REAL, z3.Real("PI"))
            self.facts.append(z3.And(v.z > z3.RealVal("3.14159"), v.z < z3.RealVal("3.1416")))
            return v
        p = self.place(st, n)
        if p is not None:
            return self.read(st, *p)
        if isinstance(n.value, ast.Name) and n.value.id == "self":
            prop = self.source.property_of(n.attr) if self.source else None
            if prop is not None:
                return self.inline(st, prop, [], {}, n)
            raise Unsupported("field self.%s has no declared type (line %s)" % (n.attr, getattr(n, "lineno", "?")))
        b = self.ev(st, n.value)
        if n.attr == "T" and b.ty.kind == "list" and b.ty.elem.kind != "list":
            return b                      # transposition of a vector
        return self.get_field(st, b, n.attr, n)

    def get_field(self, st, b, attr, n):
        if b.ty.kind == "opt":
            self.oblige(st, z3.Not(ois_none(b)), "safety: value is not None", n)
            b = oval(b)
        if b.ty.kind == "rec":
            return rget(b, attr)
        if b.ty.kind == "ref":
            self.oblige(st, b.z != null(b.ty).z, "safety: reference is not None", n)
            f = CLASSES[b.ty.name].get(attr)
            if f is None:
                al = CLASSES[b.ty.name].get("@" + attr)
                if al:
                    return self.get_field(st, b, al, n)
                raise Unsupported("class %s has no field %s" % (b.ty.name, attr))
            if isinstance(f, str) and f.startswith("="):     # pure ghost function of the reference
                return self.uf(attr + "_of", [b], parse_ty(f[1:]))
            fty = parse_ty(f)
            v = V(fty, z3.Select(self.heapmap(st, b.ty.name, attr), b.z))
            if not self.bound_depth:
                if fty.kind == "list":
                    self.facts.append(llen(v) >= 0)
            return v
        raise Unsupported("attribute %s of %r (line %s)" % (attr, b.ty, getattr(n, "lineno", "?")))

    def heapmap(self, st, cls, f):
        k = cls + "." + f
        if k not in st.heap:
            z = z3.Const("heap0_" + k, z3.ArraySort(sort(Ty("ref", (), cls)), sort(parse_ty(CLASSES[cls][f]))))
            st.heap[k] = z
        return st.heap[k]

    def ev_Subscript(self, st, n):
        if isinstance(n.value, ast.Attribute) and n.value.attr == "shape":
            b = self.ev(st, n.value.value)
            c = self.const_index(n.slice)
            if b.ty.kind == "list" and c == 0:
                return V(INT, llen(b))
            if b.ty.kind == "list" and b.ty.elem.kind == "list" and c == 1:
                self.oblige(st, llen(b) > 0, "safety: shape of an empty array", n)
                self.note(lget(b, z3.IntVal(0)))
                return V(INT, llen(lget(b, z3.IntVal(0))))
            raise Unsupported("shape")
        if isinstance(n.slice, ast.Slice):
            return self.slice(st, n)
        if isinstance(n.slice, ast.Tuple):
            return self.np_index(st, n)
        b = self.ev(st, n.value)
        if b.ty.kind == "opt":
            self.oblige(st, z3.Not(ois_none(b)), "safety: value is not None", n)
            b = oval(b)
        if b.ty.kind == "tuple":
            c = self.const_index(n.slice)
            if c is None:
                raise Unsupported("tuple index")
            return tget(b, c)
        if b.ty.kind == "list":
            if b.ty.elem.kind == "unk":
                raise Unsupported("read of an untyped list")
            c = self.const_index(n.slice)
            if c is None:
                iv = self.ev(st, n.slice)
                if iv.ty.kind == "list":
                    return self.np_fancy(st, b, iv, n)
            i = self.index(st, b, n.slice, n)
            return lget(b, i)
        if b.ty.kind == "dict":
            i = self.coerce(self.ev(st, n.slice), b.ty.args[0])
            if not self.spec_depth:
                self.oblige(st, z3.Not(ois_none(dget(b, i.z))), "safety: key is in the dictionary", n)
                return oval(dget(b, i.z))
            if b.ty.args[1].kind == "opt":
                return oval(dget(b, i.z))
            return dget(b, i.z)         # in a condition: absent keys read as None
        raise Unsupported("subscript of %r" % b.ty)

    def np_index(self, st, n):
        b = self.ev(st, n.value)
        parts = n.slice.elts
        full = lambda s: isinstance(s, ast.Slice) and s.lower is None and s.upper is None and s.step is None
        if len(parts) == 2 and full(parts[1]):
            iv = self.ev(st, parts[0])
            if iv.ty.kind == "list":
                return self.np_fancy(st, b, iv, n)
            i = self.index(st, b, parts[0], n)
            return lget(b, i)
        if len(parts) == 2:
            i = self.index(st, b, parts[0], n)
            row = lget(b, i)
            j = self.index(st, row, parts[1], n)
            return lget(row, j)
        raise Unsupported("numpy index")

    def np_fancy(self, st, b, iv, n):
        if self.measures.get(b.ty) and not self.spec_depth:
            # rows selected by an index list, as a loop (so that sums over the rows can be followed)
            x = "fi@%d" % next(self.cnt)
            idx = n.slice.elts[0] if isinstance(n.slice, ast.Tuple) else n.slice
            lc = ast.ListComp(ast.Subscript(n.value, ast.Name(x, ast.Load()), ast.Load()), [ast.comprehension(ast.Name(x, ast.Store()), idx, [], 0)])
            for y in ast.walk(lc):
                if not hasattr(y, "lineno"):
                    y.lineno, y.col_offset = getattr(n, "lineno", 0), 0
            return self.ev(st, lc)
        i = z3.Int("fi!%d" % next(self.cnt))
        r = self.fresh(b.ty, "fancy")
        self.oblige(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(iv)), z3.And(larr(iv)[i] >= 0, larr(iv)[i] < llen(b)))), "safety: index list in range", n)
        self.facts.append(llen(r) == llen(iv))
        self.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(r)), larr(r)[i] == larr(b)[larr(iv)[i]]), patterns=[larr(r)[i]]))
        return r

    def slice(self, st, n):
        b = self.ev(st, n.value)
        if b.ty.kind != "list":
            raise Unsupported("slice of %r" % b.ty)
        s = n.slice
        if s.step is not None:
            raise Unsupported("slice step")
        if s.lower is None and s.upper is None:
            return V(b.ty, b.z)
        lo = self.ev(st, s.lower).z if s.lower is not None else z3.IntVal(0)
        ln = llen(b)
        if s.upper is None:
            hi = ln
        else:
            c = self.const_index(s.upper)
            hi = ln + c if c is not None and c < 0 else self.ev(st, s.upper).z
        hi = z3.If(hi > ln, ln, hi)
        lo = z3.If(lo > ln, ln, lo)
        r = self.fresh(b.ty, "slice")
        i = z3.Int("si!%d" % next(self.cnt))
        self.oblige(st, z3.And(lo >= 0), "safety: slice start not negative", n)
        self.facts.append(llen(r) == z3.If(hi > lo, hi - lo, 0))
        self.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(r)), larr(r)[i] == larr(b)[i + lo]), patterns=[larr(r)[i]]))
        for m in self.measures.get(b.ty, []):
            self.facts.append(z3.Implies(lo == 0, m.mu(r.z) == m.pre(b.z, llen(r))))
            self.facts.append(z3.Implies(hi >= lo, m.mu(r.z) == m.pre(b.z, hi) - m.pre(b.z, lo)))
        return r

    def ev_Tuple(self, st, n):
        return tmk([self.ev(st, e) for e in n.elts])

    def ev_List(self, st, n):
        if not n.elts:
            return V(TList(UNK), None)
        vs = [self.ev(st, e) for e in n.elts]
        ty = vs[0].ty
        for v in vs[1:]:
            ty = self.join_ty(ty, v.ty)
        if ty.kind == "list" and ty.elem.kind == "unk":
            ty = self.hint_empty()
        r = self.empty(TList(ty))
        for v in vs:
            r = self.l_append(r, self.coerce(v, ty))
        return r

    def number(self, st, v, n):
        """An optional number used in arithmetic must be present."""
        if v.ty.kind == "opt" and v.ty.elem.kind in ("int", "real"):
            if not self.spec_depth:
                self.oblige(st, z3.Not(ois_none(v)), "safety: value is not None", n)
            return oval(v)
        return v

    def ev_Dict(self, st, n):
        if n.keys:
            raise Unsupported("dictionary display")
        return V(Ty("dict", (UNK, UNK)), None)

    def ev_Set(self, st, n):
        vs = [self.ev(st, e) for e in n.elts]
        z = z3.K(sort(vs[0].ty), z3.BoolVal(False))
        for v in vs:
            z = z3.Store(z, v.z, z3.BoolVal(True))
        return V(TSet(vs[0].ty), z)

    def hint_empty(self):
        d = self.unit.default_list
        if d is None:
            raise Unsupported("cannot type an empty list")
        return parse_ty(d)

    def ev_IfExp(self, st, n):
        c = self.truth(st, self.ev(st, n.test))
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = conj(st.pc, c), conj(st.pc, z3.Not(c))
        a, b = self.ev(s1, n.body), self.ev(s2, n.orelse)
        ty = self.join_ty(a.ty, b.ty)
        a, b = self.coerce(a, ty), self.coerce(b, ty)
        r = V(ty, z3.If(c, a.z, b.z))
        return self.name_it(r)

    def ev_BoolOp(self, st, n):
        s = st.copy()
        vals = []
        last = None
        for e in n.values:
            v = self.ev(s, e)
            last = v
            t = self.truth(s, v)
            vals.append(t)
            s = s.copy()
            s.pc = conj(s.pc, t if isinstance(n.op, ast.And) else z3.Not(t))
        return V(BOOL, z3.And(*vals) if isinstance(n.op, ast.And) else z3.Or(*vals))

    def ev_UnaryOp(self, st, n):
        v = self.ev(st, n.operand)
        if isinstance(n.op, ast.Not):
            return V(BOOL, z3.Not(self.truth(st, v)))
        if isinstance(n.op, ast.USub):
            return V(v.ty, -v.z)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def num(self, v, node):
        if v.ty.kind == "bool":
            return self.coerce(v, INT)
        if v.ty.kind == "opt" and v.ty.elem.kind in ("int", "real"):
            return oval(v)
        if v.ty.kind not in ("int", "real"):
            raise Unsupported("arithmetic on %r (line %s)" % (v.ty, getattr(node, "lineno", "?")))
        return v

    def ev_BinOp(self, st, n):
        a, b = self.ev(st, n.left), self.ev(st, n.right)
        return self.binop(st, n.op, a, b, n)

    def binop(self, st, op, a, b, n):
        if a.ty.kind == "opt":
            self.oblige(st, z3.Not(ois_none(a)), "safety: value is not None", n)
            a = oval(a)
        if b.ty.kind == "opt":
            self.oblige(st, z3.Not(ois_none(b)), "safety: value is not None", n)
            b = oval(b)
        if a.ty.kind == "str" or b.ty.kind == "str":
            return V(STR, z3.IntVal(-1))
        if isinstance(op, ast.Add) and a.ty.kind == "list" and b.ty.kind == "list" and "*" not in self.unit.numpy:
            return self.l_concat(a, b)
        if isinstance(op, ast.Mult) and a.ty.kind == "list" and b.ty.kind == "int":
            return self.l_repeat(st, a, b, n)
        if isinstance(op, ast.Mult) and b.ty.kind == "list" and a.ty.kind == "int":
            return self.l_repeat(st, b, a, n)
        if a.ty.kind == "list" or b.ty.kind == "list":
            return self.np_elementwise(st, op, a, b, n)
        if a.ty.kind == "ref" or b.ty.kind == "ref":
            return self.op_overload(st, op, a, b, n)
        a, b = self.num(a, n), self.num(b, n)
        if isinstance(op, ast.Div):
            a, b = self.coerce(a, REAL), self.coerce(b, REAL)
            self.oblige(st, b.z != 0, "safety: division by zero", n)
            if z3.is_rational_value(z3.simplify(b.z)):
                return V(REAL, a.z / b.z)
            # a named quotient: q * b == a is what the solvers can use, and equal arguments give equal quotients
            f = z3.Function("quotient", z3.RealSort(), z3.RealSort(), z3.RealSort())
            q = f(a.z, b.z)
            if not self.bound_depth and not self.spec_depth:
                if not self.unit.plain_quotients:
                    self.fact(st, q * b.z == a.z)
            elif not self.quot_axiom and not self.unit.plain_quotients:
                self.quot_axiom = True
                x, y = z3.Reals("x!q y!q")
                self.facts.append(z3.ForAll([x, y], z3.Implies(y != 0, f(x, y) * y == x), patterns=[f(x, y)]))
            return V(REAL, q)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and a.ty.kind == "int" and b.ty.kind == "int":
            self.oblige(st, b.z > 0, "safety: positive divisor", n)
            return V(INT, a.z / b.z if isinstance(op, ast.FloorDiv) else a.z % b.z)
        if isinstance(op, ast.Pow):
            return self.pow(st, a, b, n)
        ty = self.join_ty(a.ty, b.ty)
        a, b = self.coerce(a, ty), self.coerce(b, ty)
        if isinstance(op, ast.Add):
            return V(ty, a.z + b.z)
        if isinstance(op, ast.Sub):
            return V(ty, a.z - b.z)
        if isinstance(op, ast.Mult):
            return V(ty, a.z * b.z)
        raise Unsupported("operator %s on %r (line %s)" % (type(op).__name__, ty, getattr(n, "lineno", "?")))

    def op_overload(self, st, op, a, b, n):
        raise Unsupported("operator on references")

    def pow(self, st, a, b, n):
        if z3.is_int_value(b.z) and b.ty.kind == "int" and 0 <= b.z.as_long() <= 3:
            r = a.z
            for _ in range(b.z.as_long() - 1):
                r = r * a.z
            return V(a.ty, r if b.z.as_long() else (z3.IntVal(1) if a.ty.kind == "int" else z3.RealVal(1)))
        bs = z3.simplify(b.z)
        if z3.is_rational_value(bs):
            if bs.as_fraction() == 2:
                a = self.coerce(a, REAL)
                return V(REAL, a.z * a.z)
            if float(bs.as_fraction()) == 0.5:
                return self.sqrt(st, self.coerce(a, REAL), n)
        a, b = self.coerce(a, REAL), self.coerce(b, REAL)
        r = self.uf("pow", [a, b], REAL)
        if not self.bound_depth:
            self.facts.append(z3.Implies(a.z > 0, r.z > 0))
            self.facts.append(z3.Implies(a.z == 0, z3.Implies(b.z > 0, r.z == 0)))
            self.facts.append(z3.Implies(z3.And(a.z >= 1, b.z >= 1), r.z >= 1))
            self.facts.append(z3.Implies(z3.And(b.z == 1), r.z == a.z))
            self.facts.append(z3.Implies(z3.And(a.z == 1), r.z == 1))
        return r

    def sqrt(self, st, a, n):
        r = self.uf("sqrt", [a], REAL)
        self.oblige(st, a.z >= 0, "safety: square root of a negative number", n)
        if not self.bound_depth:
            self.facts.append(z3.Implies(a.z >= 0, z3.And(r.z >= 0, r.z * r.z == a.z)))
            self.facts.append(z3.Implies(a.z == 0, r.z == 0))
            self.facts.append(z3.Implies(a.z > 0, r.z > 0))
        return r

    def ev_Compare(self, st, n):
        left = self.ev(st, n.left)
        out = []
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(st, rn)
            out.append(self.compare(st, op, left, right, n))
            left = right
        return V(BOOL, conj(*out))

    def compare(self, st, op, a, b, n):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            r = self.equal(st, a, b, n)
            return z3.Not(r) if neg else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(st, a, b, n)
            return z3.Not(r) if isinstance(op, ast.NotIn) else r
        for x in (a, b):
            if x.ty.kind == "opt":
                self.oblige(st, z3.Not(ois_none(x)), "safety: compared value is not None", n)
        a = oval(a) if a.ty.kind == "opt" else a
        b = oval(b) if b.ty.kind == "opt" else b
        a, b = self.num(a, n), self.num(b, n)
        ty = self.join_ty(a.ty, b.ty)
        a, b = self.coerce(a, ty).z, self.coerce(b, ty).z
        if isinstance(op, ast.Lt):
            return a < b
        if isinstance(op, ast.LtE):
            return a <= b
        if isinstance(op, ast.Gt):
            return a > b
        if isinstance(op, ast.GtE):
            return a >= b
        raise Unsupported("comparison")

    def equal(self, st, a, b, n):
        if a.ty.kind == "none" and b.ty.kind == "none":
            return z3.BoolVal(True)
        for x, y in ((a, b), (b, a)):
            if x.ty.kind == "none":
                if y.ty.kind == "opt":
                    return ois_none(y)
                if y.ty.kind == "ref":
                    return y.z == null(y.ty).z
                return z3.BoolVal(False)
        if a.ty.kind == "list" and b.ty.kind == "list":
            if a.z is None:
                return llen(b) == 0
            if b.z is None:
                return llen(a) == 0
            if self.spec_depth:
                return a.z == b.z
            ty = self.join_ty(a.ty, b.ty)
            a, b = self.coerce(a, ty), self.coerce(b, ty)
            return self.uf("lists_equal", [a, b], BOOL).z
        if a.ty.kind == "opt" and b.ty.kind != "opt":
            return z3.And(z3.Not(ois_none(a)), self.equal(st, oval(a), b, n))
        if b.ty.kind == "opt" and a.ty.kind != "opt":
            return z3.And(z3.Not(ois_none(b)), self.equal(st, a, oval(b), n))
        ty = self.join_ty(a.ty, b.ty)
        return self.coerce(a, ty).z == self.coerce(b, ty).z

    def member(self, st, a, b, n):
        if b.ty.kind == "set":
            return z3.Select(b.z, self.coerce(a, b.ty.elem).z)
        if b.ty.kind == "dict":
            return z3.Not(ois_none(dget(b, self.coerce(a, b.ty.args[0]).z)))
        if b.ty.kind == "list":
            if b.z is None:
                return z3.BoolVal(False)
            i = z3.Int("mi!%d" % next(self.cnt))
            a = self.coerce(a, b.ty.elem)
            r = z3.Exists([i], z3.And(i >= 0, i < llen(b), larr(b)[i] == a.z))
            if not self.bound_depth:
                for m in self.measures.get(b.ty, []):
                    if m.nonneg:
                        # an element of the list contributes to the measure; the counting measure decides membership
                        self.facts.append(z3.Implies(r, m.mu(b.z) >= m.f(a)))
                        if m.name.startswith("cnt"):
                            g = self.ghost.get(self.unit.count_ghost(m.name))
                            if g is not None and g.ty == b.ty.elem:
                                self.facts.append(z3.Implies(a.z == g.z, r == (m.mu(b.z) > 0)))
            return r
        if b.ty.kind == "tuple":
            return disj(*[self.equal(st, a, tget(b, i), n) for i in range(len(b.ty.args))])
        raise Unsupported("membership in %r" % b.ty)

    def ev_Lambda(self, st, n):
        return V(Ty("fun", (), "lambda"), n)

    # ------------------------------------------------------------------ list operations
    def l_append(self, l, x):
        new = lmk(l.ty, llen(l) + 1, z3.Store(larr(l), llen(l), x.z))
        for m in self.measures.get(l.ty, []):
            self.facts.append(m.mu(new.z) == m.mu(l.z) + m.f(x))
            if m.nonneg:
                self.facts.append(m.mu(l.z) >= 0)
                self.facts.append(m.f(x) >= 0)
        new = self.name_it(new)
        for m in self.measures.get(l.ty, []):
            k = z3.Int("pk!%d" % next(self.cnt))
            self.facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= llen(l)), m.pre(new.z, k) == m.pre(l.z, k)), patterns=[m.pre(new.z, k)]))
        return new

    def l_concat(self, a, b):
        if a.z is None:
            return b
        if b.z is None:
            return a
        ty = self.join_ty(a.ty, b.ty)
        a, b = self.coerce(a, ty), self.coerce(b, ty)
        r = self.fresh(ty, "cat")
        i = z3.Int("qi!%d" % next(self.cnt))
        self.facts.append(llen(r) == llen(a) + llen(b))
        self.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(r)), larr(r)[i] == z3.If(i < llen(a), larr(a)[i], larr(b)[i - llen(a)])), patterns=[larr(r)[i]]))
        for m in self.measures.get(ty, []):
            self.facts.append(m.mu(r.z) == m.mu(a.z) + m.mu(b.z))
            if m.nonneg:
                self.facts.append(z3.And(m.mu(a.z) >= 0, m.mu(b.z) >= 0))
            k = z3.Int("pk!%d" % next(self.cnt))
            self.facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= llen(a)), m.pre(r.z, k) == m.pre(a.z, k)), patterns=[m.pre(r.z, k)]))
        return r

    def l_repeat(self, st, a, k, n):
        if a.z is None:
            return a
        ln = z3.simplify(llen(a))
        if not (z3.is_int_value(ln) and ln.as_long() == 1):
            # lists are named constants: look for the literal length fact
            ln1 = self.literal_len(a)
            if ln1 != 1:
                raise Unsupported("repetition of a list whose length is not 1")
        x = lget(a, z3.IntVal(0))
        if x.ty.kind == "list":
            raise Unsupported("repetition of a mutable element")
        r = self.fresh(a.ty, "rep")
        i = z3.Int("ri!%d" % next(self.cnt))
        cnt = z3.If(k.z > 0, k.z, 0)
        self.facts.append(llen(r) == cnt)
        self.facts.append(larr(r) == z3.K(z3.IntSort(), x.z))
        for m in self.measures.get(a.ty, []):
            self.facts.append(z3.Implies(m.f(x) == m.zero, m.mu(r.z) == m.zero))
            self.facts.append(m.mu(r.z) == cnt * m.f(x) if not m.real else m.mu(r.z) == z3.ToReal(cnt) * m.f(x))
        return r

    def literal_len(self, a):
        for f in reversed(self.facts):
            if z3.is_eq(f) and f.arg(0).eq(llen(a)) and z3.is_int_value(f.arg(1)):
                return f.arg(1).as_long()
            if z3.is_eq(f) and f.arg(1).eq(llen(a)) and z3.is_int_value(f.arg(0)):
                return f.arg(0).as_long()
        return None

    def l_pop(self, st, l, idx, node):
        """remove position idx (z3 Int)"""
        self.note_read(l, idx)
        r = self.fresh(l.ty, "pop")
        i = z3.Int("pi!%d" % next(self.cnt))
        inb = z3.And(idx >= 0, idx < llen(l))
        self.facts.append(z3.Implies(inb, llen(r) == llen(l) - 1))
        self.facts.append(z3.Implies(inb, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(r)), larr(r)[i] == z3.If(i < idx, larr(l)[i], larr(l)[i + 1])), patterns=[larr(r)[i]])))
        for m in self.measures.get(l.ty, []):
            self.facts.append(z3.Implies(inb, m.mu(r.z) == m.mu(l.z) - m.f(lget(l, idx))))
        return r

    def l_insert(self, l, idx, x):
        r = self.fresh(l.ty, "ins")
        i = z3.Int("ii!%d" % next(self.cnt))
        k = z3.If(idx > llen(l), llen(l), idx)
        self.facts.append(llen(r) == llen(l) + 1)
        self.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(r)), larr(r)[i] == z3.If(i < k, larr(l)[i], z3.If(i == k, x.z, larr(l)[i - 1]))), patterns=[larr(r)[i]]))
        for m in self.measures.get(l.ty, []):
            self.facts.append(m.mu(r.z) == m.mu(l.z) + m.f(x))
        return r

    # ------------------------------------------------------------------ calls
    def ev_Call(self, st, n):
        from .calls import call
        return call(self, st, n)

    def ev_ListComp(self, st, n):
        from .calls import listcomp
        return listcomp(self, st, n)

    def ev_GeneratorExp(self, st, n):
        from .calls import listcomp
        return listcomp(self, st, n)

    # ------------------------------------------------------------------ statements
    def block(self, st, body):
        for s in body:
            if st is None:
                return None
            st = self.stmt(st, s)
        return st

    def stmt(self, st, s):
        meth = getattr(self, "st_" + type(s).__name__, None)
        if meth is None:
            raise Unsupported("statement %s line %s" % (type(s).__name__, getattr(s, "lineno", "?")))
        return meth(st, s)

    def st_Pass(self, st, s):
        return st

    def st_Import(self, st, s):
        return st

    st_ImportFrom = st_Import

    def st_Assert(self, st, s):
        c = self.truth(st, self.ev(st, s.test))
        self.oblige(st, c, "assert", s)
        self.assume(st, c)
        return st

    def st_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, ast.Call):
            from .calls import call
            call(self, st, s.value, stmt=True)
        else:
            self.ev(st, s.value)
        return None if z3.is_false(st.pc) else st

    def hint(self, name):
        h = self.unit.locals.get(name.split("@")[0])
        return parse_ty(h) if h else None

    def st_Assign(self, st, s):
        for tgt in s.targets:
            self.assign(st, tgt, s.value, s)
        return st

    def st_AnnAssign(self, st, s):
        ty = parse_ty(s.annotation.value if isinstance(s.annotation, ast.Constant) else ast.unparse(s.annotation))
        if s.value is None:
            st.env[s.target.id] = self.default(ty)
            return st
        if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "__ref__":
            p = self.place(st, s.value.args[0])
            if p is not None:
                st.env[s.target.id] = Alias(*p)
                return st
            v = self.ev(st, s.value.args[0])
        else:
            v = self.ev(st, s.value)
        if v.ty.kind == "opt" and ty == v.ty.elem:        # an optional value stored in a plain variable must be present
            self.oblige(st, z3.Not(ois_none(v)), "safety: stored value is not None", s)
            v = oval(v)
        st.env[s.target.id] = v if ty.kind == "unk" else self.coerce(v, ty, s)
        return st

    def is_mutable_place(self, st, node):
        if isinstance(node, (ast.Name, ast.Attribute, ast.Subscript)):
            if isinstance(node, ast.Subscript) and (isinstance(node.slice, (ast.Slice, ast.Tuple))):
                return None
            p = self.place(st, node)
            if p is None:
                return None
            v = self.read(st, *p)
            if v.ty.kind in ("list", "rec", "set") or (v.ty.kind == "opt" and v.ty.elem.kind == "list"):
                return p
        return None

    def assign(self, st, tgt, value, s):
        if isinstance(tgt, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and len(tgt.elts) == len(value.elts):
            vs = [self.ev(st, e) for e in value.elts]
            for t, v in zip(tgt.elts, vs):
                self.assign_value(st, t, v, s)
            return
        alias = None if self.unit.lang == "cpp" else self.is_mutable_place(st, value)
        v = self.ev(st, value)
        if alias is not None and isinstance(tgt, ast.Name):
            self.freeze(st, tgt.id)
            if alias == (tgt.id, ()):
                return
            st.env[tgt.id] = Alias(*alias)
            return
        self.assign_value(st, tgt, v, s)
        # sharing: the object denoted by `value` is now also reachable from the target
        if self.unit.lang == "py" and not self.fresh_expr(st, value) and v.ty.kind == "list":
            self.share(st, tgt, value, alias)

    def share(self, st, tgt, value, alias):
        p = self.place(st, tgt)
        if p is None:
            return
        if isinstance(value, ast.Name) and isinstance(st.env.get(value.id), V) and alias == (value.id, ()) and not self.is_param(value.id):
            st.env[value.id] = Alias(*p)       # the local name moves with the object
            return
        depth = sum(1 for k, _ in p[1] if k == "idx")
        st.shared.add((p[0], depth))
        if alias is not None:
            st.shared.add((alias[0], sum(1 for k, _ in alias[1] if k == "idx")))

    def param_rebound(self, fn):
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ([t] if isinstance(t, ast.Name) else t.elts if isinstance(t, ast.Tuple) else []):
                        if isinstance(x, ast.Name):
                            out.add(x.id)
        return out

    def is_param(self, name):
        return name in self.unit.params

    def fresh_expr(self, st, node):
        """Does the expression create a new object?"""
        if isinstance(node, (ast.Name, ast.Attribute)):
            return False
        if isinstance(node, ast.Subscript):
            return isinstance(node.slice, (ast.Slice, ast.Tuple))
        if isinstance(node, ast.IfExp):
            return self.fresh_expr(st, node.body) and self.fresh_expr(st, node.orelse)
        return True

    def freeze(self, st, root):
        """root is about to be rebound: aliases into it keep the old object."""
        if root not in st.env or self.unit.lang == "cpp":      # a C++ reference keeps referring to the object
            return
        for k, a in list(st.env.items()):
            if isinstance(a, Alias) and a.root == root:
                st.env[k] = self.read(st, a.root, a.path)

    def assign_value(self, st, tgt, v, s):
        if isinstance(tgt, ast.Starred):
            raise Unsupported("starred assignment")
        if isinstance(tgt, (ast.Tuple, ast.List)):
            if v.ty.kind == "tuple":
                if len(tgt.elts) != len(v.ty.args):
                    raise Unsupported("tuple arity")
                for i, t in enumerate(tgt.elts):
                    self.assign_value(st, t, tget(v, i), s)
                return
            if v.ty.kind == "list":
                self.oblige(st, llen(v) == len(tgt.elts), "safety: unpacking length", s)
                for i, t in enumerate(tgt.elts):
                    self.note_read(v, z3.IntVal(i))
                    self.assign_value(st, t, lget(v, z3.IntVal(i)), s)
                return
            raise Unsupported("unpacking %r" % v.ty)
        if v.ty.kind == "opt" and isinstance(tgt, ast.Attribute):        # an optional value stored in a plain field must be present
            pl = self.place(st, tgt)
            if pl is not None and self.read(st, *pl).ty == v.ty.elem:
                self.oblige(st, z3.Not(ois_none(v)), "safety: stored value is not None", s)
                v = oval(v)
        if isinstance(tgt, ast.Name):
            h = self.hint(tgt.id)
            if v.ty.kind == "list" and v.ty.elem.kind == "unk" and h is None:
                cur = st.env.get(tgt.id)
                if isinstance(cur, V) and cur.ty.kind == "list" and cur.ty.elem.kind != "unk":
                    h = cur.ty
            if h is not None and not (h.kind == "list" and v.ty.kind in ("real", "int", "none")):
                v = self.coerce(v, h, s)
            elif v.ty.kind == "list" and v.ty.elem.kind == "unk":
                pass
            if self.unit.lang == "cpp":
                cur = st.env.get(tgt.id)
                if isinstance(cur, Alias):
                    old = self.read(st, cur.root, cur.path)
                    self.write(st, cur.root, cur.path, self.coerce(v, old.ty, s), s)
                    return
                if isinstance(cur, V):
                    v = self.coerce(v, cur.ty, s) if cur.ty != v.ty and not (cur.ty.kind == "list" and cur.ty.elem.kind == "unk") else v
            self.freeze(st, tgt.id)
            st.env[tgt.id] = v
            return
        if isinstance(tgt, ast.Attribute):
            if isinstance(tgt.value, ast.Name) and tgt.value.id.split("@")[0] in ("self", "this"):
                k = "self." + tgt.attr
                if k not in st.env:
                    fty = self.unit.self_.get(tgt.attr)
                    if fty is None:
                        raise Unsupported("field self.%s has no declared type" % tgt.attr)
                    ty = parse_ty(fty)
                else:
                    cur = st.env[k]
                    ty = self.read_root(st, k).ty
                self.freeze(st, k)
                if v.ty.kind == "none" and self.unit.lang == "cpp" and ty.kind in ("list", "abs"):
                    st.env[k] = self.fresh(ty, "nullptr")      # a pointer reset: nothing is known of what it refers to
                    return
                st.env[k] = self.coerce(v, ty, s)
                self.touch(st, k, s)
                return
            p = self.place(st, tgt)
            if p is not None:
                self.write(st, p[0], p[1], v, s)
                return
            b = self.ev(st, tgt.value)
            if b.ty.kind == "opt":
                self.oblige(st, z3.Not(ois_none(b)), "safety: value is not None", tgt)
                b = oval(b)
            if b.ty.kind == "ref":
                self.oblige(st, b.z != null(b.ty).z, "safety: reference is not None", tgt)
                attr = tgt.attr
                if attr not in CLASSES[b.ty.name] and "@" + attr in CLASSES[b.ty.name]:
                    attr = CLASSES[b.ty.name]["@" + attr]
                fty = parse_ty(CLASSES[b.ty.name][attr])
                m = self.heapmap(st, b.ty.name, attr)
                st.heap[b.ty.name + "." + attr] = z3.Store(m, b.z, self.coerce(v, fty, s).z)
                return
            raise Unsupported("attribute assignment")
        if isinstance(tgt, ast.Subscript):
            if isinstance(tgt.slice, ast.Tuple):
                t2 = ast.Subscript(ast.Subscript(tgt.value, tgt.slice.elts[0], ast.Load()), tgt.slice.elts[1], ast.Store())
                ast.copy_location(t2, tgt)
                ast.fix_missing_locations(t2)
                if isinstance(tgt.slice.elts[1], ast.Slice):
                    t2 = t2.value
                return self.assign_value(st, t2, v, s)
            if isinstance(tgt.slice, ast.Slice):
                raise Unsupported("slice assignment")
            hp = self.heap_container(st, tgt)
            if hp is not None:
                return self.heap_list_store(st, hp, tgt, v, s)
            p = self.place(st, tgt)
            if p is None:
                raise Unsupported("subscript store (line %d)" % s.lineno)
            cur = self.read(st, p[0], p[1])
            if v.ty.kind == "opt" and v.ty.elem == cur.ty:
                self.oblige(st, z3.Not(ois_none(v)), "safety: stored value is not None", s)
                v = oval(v)
            self.write(st, p[0], p[1], self.coerce(v, cur.ty, s), s)
            self.touch(st, p[0], s)
            return
        raise Unsupported("assignment target %s" % type(tgt).__name__)

    def heap_container(self, st, tgt):
        """`ref.field[i] = v`: returns (ref V, field) if the container is a heap field."""
        c = tgt.value
        if isinstance(c, ast.Attribute) and not (isinstance(c.value, ast.Name) and c.value.id.split("@")[0] in ("self", "this")):
            if self.place(st, c) is not None:
                return None
            b = self.ev(st, c.value)
            if b.ty.kind == "opt":
                b = oval(b)
            if b.ty.kind == "ref":
                return (b, c.attr)
        return None

    def heap_list_store(self, st, hp, tgt, v, s):
        b, f = hp
        lv = self.get_field(st, b, f, tgt)
        i = self.index(st, lv, tgt.slice, tgt)
        new = self.upd(st, lv, (("idx", i),), v)
        f = f if f in CLASSES[b.ty.name] else CLASSES[b.ty.name]["@" + f]
        st.heap[b.ty.name + "." + f] = z3.Store(self.heapmap(st, b.ty.name, f), b.z, new.z)

    def touch(self, st, root, node):
        pass

    def st_AugAssign(self, st, s):
        load = copy.deepcopy(s.target)
        for x in ast.walk(load):
            if hasattr(x, "ctx"):
                x.ctx = ast.Load()
        cur = self.ev(st, load)
        b = self.ev(st, s.value)
        if cur.ty.kind == "list" and isinstance(s.op, ast.Add) and b.ty.kind == "list":
            p = self.place(st, load)
            if p is None:
                raise Unsupported("augmented assignment of a list")
            if cur.z is None and b.z is None:
                return st
            # numpy arrays add elementwise, lists concatenate
            if self.unit.is_numpy(ast.unparse(load)):
                r = self.np_elementwise(st, s.op, cur, b, s)
            else:
                r = self.l_concat(cur, b)
            self.write(st, p[0], p[1], r, s)
            return st
        r = self.binop(st, s.op, cur, b, s)
        self.assign_value(st, s.target, r, s)
        return st

    def np_elementwise(self, st, op, a, b, n):
        """numpy arithmetic between vectors / vector and scalar."""
        i = z3.Int("ei!%d" % next(self.cnt))
        if a.ty.kind == "list" and b.ty.kind == "list":
            if a.ty.elem.kind == "list" and b.ty.elem.kind != "list":
                # matrix op vector: broadcast over rows
                r = self.fresh(a.ty, "bc")
                j = z3.Int("ej!%d" % next(self.cnt))
                row = lget(r, i)
                x = self.sc(st, op, V(REAL, lget(lget(a, i), j).z), self.coerce(lget(b, j), REAL), n)
                self.facts.append(llen(r) == llen(a))
                self.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(a)), llen(row) == llen(lget(a, i))), patterns=[larr(r)[i]]))
                self.facts.append(z3.ForAll([i, j], larr(row)[j] == x.z, patterns=[larr(row)[j]]))
                return r
            if a.ty.elem.kind == "list":
                raise Unsupported("matrix arithmetic")
            self.oblige(st, llen(a) == llen(b), "safety: vectors of equal length", n)
            x = self.sc(st, op, lget(a, i), lget(b, i), n)
            ln = llen(a)
        elif a.ty.kind == "list":
            x = self.sc(st, op, lget(a, i), b, n)
            ln = llen(a)
        else:
            x = self.sc(st, op, a, lget(b, i), n)
            ln = llen(b)
        if x.ty.kind not in ("int", "real"):
            raise Unsupported("elementwise operation")
        r = self.fresh(TList(x.ty), "ew")
        self.facts.append(llen(r) == ln)
        self.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ln), larr(r)[i] == x.z), patterns=[larr(r)[i]]))
        return r

    def sc(self, st, op, a, b, n):
        self.bound_depth += 1
        self.spec_depth += 1
        try:
            return self.binop(st, op, a, b, n)
        finally:
            self.bound_depth -= 1
            self.spec_depth -= 1

    def st_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                p = self.place(st, t.value)
                lv = self.read(st, *p)
                i = self.index(st, lv, t.slice, s)
                self.write(st, p[0], p[1], self.l_pop(st, lv, i, s), s)
            else:
                raise Unsupported("del")
        return st

    def st_Return(self, st, s):
        if isinstance(s.value, ast.Name) and s.value.id == "self" and len(self.frames) == 1:
            v = V(NONE, z3.BoolVal(False))      # 'return self' for chaining
        else:
            v = self.ev(st, s.value) if s.value is not None else V(NONE, z3.BoolVal(False))
        self.frames[-1]["ret"].append((st, v))
        return None

    def st_Raise(self, st, s):
        self.frames[-1]["raise"].append((st, s))
        return None

    def st_Break(self, st, s):
        self.loop_stack[-1]["breaks"].append(st)
        return None

    def st_Continue(self, st, s):
        self.loop_stack[-1]["conts"].append(st)
        return None

    def st_FunctionDef(self, st, s):
        st.env[s.name] = V(Ty("fun", (), "localdef"), s)
        return st

    def st_With(self, st, s):
        return self.block(st, s.body)

    def st_Try(self, st, s):
        raise Unsupported("try (line %d)" % s.lineno)

    def st_If(self, st, s):
        t = self.ev(st, s.test)
        c = self.truth(st, t)
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.block(st, s.body)
        if z3.is_false(cs):
            return self.block(st, s.orelse)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = conj(st.pc, c), conj(st.pc, z3.Not(c))
        r1 = self.block(s1, s.body)
        r2 = self.block(s2, s.orelse)
        return self.merge([r1, r2])

    def merge(self, states):
        states = [s for s in states if s is not None and not z3.is_false(s.pc)]
        if not states:
            return None
        r = states[0]
        for o in states[1:]:
            r = self.merge2(r, o)
        return r

    def merge2(self, a, b):
        # distinguishing condition: path condition of a (paths are exclusive)
        if a is b:
            return a
        base = conj()
        c = z3.Bool("br!%d" % next(self.cnt))
        self.facts.append(c == a.pc)
        pc = disj(a.pc, b.pc)
        env = {}
        for k in list(a.env.keys()):
            if k not in b.env:
                continue
            va, vb = a.env[k], b.env[k]
            if va is vb:
                env[k] = va
                continue
            if isinstance(va, Alias) or isinstance(vb, Alias):
                if isinstance(va, Alias) and isinstance(vb, Alias) and va.root == vb.root and len(va.path) == len(vb.path) and all(x[0] == y[0] and (x[1] is y[1] or (z3.is_expr(x[1]) and x[1].eq(y[1])) or x[1] == y[1] if not z3.is_expr(x[1]) else x[1].eq(y[1])) for x, y in zip(va.path, vb.path)):
                    env[k] = va
                    continue
                if isinstance(va, Alias) and isinstance(vb, Alias) and va.root == vb.root and [x[0] for x in va.path] == [y[0] for y in vb.path] and all(x[0] == "idx" for x in va.path):
                    env[k] = Alias(va.root, [("idx", z3.If(c, x[1], y[1])) for x, y in zip(va.path, vb.path)])
                    continue
                va = self.read(a, va.root, va.path) if isinstance(va, Alias) else va
                vb = self.read(b, vb.root, vb.path) if isinstance(vb, Alias) else vb
            if va.ty.kind == "fun" or vb.ty.kind == "fun":
                if va.ty == vb.ty and va.z is vb.z:
                    env[k] = va
                continue
            if va.z is None and vb.z is None:
                env[k] = va
                continue
            if va.ty == vb.ty and va.z is not None and va.z.eq(vb.z):
                env[k] = va
                continue
            try:
                ty = self.join_ty(va.ty, vb.ty)
                x, y = self.coerce(va, ty), self.coerce(vb, ty)
            except Unsupported:
                continue
            m = V(ty, z3.If(c, x.z, y.z))
            if ty.kind in ("list", "rec", "tuple"):
                n = V(ty, z3.Const("m!%d" % next(self.cnt), sort(ty)))
                self.facts.append(z3.If(c, n.z == x.z, n.z == y.z))
                if ty.kind == "list":
                    self.note(n)
                m = n
            env[k] = m
        heap = {}
        for k in set(a.heap) | set(b.heap):
            cls, f = k.split(".", 1)
            ha, hb = self.heapmap(a, cls, f), self.heapmap(b, cls, f)
            heap[k] = ha if ha.eq(hb) else z3.If(c, ha, hb)
        return State(env, heap, pc, a.shared | b.shared)

    # ------------------------------------------------------------------ loops
    def st_For(self, st, s):
        from .loops import for_loop
        return for_loop(self, st, s)

    def st_While(self, st, s):
        from .loops import while_loop
        return while_loop(self, st, s)

    # ------------------------------------------------------------------ inlining
    def inline(self, st, fn, args, kwargs, node, self_bind=None):
        """fn: ast.FunctionDef; args: list of (V or Alias)."""
        if self.depth > 6:
            raise Unsupported("inlining too deep at %s" % fn.name)
        self.depth += 1
        try:
            params = [a.arg for a in fn.args.args]
            if params and params[0] in ("self", "cls") and not getattr(fn, "_static", False):
                params = params[1:]
            suffix = "@%d" % next(self.cnt)
            names = set(params) | assigned_names(fn.body)
            body = [Renamer(names, suffix).visit(copy.deepcopy(b)) for b in fn.body]
            defaults = dict(zip(params[len(params) - len(fn.args.defaults):], fn.args.defaults))
            for i, p in enumerate(params):
                if i < len(args):
                    a = args[i]
                elif p in kwargs:
                    a = kwargs[p]
                elif p in defaults:
                    a = self.ev(st, defaults[p])
                else:
                    raise Unsupported("missing argument %s of %s" % (p, fn.name))
                st.env[p + suffix] = a
            self.frames.append({"ret": [], "raise": []})
            saved_loops, self.loop_stack = self.loop_stack, []
            cur = st.copy()
            end = self.block(cur, body)
            self.loop_stack = saved_loops
            fr = self.frames.pop()
            self.frames[-1]["raise"].extend(fr["raise"])
            outs = list(fr["ret"])
            if end is not None:
                outs.append((end, V(NONE, z3.BoolVal(False))))
            if not outs:
                st.pc = z3.BoolVal(False)
                return V(NONE, z3.BoolVal(False))
            ty = outs[0][1].ty
            for _, v in outs[1:]:
                ty = self.join_ty(ty, v.ty)
            for s2, v in outs:
                s2.env["$ret"] = self.coerce(v, ty) if v.ty != ty else v
            m = self.merge([o[0] for o in outs])
            r = m.env.pop("$ret")
            st.env, st.heap, st.pc, st.shared = m.env, m.heap, m.pc, m.shared
            mine = [k for k in st.env if k.endswith(suffix)]
            for k in mine:
                self.freeze(st, k)
            for k in mine:
                del st.env[k]
            return r
        finally:
            self.depth -= 1
