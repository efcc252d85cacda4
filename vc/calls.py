"""Calls: contracts, inlining, list methods, builtins, the trusted contracts of numpy functions."""
import ast
import copy
import z3

from .types import *          # noqa: F401,F403
from .types import Unsupported, V, Ty
from .engine import Alias, State, conj, disj, MUT

IGNORED = {"print", "warnings.warn", "warnings.catch_warnings", "warnings.filterwarnings", "random.seed", "numpy.random.seed",
           "__dead__", "__nop__"}


def arg_val(eng, st, node):
    """Argument for a by-reference parameter: alias when the expression is a mutable place."""
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "__ref__":
        node = node.args[0]
        p = eng.place(st, node)
        if p is not None:
            return Alias(*p)
        return eng.ev(st, node)
    if eng.unit.lang == "py":
        p = eng.is_mutable_place(st, node)
        if p is not None:
            return Alias(*p)
    return eng.ev(st, node)


def val(eng, st, a):
    return eng.read(st, a.root, a.path) if isinstance(a, Alias) else a


def call(eng, st, n, stmt=False):
    f = n.func
    kwargs = {k.arg: k.value for k in n.keywords}
    d = eng.dotted(f)
    # --- spec-only forms
    if isinstance(f, ast.Name):
        nme = f.id.split("@")[0]
        if nme in ("forall", "exists") and eng.spec_depth:
            return quant(eng, st, nme, n)
        if nme == "implies" and eng.spec_depth:
            a = eng.truth(st, eng.ev(st, n.args[0]))
            b = eng.truth(st, eng.ev(st, n.args[1]))
            return V(BOOL, z3.Implies(a, b))
        if nme == "iff" and eng.spec_depth:
            return V(BOOL, eng.truth(st, eng.ev(st, n.args[0])) == eng.truth(st, eng.ev(st, n.args[1])))
        if nme == "ite":
            c = eng.truth(st, eng.ev(st, n.args[0]))
            a, b = eng.ev(st, n.args[1]), eng.ev(st, n.args[2])
            ty = eng.join_ty(a.ty, b.ty)
            return V(ty, z3.If(c, eng.coerce(a, ty).z, eng.coerce(b, ty).z))
        if nme == "old" and eng.spec_depth:
            o = eng.old_stack[-1] if eng.old_stack else eng.entry
            s = o.copy()
            for k, v in st.env.items():       # bound variables stay visible
                if k not in s.env and isinstance(v, V):
                    s.env[k] = v
            return eng.ev(s, n.args[0])
        if nme in ("mu", "pre") and eng.spec_depth:
            # mu('cnt', list) / pre('cnt', list, k)
            mname = n.args[0].value
            l = eng.ev(st, n.args[1])
            return measure_val(eng, st, mname, l, n, pre=eng.ev(st, n.args[2]).z if nme == "pre" else None)
        if eng.spec_depth and any(m.name == nme for ms in eng.measures.values() for m in ms):
            l = eng.ev(st, n.args[0])
            return measure_val(eng, st, nme, l, n, pre=eng.ev(st, n.args[1]).z if len(n.args) > 1 else None)
        if nme in eng.unit.all_spec() and (eng.spec_depth or nme not in eng.unit.calls):
            return spec_fun(eng, st, nme, n)
        if nme == "__usub__":
            a, b = eng.ev(st, n.args[0]), eng.ev(st, n.args[1])
            return V(INT, z3.If(a.z >= b.z, a.z - b.z, a.z - b.z + z3.IntVal(1 << 64)))
        if nme == "__trunc__":
            a = eng.ev(st, n.args[0])
            if a.ty.kind == "int":
                return a
            return V(INT, z3.If(a.z >= 0, z3.ToInt(a.z), -z3.ToInt(-a.z)))
        if nme == "__real__":
            return eng.coerce(eng.ev(st, n.args[0]), REAL)
        if nme == "__cdiv__":        # C++ unsigned division
            a, b = eng.ev(st, n.args[0]), eng.ev(st, n.args[1])
            eng.oblige(st, b.z > 0, "safety: division by zero", n)
            return V(INT, a.z / b.z)
        if nme == "__ref__":
            return eng.ev(st, n.args[0])
        if nme == "__default__":
            return eng.default(parse_ty(n.args[0].value))
        if nme == "__record__":
            ty = parse_ty(n.args[0].value)
            vs = [eng.coerce(eng.ev(st, a), parse_ty(t)) for a, (_, t) in zip(n.args[1:], RECORDS[ty.name])]
            return V(ty, sort(ty).constructor(0)(*[v.z for v in vs]))
        if nme == "__filled__":      # vector(n, x)
            return filled(eng, st, eng.ev(st, n.args[0]), eng.ev(st, n.args[1]))
        if nme == "__emptylist__":
            return eng.empty(parse_ty(n.args[0].value))
        if nme == "__iota__":        # iota over a whole list starting at x
            p = eng.place(st, n.args[0])
            l = eng.read(st, *p)
            x = eng.ev(st, n.args[1])
            r = eng.fresh(l.ty, "iota")
            i = z3.Int("io!%d" % next(eng.cnt))
            eng.facts.append(llen(r) == llen(l))
            eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(r)), larr(r)[i] == i + x.z), patterns=[larr(r)[i]]))
            range_measure(eng, r, x.z, llen(l))
            eng.write(st, p[0], p[1], r, n)
            return V(NONE, z3.BoolVal(False))
        if nme == "__swap__":
            pa, pb = eng.place(st, n.args[0]), eng.place(st, n.args[1])
            a, b = eng.read(st, *pa), eng.read(st, *pb)
            eng.write(st, pa[0], pa[1], b, n)
            eng.write(st, pb[0], pb[1], a, n)
            return V(NONE, z3.BoolVal(False))
        if nme in ("numpy_argmax", "numpy_argmin"):
            return np_argmin(nme[-3:])(eng, st, n, kwargs)
        if nme == "__contains__":
            return V(INT, z3.If(eng.member(st, eng.ev(st, n.args[1]), eng.ev(st, n.args[0]), n), 1, 0))
        if nme == "__find__":        # index of the first occurrence, or the length
            l = eng.ev(st, n.args[0])
            x = eng.coerce(eng.ev(st, n.args[1]), l.ty.elem)
            mem = eng.member(st, x, l, n)
            i = z3.Int("fd!%d" % next(eng.cnt))
            j = z3.Int("fe!%d" % next(eng.cnt))
            eng.facts.append(z3.And(i >= 0, i <= llen(l), z3.Implies(mem, z3.And(i < llen(l), larr(l)[i] == x.z)), z3.Implies(z3.Not(mem), i == llen(l)),
                                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), larr(l)[j] != x.z), patterns=[larr(l)[j]])))
            return V(INT, i)
        if nme == "__sortedby__":
            return sorted_by(eng, st, n)
    if d in IGNORED:
        for a in n.args:
            if isinstance(a, ast.Call):
                eng.ev(st, a)
        return V(NONE, z3.BoolVal(False))
    # --- user supplied symbols (metrics, random numbers, library contracts)
    u = eng.unit.calls.get(d) if d else None
    if u is None and isinstance(f, ast.Attribute):
        u = eng.unit.calls.get("*." + f.attr)
    if u is not None:
        return user_call(eng, st, d, u, n, kwargs)
    # --- local function values
    if isinstance(f, ast.Name):
        k = eng.lookup(st, f.id)
        if k is not None and isinstance(st.env[k], V) and st.env[k].ty.kind == "fun":
            fv = st.env[k]
            if fv.ty.name == "localdef":
                return eng.inline(st, fv.z, [arg_val(eng, st, a) for a in n.args], {}, n)
            if fv.ty.name == "lambda":
                return lambda_call(eng, st, fv.z, n)
            if fv.ty.name in eng.unit.calls:
                return user_call(eng, st, fv.ty.name, eng.unit.calls[fv.ty.name], n, kwargs)
    # --- functions and methods with a contract, else inlined
    if isinstance(f, ast.Name):
        nme = f.id.split("@")[0]
        c = eng.registry.find(eng.unit, None, nme)
        if c is not None:
            return contract_call(eng, st, c, n.args, kwargs, n)
        b = BUILTINS.get(nme)
        if b is not None:
            return b(eng, st, n, kwargs)
        fn = eng.source.function(nme) if eng.source else None
        if fn is not None:
            eng.inlined.add(nme)
            return eng.inline(st, fn, [arg_val(eng, st, a) for a in n.args], {k: arg_val(eng, st, v) for k, v in kwargs.items()}, n)
    if isinstance(f, ast.Attribute):
        base = f.value
        if isinstance(base, ast.Name) and base.id.split("@")[0] in ("self", "this") or (d and d.rsplit(".", 1)[0] in eng.unit.class_names):
            c = eng.registry.find(eng.unit, "self", f.attr)
            if c is not None:
                return contract_call(eng, st, c, n.args, kwargs, n)
            fn = eng.source.method(f.attr) if eng.source else None
            if fn is not None:
                eng.inlined.add(f.attr)
                return eng.inline(st, fn, [arg_val(eng, st, a) for a in n.args], {k: arg_val(eng, st, v) for k, v in kwargs.items()}, n)
            if "self." + f.attr in st.env and st.env["self." + f.attr].ty.kind == "fun":
                fv = st.env["self." + f.attr]
                return user_call(eng, st, fv.ty.name, eng.unit.calls[fv.ty.name], n, kwargs)
            raise Unsupported("method self.%s has neither contract nor body (line %s)" % (f.attr, getattr(n, "lineno", "?")))
        if d and d in NUMPY:
            return NUMPY[d](eng, st, n, kwargs)
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "super":
            fn = eng.source.super_method(f.attr)
            if fn is not None:
                return eng.inline(st, fn, [arg_val(eng, st, a) for a in n.args], {}, n)
        return method_call(eng, st, n, f, kwargs, stmt)
    raise Unsupported("call of %s (line %s)" % (d or type(f).__name__, getattr(n, "lineno", "?")))


def lambda_call(eng, st, lam, n):
    names = [a.arg for a in lam.args.args]
    s = st.copy()
    for p, a in zip(names, n.args):
        s.env[p] = eng.ev(st, a)
    return eng.ev(s, lam.body)


def measure_val(eng, st, name, l, n, pre=None):
    if l.z is None:
        return V(INT, z3.IntVal(0))
    if l.ty.kind == "opt":
        l = oval(l)
    for m in eng.measures.get(l.ty, []):
        if m.name == name:
            ty = REAL if m.real else INT
            if pre is None:
                return V(ty, m.mu(l.z))
            return V(ty, m.pre(l.z, pre))
    raise Unsupported("no measure %s on %r" % (name, l.ty))


def quant(eng, st, kind, n):
    lam = n.args[0]
    names = [a.arg for a in lam.args.args]
    kw = {k.arg: k.value for k in n.keywords}
    tys = [parse_ty(ast.unparse(kw[a]) if not isinstance(kw[a], ast.Constant) else kw[a].value) if a in kw else INT for a in names]
    bs = [z3.Const("%s?%d" % (a, next(eng.cnt)), sort(t)) for a, t in zip(names, tys)]
    s = st.copy()
    for a, b, t in zip(names, bs, tys):
        s.env[a] = V(t, b)
    eng.bound_depth += 1
    eng.bound_vars.extend(bs)
    try:
        body = eng.truth(s, eng.ev(s, lam.body))
    finally:
        eng.bound_depth -= 1
        del eng.bound_vars[len(eng.bound_vars) - len(bs):]
    return V(BOOL, z3.ForAll(bs, body) if kind == "forall" else z3.Exists(bs, body))


def has_ite(z):
    return z3.is_app(z) and (z.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in z.children()))


def occurs(b, z, seen=None):
    seen = set() if seen is None else seen
    todo = [z]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(b):
            return True
        todo.extend(x.children())
    return False


def spec_fun(eng, st, nme, n):
    sp = eng.unit.all_spec()[nme]
    args = [eng.ev(st, a) for a in n.args]
    if isinstance(sp, str):           # macro: lambda text
        lam = ast.parse(sp, mode="eval").body
        s = st.copy()
        for a, v in zip(lam.args.args, args):
            s.env[a.arg] = v
        eng.spec_depth += 1
        try:
            return eng.ev(s, lam.body)
        finally:
            eng.spec_depth -= 1
    atys, rty = sp[0], sp[1]
    args = [eng.coerce(a, parse_ty(t)) for a, t in zip(args, atys)]
    r = eng.uf(nme, args, parse_ty(rty))
    for ax in (sp[2] if len(sp) > 2 else []):
        bound = [b for b in eng.bound_vars if occurs(b, r.z)]
        if eng.in_axiom:
            continue                  # unfolded once
        lam = ast.parse(ax, mode="eval").body
        s = st.copy()
        for a, v in zip(lam.args.args, args + [r]):
            s.env[a.arg] = v
        eng.spec_depth += 1
        eng.bound_depth += 1
        eng.in_axiom += 1
        try:
            z = eng.truth(s, eng.ev(s, lam.body))
        finally:
            eng.spec_depth -= 1
            eng.bound_depth -= 1
            eng.in_axiom -= 1
        if bound:
            z = z3.ForAll(bound, z, patterns=[r.z]) if not has_ite(r.z) else z3.ForAll(bound, z)
        if not any(f.eq(z) for f in eng.facts[-300:]):
            eng.facts.append(z)
    return r


def user_call(eng, st, d, u, n, kwargs):
    """u: dict(args=[types], ret=type, fn=name or None (fresh each call), requires=[], ensures=[], modifies=[], when=..)"""
    if isinstance(u, list):
        args = [eng.ev(st, a) for a in n.args]
        err = None
        for alt in u:
            if len(alt["args"]) == len(args):
                try:
                    for a, t in zip(args, alt["args"]):
                        eng.coerce(a, parse_ty(t))
                except Unsupported as e:
                    err = e
                    continue
                return user_call(eng, st, d, alt, n, kwargs)
        raise Unsupported("no alternative for %s: %s" % (d, err))
    if u.get("inline"):
        lam = ast.parse(u["inline"], mode="eval").body
        s = st.copy()
        for a, v in zip(lam.args.args, [eng.ev(st, a) for a in n.args]):
            s.env[a.arg] = v
        return eng.ev(s, lam.body)
    names = u.get("names") or ["a%d" % i for i in range(len(u["args"]))]
    byref = set(u.get("modifies", []))
    nodes = ([n.func.value] if u.get("recv") else []) + list(n.args)
    nodes += [kwargs[x] for x in names[len(nodes):] if x in kwargs]
    places = {}
    args = []
    for nm_, t, a in zip(names, u["args"], nodes):
        if nm_ in byref:
            places[nm_] = eng.place(st, a)
        if t == "any":
            args.append(V(NONE, z3.BoolVal(False)))
            continue
        av = eng.ev(st, a)
        if av.ty.kind == "opt" and parse_ty(t).kind != "opt":
            eng.oblige(st, z3.Not(ois_none(av)), "safety: value is not None", n)
            av = oval(av)
        args.append(eng.coerce(av, parse_ty(t), n))
    scope = {x: v for x, v in zip(names, args)}
    for r in u.get("requires", []):
        eng.oblige(st, eng.spec_bool(st, r, scope), "precondition of %s: %s" % (d, r), n)
    old = st.copy()
    old.env.update(scope)
    for x in byref:
        if places.get(x) is None:
            raise Unsupported("modified argument is not a place")
        nv = eng.fresh(scope[x].ty, x)
        scope[x] = nv
        eng.write(st, places[x][0], places[x][1], nv, n)
    if u.get("ret") in (None, "none"):
        res = V(NONE, z3.BoolVal(False))
    elif u.get("fn"):
        res = eng.uf(u["fn"], args, parse_ty(u["ret"]))
        if res.ty.kind == "list":
            eng.note(res)
    else:
        res = eng.fresh(parse_ty(u["ret"]), "call")
    scope["result"] = res
    eng.trusted_used.add(u.get("doc") or d)
    if not eng.bound_depth:
        for e in u.get("ensures", []):
            eng.fact(st, eng.spec_bool(st, e, scope, old))
    return res


def adopt(eng, c):
    """the caller's unit learns the specification functions and constants the callee's contract speaks about"""
    for k, v in c.all_spec().items():
        have = eng.unit.all_spec().get(k)
        if have is None:
            eng.unit._spec[k] = v
        elif have != v:
            raise Unsupported("specification function %s means different things in %s and %s" % (k, eng.unit.name, c.name))
    for k, v in c.consts.items():
        eng.unit.consts.setdefault(k, v)


def contract_call(eng, st, c, argnodes, kwargs, n):
    adopt(eng, c)
    names = list(c.params)
    scope_alias = {}
    for i, p in enumerate(names):
        if i < len(argnodes):
            a = arg_val(eng, st, argnodes[i])
        elif p in kwargs:
            a = arg_val(eng, st, kwargs[p])
        elif p in c.defaults:
            a = eng.spec(st, c.defaults[p])
        else:
            raise Unsupported("missing argument %s of %s" % (p, c.name))
        scope_alias[p] = a
    vals = {}
    for p, a in scope_alias.items():
        v = val(eng, st, a)
        t = parse_ty(c.params[p])
        vals[p] = v if t.kind == "fun" else eng.coerce(v, t, n)
        if p in c.static:
            eng.oblige(st, vals[p].z == eng.const_val(c.static[p]).z, "precondition of %s: %s is %s" % (c.name, p, c.static[p]), n)
    s0 = st.copy()
    s0.env.update(vals)
    for i, r in enumerate(c.requires):
        g = eng.spec_bool(s0, r)
        eng.oblige(st, g, "precondition of %s: %s" % (c.name, r), n)
    if c.trusted:
        eng.trusted_used.add(c.name)
    if c.raises and c.raises != "any":
        rc = eng.spec_bool(s0, c.raises)
        ex = st.copy()
        ex.pc = conj(ex.pc, rc)
        eng.frames[-1]["raise"].append((ex, n))
        eng.assume(st, z3.Not(rc))
    elif c.raises == "any":
        okb = z3.Bool("ok!%d" % next(eng.cnt))
        ex = st.copy()
        ex.pc = conj(ex.pc, z3.Not(okb))
        eng.frames[-1]["raise"].append((ex, n))
        eng.assume(st, okb)
    old = st.copy()
    old.env.update(vals)
    post = {}
    for m in c.modifies:
        if m.startswith("self."):
            if m not in st.env:
                continue
            ty = eng.read_root(st, m).ty
            eng.freeze(st, m)
            st.env[m] = eng.fresh(ty, m)
        elif "." in m and m.split(".")[0] in CLASSES:
            cls, fl = m.split(".")
            hm = eng.heapmap(st, cls, fl)
            st.heap[m] = z3.Const("heap!%d_%s" % (next(eng.cnt), m), hm.sort())
        else:
            a = scope_alias[m]
            nv = eng.fresh(vals[m].ty, m)
            post[m] = nv
            if isinstance(a, Alias):
                eng.write(st, a.root, a.path, nv, n)
    res = eng.fresh(parse_ty(c.ret), "ret_" + c.short) if c.ret and c.ret != "none" else V(NONE, z3.BoolVal(False))
    scope = dict(vals)
    scope.update(post)
    scope["result"] = res
    for e in c.ensures:
        eng.fact(st, eng.spec_bool(st, e, scope, old))
    return res


# ---------------------------------------------------------------------- list comprehension
def listcomp(eng, st, n):
    """[e for x in it if c]  ==  tmp = []; for x in it: if c: tmp.append(e)   (as a loop, with synthesised invariants)"""
    if len(n.generators) != 1:
        return listcomp_nested(eng, st, n)
    if eng.spec_depth:
        raise Unsupported("comprehension in a contract")
    g = n.generators[0]
    sfx = "@%d" % next(eng.cnt)
    names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
    from .engine import Renamer
    ren = Renamer(names, sfx)
    target = ren.visit(copy.deepcopy(g.target))
    elt = ren.visit(copy.deepcopy(n.elt))
    ifs = [ren.visit(copy.deepcopy(c)) for c in g.ifs]
    tmp = "comp" + sfx
    app = ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), "append", ast.Load()), [elt], []))
    body = [app]
    for c in reversed(ifs):
        body = [ast.If(c, body, [])]
    loop = ast.For(target, g.iter, body, [], None)
    ast.copy_location(loop, n)
    for x in ast.walk(loop):
        if not hasattr(x, "lineno"):
            x.lineno = getattr(n, "lineno", 0)
            x.col_offset = 0
    loop._comp = (tmp, target, elt, bool(ifs))
    # type of the elements: evaluate once in a scratch state
    ety = comp_elem_type(eng, st, loop, elt)
    if ety.kind == "opt" and ifs and isinstance(elt, ast.Name) and any("isnan(%s)" % elt.id in ast.unparse(c) or ast.unparse(c) == "%s is not None" % elt.id for c in ifs):
        ety = ety.elem          # absent values are filtered out (the append carries the obligation)
    st.env[tmp] = eng.empty(TList(ety))
    after = eng.st_For(st, loop)
    if after is None:
        st.pc = z3.BoolVal(False)
        return eng.empty(TList(ety))
    r = eng.read_root(after, tmp)
    st.env, st.heap, st.pc, st.shared = after.env, after.heap, after.pc, after.shared
    eng.freeze(st, tmp)
    for k in [k for k in st.env if k.endswith(sfx)]:
        del st.env[k]
    return r


def listcomp_nested(eng, st, n):
    raise Unsupported("nested comprehension generators")


def comp_elem_type(eng, st, loop, elt):
    from . import loops
    if isinstance(elt, ast.List) and not elt.elts:
        h = eng.unit.default_list
        if h is None:
            raise Unsupported("cannot type [] in a comprehension")
        return parse_ty(h)
    nf, no = len(eng.facts), len(eng.obs)
    sd = eng.dry
    eng.dry += 1
    try:
        s = st.copy()
        it = loops.Iter(eng, s, loop.iter, loop)
        s = s.copy()
        it.bind(s, z3.Int("k!scratch"))
        return eng.ev(s, elt).ty
    finally:
        eng.dry = sd
        del eng.facts[nf:]
        del eng.obs[no:]


# ---------------------------------------------------------------------- methods of values
def container(eng, st, node):
    """place of the receiver; heap field receivers give ('heap', ref, field)"""
    p = eng.place(st, node)
    if p is not None:
        return p
    if isinstance(node, ast.Attribute):
        b = eng.ev(st, node.value)
        if b.ty.kind == "opt":
            b = oval(b)
        if b.ty.kind == "ref":
            f = node.attr
            if f not in CLASSES[b.ty.name] and "@" + f in CLASSES[b.ty.name]:
                f = CLASSES[b.ty.name]["@" + f]
            return ("heap", b, f)
    return None


def rd(eng, st, p):
    if p[0] == "heap":
        return eng.get_field(st, p[1], p[2], None)
    return eng.read(st, p[0], p[1])


def wr(eng, st, p, v, n):
    if p[0] == "heap":
        k = p[1].ty.name + "." + p[2]
        st.heap[k] = z3.Store(eng.heapmap(st, p[1].ty.name, p[2]), p[1].z, v.z)
    else:
        eng.write(st, p[0], p[1], v, n)


NONEV = lambda: V(NONE, z3.BoolVal(False))


def method_call(eng, st, n, f, kwargs, stmt):
    m = f.attr
    if m in MUT:
        p = container(eng, st, f.value)
        if p is None:
            if m == "pop" or stmt:
                raise Unsupported("mutation of a temporary (line %s)" % getattr(n, "lineno", "?"))
            raise Unsupported("receiver of %s" % m)
        l = rd(eng, st, p)
        if l.ty.kind == "opt":
            eng.oblige(st, z3.Not(ois_none(l)), "safety: value is not None", n)
            p = (p[0], tuple(p[1]) + (("opt", None),)) if p[0] != "heap" else p
            l = oval(l)
        if l.ty.kind == "set":
            return set_method(eng, st, n, m, p, l)
        if l.ty.kind != "list":
            raise Unsupported("method %s of %r" % (m, l.ty))
        if m in ("append", "__push__"):
            arg = n.args[0]
            if l.ty.elem.kind == "unk":
                if isinstance(arg, ast.List) and not arg.elts:
                    x = eng.empty(eng.hint_empty())
                else:
                    x = eng.ev(st, arg)
                if x.ty.kind == "list" and x.ty.elem.kind == "unk":
                    x = eng.empty(eng.hint_empty())
                l = eng.empty(TList(x.ty))
            else:
                x = eng.ev(st, arg)
                if x.ty.kind == "opt" and x.ty.elem == l.ty.elem:
                    eng.oblige(st, z3.Not(ois_none(x)), "safety: value is not None", n)
                    x = oval(x)
                x = eng.coerce(x, l.ty.elem, n)
            # re-read: evaluating the argument may have changed the list
            l2 = rd(eng, st, p)
            if l2.z is not None and l2.ty.kind == "list" and l2.ty.elem.kind != "unk":
                l = l2
            ln = llen(l)
            wr(eng, st, p, eng.l_append(l, x), n)
            if eng.unit.lang == "py" and x.ty.kind == "list" and not eng.fresh_expr(st, arg) and p[0] != "heap":
                note_share(eng, st, p, ln, arg)
            return NONEV()
        if m in ("extend",):
            x = eng.ev(st, n.args[0])
            if l.ty.elem.kind == "unk":
                l = eng.empty(x.ty)
            wr(eng, st, p, eng.l_concat(l, x), n)
            return NONEV()
        if m in ("clear", "__clear__"):
            wr(eng, st, p, eng.empty(l.ty), n)
            return NONEV()
        if m == "__reserve__":
            return NONEV()
        if m == "pop":
            if n.args:
                i = eng.index(st, l, n.args[0], n)
            else:
                eng.oblige(st, llen(l) > 0, "safety: pop from an empty list", n)
                i = llen(l) - 1
            unalias(eng, st, p)
            eng.note_read(l, i)
            x = lget(l, i)
            wr(eng, st, p, eng.l_pop(st, l, i, n), n)
            return x
        if m == "__popback__":
            eng.oblige(st, llen(l) > 0, "safety: pop_back on an empty vector", n)
            unalias(eng, st, p)
            wr(eng, st, p, eng.l_pop(st, l, llen(l) - 1, n), n)
            return NONEV()
        if m == "__eraseat__":
            i = eng.index(st, l, n.args[0], n)
            unalias(eng, st, p)
            wr(eng, st, p, eng.l_pop(st, l, i, n), n)
            return NONEV()
        if m == "insert":
            i = eng.ev(st, n.args[0])
            x = eng.coerce(eng.ev(st, n.args[1]), l.ty.elem)
            eng.oblige(st, i.z >= 0, "safety: insert position not negative", n)
            unalias(eng, st, p)
            wr(eng, st, p, eng.l_insert(l, i.z, x), n)
            return NONEV()
        if m == "remove":
            x = eng.coerce(eng.ev(st, n.args[0]), l.ty.elem)
            i = z3.Int("rm!%d" % next(eng.cnt))
            j = z3.Int("rj!%d" % next(eng.cnt))
            eng.oblige(st, eng.member(st, x, l, n), "safety: removed element is in the list", n)
            eng.fact(st, z3.And(i >= 0, i < llen(l), larr(l)[i] == x.z,
                                z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), larr(l)[j] != x.z))))
            unalias(eng, st, p)
            wr(eng, st, p, eng.l_pop(st, l, i, n), n)
            return NONEV()
        if m in ("sort", "reverse"):
            r = eng.fresh(l.ty, m)
            permutation_facts(eng, l, r)
            if m == "sort" and not n.args and not kwargs and l.ty.elem.kind in ("int", "real"):
                sorted_facts(eng, r)
            if m == "reverse":
                i = z3.Int("rv!%d" % next(eng.cnt))
                eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(l)), larr(r)[i] == larr(l)[llen(l) - 1 - i]), patterns=[larr(r)[i]]))
            wr(eng, st, p, r, n)
            return NONEV()
        if m == "__resize__":
            k = eng.ev(st, n.args[0])
            x = eng.coerce(eng.ev(st, n.args[1]), l.ty.elem) if len(n.args) > 1 else eng.default(l.ty.elem)
            r = eng.fresh(l.ty, "rsz")
            i = z3.Int("rz!%d" % next(eng.cnt))
            eng.oblige(st, k.z >= 0, "safety: size not negative", n)
            eng.facts.append(llen(r) == k.z)
            eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k.z), larr(r)[i] == z3.If(i < llen(l), larr(l)[i], x.z)), patterns=[larr(r)[i]]))
            for ms in eng.measures.get(l.ty, []):
                eng.facts.append(z3.Implies(k.z == llen(l), ms.mu(r.z) == ms.mu(l.z)))
                eng.facts.append(z3.Implies(z3.And(k.z >= llen(l), ms.f(x) == ms.zero), ms.mu(r.z) == ms.mu(l.z)))
                eng.facts.append(z3.Implies(k.z <= llen(l), ms.mu(r.z) == ms.pre(l.z, k.z)))
            wr(eng, st, p, r, n)
            return NONEV()
        if m == "__assign__":        # assign(n, x)
            k = eng.ev(st, n.args[0])
            x = eng.coerce(eng.ev(st, n.args[1]), l.ty.elem)
            wr(eng, st, p, filled(eng, st, k, x), n)
            return NONEV()
        if m == "__copyat__":        # std::copy into existing elements
            i0, x = eng.ev(st, n.args[0]), eng.coerce(eng.ev(st, n.args[1]), l.ty)
            eng.oblige(st, z3.And(i0.z >= 0, i0.z + llen(x) <= llen(l)), "safety: copied range fits in the destination", n)
            f = eng.fresh(l.ty, "cpy")
            j = z3.Int("cp!%d" % next(eng.cnt))
            eng.facts.append(llen(f) == llen(l))
            eng.facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < llen(l)), larr(f)[j] == z3.If(z3.And(j >= i0.z, j < i0.z + llen(x)), larr(x)[j - i0.z], larr(l)[j])), patterns=[larr(f)[j]]))
            wr(eng, st, p, V(l.ty, z3.If(z3.And(i0.z == 0, llen(x) == llen(l)), x.z, f.z)), n)
            return NONEV()
        if m == "__insert__":        # insert(end, first, last): concatenation at the end
            x = eng.ev(st, n.args[0])
            wr(eng, st, p, eng.l_concat(l, x), n)
            return NONEV()
        raise Unsupported("list method %s" % m)
    b = eng.ev(st, f.value)
    if b.ty.kind == "opt":
        eng.oblige(st, z3.Not(ois_none(b)), "safety: value is not None", n)
        b = oval(b)
    if b.ty.kind == "dict" and m == "get":
        r = dget(b, eng.coerce(eng.ev(st, n.args[0]), b.ty.args[0]).z)
        if len(n.args) < 2:
            return r
        return V(r.ty.elem, z3.If(ois_none(r), eng.coerce(eng.ev(st, n.args[1]), r.ty.elem).z, oval(r).z))
    if b.ty.kind == "list":
        if m in ("copy", "tolist", "astype", "flatten"):
            return V(b.ty, b.z)
        if m == "index":
            x = eng.coerce(eng.ev(st, n.args[0]), b.ty.elem)
            i = z3.Int("ix!%d" % next(eng.cnt))
            j = z3.Int("iy!%d" % next(eng.cnt))
            for ms in eng.measures.get(b.ty, []):      # a list of positive measure has an element of positive measure
                if ms.nonneg:
                    w = z3.Int("iw!%d" % next(eng.cnt))
                    eng.fact(st, z3.Implies(ms.mu(b.z) > 0, z3.And(w >= 0, w < llen(b), ms.f(lget(b, w)) > 0)))
            eng.oblige(st, eng.member(st, x, b, n), "safety: element searched by index() is in the list", n)
            eng.fact(st, z3.And(i >= 0, i < llen(b), larr(b)[i] == x.z, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), larr(b)[j] != x.z))))
            eng.note_read(b, i)
            return V(INT, i)
        if m in ("size", "__len__"):
            return V(INT, llen(b))
        if m == "count":
            raise Unsupported("count")
        if m == "mean":
            return np_mean(eng, st, b, n, kwargs)
        if m == "max":
            return b_minmax(eng, st, [b], "max", n)
        if m == "min":
            return b_minmax(eng, st, [b], "min", n)
        if m in ("sum",):
            return b_sum_v(eng, st, b, n)
        if m == "item":
            t = eng.ev(st, n.args[0])
            if t.ty.kind == "tuple":
                i, j = tget(t, 0).z, tget(t, 1).z
                eng.oblige(st, z3.And(i >= 0, i < llen(b)), "safety: index in range", n)
                return lget(lget(b, i), j)
        raise Unsupported("list method %s (line %s)" % (m, getattr(n, "lineno", "?")))
    if b.ty.kind == "ref":
        c = eng.registry.find(eng.unit, b.ty.name, m)
        if c is not None:
            return contract_call_recv(eng, st, c, b, n, kwargs)
        if CLASSES[b.ty.name].get("@" + m):     # trivial accessor method
            return eng.get_field(st, b, m, n)
    if b.ty.kind == "rec":
        return rget(b, m)
    raise Unsupported("method %s of %r (line %s)" % (m, b.ty, getattr(n, "lineno", "?")))


def contract_call_recv(eng, st, c, recv, n, kwargs):
    # receiver passed as first parameter named 'this_'
    eng.oblige(st, recv.z != null(recv.ty).z, "safety: reference is not None", n)
    tmp = "recv@%d" % next(eng.cnt)
    st.env[tmp] = recv
    nodes = [ast.copy_location(ast.Name(tmp, ast.Load()), n)] + list(n.args)
    r = contract_call(eng, st, c, nodes, kwargs, n)
    st.env.pop(tmp, None)
    return r


def unalias(eng, st, p):
    """positions shift: aliases into the container keep their objects as values"""
    if p[0] == "heap":
        return
    for k, a in list(st.env.items()):
        if isinstance(a, Alias) and a.root == p[0] and len(a.path) > len(p[1]):
            st.env[k] = eng.read(st, a.root, a.path)


def note_share(eng, st, p, ln, arg):
    if isinstance(arg, ast.Name):
        cur = st.env.get(arg.id)
        if isinstance(cur, V) and not eng.is_param(arg.id):
            st.env[arg.id] = Alias(p[0], tuple(p[1]) + (("idx", ln),))
            return
    depth = sum(1 for k, _ in p[1] if k == "idx") + 1
    st.shared.add((p[0], depth - 1 + 0) if False else (p[0], depth))
    q = eng.place(st, arg)
    if q is not None:
        st.shared.add((q[0], sum(1 for k, _ in q[1] if k == "idx")))


def set_method(eng, st, n, m, p, l):
    if m == "add":
        x = eng.coerce(eng.ev(st, n.args[0]), l.ty.elem)
        r = V(l.ty, z3.Store(l.z, x.z, z3.BoolVal(True)))
        eng.facts.append(eng.uf("card", [r], INT).z == eng.uf("card", [l], INT).z + z3.If(z3.Select(l.z, x.z), 0, 1))
        wr(eng, st, p, r, n)
        return NONEV()
    if m in ("remove", "discard"):
        x = eng.coerce(eng.ev(st, n.args[0]), l.ty.elem)
        if m == "remove":
            eng.oblige(st, z3.Select(l.z, x.z), "safety: removed element is in the set", n)
        r = V(l.ty, z3.Store(l.z, x.z, z3.BoolVal(False)))
        eng.facts.append(eng.uf("card", [r], INT).z == eng.uf("card", [l], INT).z - z3.If(z3.Select(l.z, x.z), 1, 0))
        wr(eng, st, p, r, n)
        return NONEV()
    if m == "pop":
        x = some_element(eng, st, l, "safety: pop from an empty set", n)
        r = V(l.ty, z3.Store(l.z, x.z, z3.BoolVal(False)))
        eng.facts.append(eng.uf("card", [r], INT).z == eng.uf("card", [l], INT).z - z3.If(z3.Select(l.z, x.z), 1, 0))
        wr(eng, st, p, r, n)
        return x
    raise Unsupported("set method " + m)


def some_element(eng, st, l, what, n):
    x = eng.fresh(l.ty.elem, "setpop")
    y = z3.Const("sp!%d" % next(eng.cnt), sort(l.ty.elem))
    # a finite set has an element exactly if its number of elements is positive
    eng.oblige(st, z3.Or(eng.uf("card", [l], INT).z > 0, z3.Exists([y], z3.Select(l.z, y))), what, n)
    eng.fact(st, z3.Select(l.z, x.z))
    return x


def b_next(eng, st, n, kw):
    a = n.args[0]
    if len(n.args) == 1 and isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "iter" and len(a.args) == 1:
        v = eng.ev(st, a.args[0])
        if v.ty.kind == "set":
            return some_element(eng, st, v, "safety: next of an empty set", n)
    raise Unsupported("next")


def permutation_facts(eng, l, r):
    eng.facts.append(llen(r) == llen(l))
    i = z3.Int("pm!%d" % next(eng.cnt))
    j = z3.Int("pn!%d" % next(eng.cnt))
    perm = z3.Function("perm!%d" % next(eng.cnt), z3.IntSort(), z3.IntSort())
    inv = z3.Function("pinv!%d" % next(eng.cnt), z3.IntSort(), z3.IntSort())
    # a permutation: every element of r is an element of l and conversely
    eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(r)), z3.And(perm(i) >= 0, perm(i) < llen(l), larr(r)[i] == larr(l)[perm(i)], inv(perm(i)) == i)), patterns=[larr(r)[i]]))
    eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(l)), z3.And(inv(i) >= 0, inv(i) < llen(r), perm(inv(i)) == i)), patterns=[inv(i)]))
    for m in eng.measures.get(l.ty, []):
        eng.facts.append(m.mu(r.z) == m.mu(l.z))


def sorted_facts(eng, r):
    i = z3.Int("so!%d" % next(eng.cnt))
    j = z3.Int("sp!%d" % next(eng.cnt))
    eng.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < llen(r)), larr(r)[i] <= larr(r)[j]),
                               patterns=[z3.MultiPattern(larr(r)[i], larr(r)[j])]))


def filled(eng, st, k, x):
    ty = TList(x.ty)
    r = eng.fresh(ty, "filled")
    eng.oblige(st, k.z >= 0, "safety: size not negative")
    eng.facts.append(z3.Implies(k.z >= 0, llen(r) == k.z))
    eng.facts.append(larr(r) == z3.K(z3.IntSort(), x.z))
    for m in eng.measures.get(ty, []):
        eng.facts.append(z3.Implies(m.f(x) == m.zero, m.mu(r.z) == m.zero))
        eng.facts.append(z3.Implies(k.z >= 0, m.mu(r.z) == (z3.ToReal(k.z) if m.real else k.z) * m.f(x)))
    return r


# ---------------------------------------------------------------------- builtins
def b_len(eng, st, n, kw):
    v = eng.ev(st, n.args[0])
    if v.ty.kind == "opt":
        eng.oblige(st, z3.Not(ois_none(v)), "safety: value is not None", n)
        v = oval(v)
    if v.ty.kind == "tuple":
        return V(INT, z3.IntVal(len(v.ty.args)))
    if v.ty.kind == "set":
        c = eng.uf("card", [v], INT)
        x = z3.Const("ce!%d" % next(eng.cnt), sort(v.ty.elem))
        if not eng.bound_depth:
            pats = [z3.Select(v.z, x)] if z3.is_const(v.z) else []
            w = z3.Const("cw!%d" % next(eng.cnt), sort(v.ty.elem))
            eng.facts.append(z3.Implies(c.z > 0, z3.Select(v.z, w)))
            eng.facts.append(z3.And(c.z >= 0, z3.Implies(c.z == 0, z3.ForAll([x], z3.Not(z3.Select(v.z, x)), patterns=pats))))
        return c
    if v.ty.kind == "ref" and CLASSES[v.ty.name].get("@len"):
        return eng.get_field(st, v, CLASSES[v.ty.name]["@len"], n)
    if v.ty.kind != "list":
        raise Unsupported("len of %r" % v.ty)
    if v.z is None:
        return V(INT, z3.IntVal(0))
    if not eng.bound_depth:
        eng.note(v)
    return V(INT, llen(v))


def b_minmax(eng, st, args, which, n, key=None, default=None):
    if len(args) == 1 and args[0].ty.kind == "list":
        l = args[0]
        if key is not None:
            raise Unsupported("min/max with key")
        if default is None:
            eng.oblige(st, llen(l) > 0, "safety: %s of an empty list" % which, n)
        r = eng.fresh(l.ty.elem, which)
        i, j = z3.Int("x!%d" % next(eng.cnt)), z3.Int("w!%d" % next(eng.cnt))
        c = (larr(l)[i] <= r.z) if which == "max" else (larr(l)[i] >= r.z)
        eng.fact(st, z3.Implies(llen(l) > 0, z3.And(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(l)), c), patterns=[larr(l)[i]]), j >= 0, j < llen(l), larr(l)[j] == r.z)))
        if default is not None:
            eng.fact(st, z3.Implies(llen(l) == 0, r.z == eng.coerce(eng.ev(st, default), l.ty.elem).z))
        return r
    args = [eng.number(st, x, n) for x in args]
    r = args[0]
    for x in args[1:]:
        ty = eng.join_ty(r.ty, x.ty)
        a, b = eng.coerce(r, ty), eng.coerce(x, ty)
        r = V(ty, z3.If(b.z > a.z, b.z, a.z) if which == "max" else z3.If(b.z < a.z, b.z, a.z))
    return r


def b_max(eng, st, n, kw):
    return b_minmax(eng, st, [eng.ev(st, a) for a in n.args], "max", n, kw.get("key"), kw.get("default"))


def b_min(eng, st, n, kw):
    return b_minmax(eng, st, [eng.ev(st, a) for a in n.args], "min", n, kw.get("key"), kw.get("default"))


def b_abs(eng, st, n, kw):
    a = n.args[0]
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mult) and isinstance(a.left, ast.Constant) and isinstance(a.left.value, complex):
        c = eng.ev(st, a.right)           # |z x| = |z| |x| for a complex constant z with an exact modulus
        m = abs(a.left.value)
        if c.ty.kind in ("int", "real") and m == int(m):
            c = eng.coerce(c, REAL)
            return V(REAL, z3.If(c.z < 0, -c.z, c.z) * int(m))
    v = eng.ev(st, a)
    if v.ty.kind == "list":
        i = z3.Int("ab!%d" % next(eng.cnt))
        r = eng.fresh(v.ty, "abs")
        eng.facts.append(llen(r) == llen(v))
        eng.facts.append(z3.ForAll([i], larr(r)[i] == z3.If(larr(v)[i] < 0, -larr(v)[i], larr(v)[i]), patterns=[larr(r)[i]]))
        return r
    return V(v.ty, z3.If(v.z < 0, -v.z, v.z))


def sum_induction(eng, st, l, m, extra=None):
    """closed forms E(_k) of the sum of the first _k elements: E(0) = 0 and E(_k + 1) = E(_k) + l[_k] are proved, E(len) is then the sum"""
    from .solve import prove
    for e in eng.unit.sum_as:
        n0 = len(eng.facts)

        def E(k):
            return eng.coerce(eng.spec(st, e, dict(extra or {}, _k=V(INT, k), _s=l)), l.ty.elem).z
        try:
            k = z3.Int("sk!%d" % next(eng.cnt))
            ln = llen(l)
            goal = z3.And(E(z3.IntVal(0)) == m.zero, z3.Implies(z3.And(k >= 0, k < ln), E(k + 1) == E(k) + larr(l)[k]))
            end = E(ln)
        except Unsupported:
            del eng.facts[n0:]
            continue
        if prove(eng, len(eng.facts), st.pc, goal):
            return end
        del eng.facts[n0:]
    return None


def ew_map(eng, v, f, ety=None):
    """elementwise function of a vector or a matrix"""
    if v.ty.kind != "list":
        return V(ety or v.ty, f(v.z))
    i = z3.Int("em!%d" % next(eng.cnt))
    if v.ty.elem.kind == "list":
        j = z3.Int("en!%d" % next(eng.cnt))
        r = eng.fresh(TList(TList(ety or v.ty.elem.elem)), "map")
        row = lget(r, i)
        eng.facts.append(llen(r) == llen(v))
        eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(v)), llen(row) == llen(lget(v, i))), patterns=[larr(r)[i]]))
        eng.facts.append(z3.ForAll([i, j], larr(row)[j] == f(larr(lget(v, i))[j]), patterns=[larr(row)[j]]))
        return r
    r = eng.fresh(TList(ety or v.ty.elem), "map")
    eng.facts.append(llen(r) == llen(v))
    eng.facts.append(z3.ForAll([i], larr(r)[i] == f(larr(v)[i]), patterns=[larr(r)[i]]))
    return r


def ew_map2(eng, st, a, b, f, ety, n):
    """elementwise function of two arrays of the same shape, or of a matrix and a vector (broadcast over the rows)"""
    i, j = z3.Int("em!%d" % next(eng.cnt)), z3.Int("en!%d" % next(eng.cnt))
    if a.ty.elem.kind == "list":
        r = eng.fresh(TList(TList(ety)), "map2")
        row = lget(r, i)
        bb = (lambda i, j: larr(lget(b, i))[j]) if b.ty.elem.kind == "list" else (lambda i, j: larr(b)[j])
        if b.ty.elem.kind == "list":
            eng.oblige(st, z3.And(llen(a) == llen(b), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(a)), llen(lget(a, i)) == llen(lget(b, i))))), "safety: matrices of equal shape", n)
        else:
            eng.oblige(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(a)), llen(lget(a, i)) == llen(b))), "safety: rows as long as the vector", n)
        eng.facts.append(llen(r) == llen(a))
        eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(a)), llen(row) == llen(lget(a, i))), patterns=[larr(r)[i]]))
        eng.facts.append(z3.ForAll([i, j], larr(row)[j] == f(larr(lget(a, i))[j], bb(i, j)), patterns=[larr(row)[j]]))
        return r
    eng.oblige(st, llen(a) == llen(b), "safety: vectors of equal length", n)
    r = eng.fresh(TList(ety), "map2")
    eng.facts.append(llen(r) == llen(a))
    eng.facts.append(z3.ForAll([i], larr(r)[i] == f(larr(a)[i], larr(b)[i]), patterns=[larr(r)[i]]))
    return r


OREAL = TOpt(REAL)


def np_divide(eng, st, n, kw):
    """quotients; None stands for what is not finite (division by zero)"""
    eng.trusted_used.add("numpy.divide")
    a, b = eng.ev(st, n.args[0]), eng.ev(st, n.args[1])
    return ew_map2(eng, st, a, b, lambda x, y: z3.If(y == 0, onone(OREAL).z, osome(OREAL, V(REAL, z3.Function("quotient", z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y))).z), OREAL, n)


def np_nan_to_num(eng, st, n, kw):
    eng.trusted_used.add("numpy.nan_to_num (of a quotient 0/0)")
    v = eng.ev(st, n.args[0])
    return ew_map(eng, v, lambda x: z3.If(ois_none(V(OREAL, x)), z3.RealVal(0), oval(V(OREAL, x)).z), REAL)


def np_where(eng, st, n, kw):
    """numpy.where(vector != 0, array, 0.0)"""
    c = n.args[0]
    if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.NotEq, ast.Eq)) and isinstance(c.comparators[0], ast.Constant)):
        raise Unsupported("numpy.where")
    eng.trusted_used.add("numpy.where")
    v = eng.ev(st, c.left)
    x = z3.RealVal(repr(float(c.comparators[0].value)))
    p, q = eng.ev(st, n.args[1]), eng.ev(st, n.args[2])
    if isinstance(c.ops[0], ast.Eq):
        p, q = q, p
    if p.ty.kind != "list" or q.ty.kind == "list":
        raise Unsupported("numpy.where")
    ety = p.ty.elem.elem if p.ty.elem.kind == "list" else p.ty.elem
    qv = eng.coerce(q, REAL)
    qv = osome(OREAL, qv) if ety == OREAL else qv
    return ew_map2(eng, st, p, v, lambda a, b: z3.If(b != x, a, qv.z), ety, n)


def np_ew(f):
    def g(eng, st, n, kw):
        eng.trusted_used.add(ast.unparse(n.func))
        return ew_map(eng, eng.ev(st, n.args[0]), f)
    return g


def np_power(eng, st, n, kw):
    eng.trusted_used.add("numpy.power")
    a, b = eng.ev(st, n.args[0]), eng.ev(st, n.args[1])
    if a.ty.kind != "list":
        return eng.pow(st, a, b, n)
    def f(x):
        eng.bound_depth += 1
        try:
            return eng.pow(st, V(REAL, x), b, n).z
        finally:
            eng.bound_depth -= 1
    return ew_map(eng, a, f)


def np_sqrt(eng, st, n, kw):
    eng.trusted_used.add("numpy.sqrt")
    v = eng.ev(st, n.args[0])
    if v.ty.kind != "list":
        return eng.sqrt(st, eng.coerce(v, REAL), n)
    i = z3.Int("qs!%d" % next(eng.cnt))
    eng.oblige(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(v)), larr(v)[i] >= 0)), "safety: square root of negative numbers", n)
    r = ew_map(eng, v, lambda x: eng.uf("sqrt", [V(REAL, x)], REAL).z)
    eng.facts.append(z3.ForAll([i], z3.Implies(larr(v)[i] >= 0, z3.And(larr(r)[i] >= 0, larr(r)[i] * larr(r)[i] == larr(v)[i])), patterns=[larr(r)[i]]))
    return r


def b_sum_v(eng, st, l, n):
    for m in eng.measures.get(l.ty, []):
        if m.name == "sum":
            if eng.unit.sum_as and not eng.bound_depth:
                e = sum_induction(eng, st, l, m)
                if e is not None:
                    eng.facts.append(m.mu(l.z) == e)
            return V(l.ty.elem, m.mu(l.z))
    return eng.uf("sumof", [l], l.ty.elem)


def b_sum(eng, st, n, kw):
    return b_sum_v(eng, st, eng.ev(st, n.args[0]), n)


def b_range(eng, st, n, kw):
    a = [eng.ev(st, x) for x in n.args]
    lo, hi = (z3.IntVal(0), a[0].z) if len(a) == 1 else (a[0].z, a[1].z)
    if len(a) == 3:
        raise Unsupported("range with step as a value")
    r = eng.fresh(TList(INT), "range")
    i = z3.Int("rg!%d" % next(eng.cnt))
    ln = z3.If(hi > lo, hi - lo, 0)
    eng.facts.append(llen(r) == ln)
    eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(r)), larr(r)[i] == i + lo), patterns=[larr(r)[i]]))
    range_measure(eng, r, lo, ln)
    return r


def range_measure(eng, r, lo, ln):
    for m in eng.measures.get(r.ty, []):
        if m.name.startswith("cnt"):
            g = eng.ghost[eng.unit.count_ghost(m.name)]
            eng.facts.append(m.mu(r.z) == z3.If(z3.And(g.z >= lo, g.z < lo + ln), 1, 0))


def b_list(eng, st, n, kw):
    if not n.args:
        return V(TList(UNK), None)
    v = eng.ev(st, n.args[0])
    if v.ty.kind == "list":
        return v
    if v.ty.kind == "set":
        return set_to_list(eng, v)
    raise Unsupported("list(%r)" % v.ty)


def set_to_list(eng, v):
    r = eng.fresh(TList(v.ty.elem), "setlist")
    i = z3.Int("sl!%d" % next(eng.cnt))
    x = z3.Const("sx!%d" % next(eng.cnt), sort(v.ty.elem))
    w = z3.Function("at!%d" % next(eng.cnt), sort(v.ty.elem), z3.IntSort())
    if v.ty.elem.kind == "int":
        # a position for every integer, outside the list for those that are not elements (there is room for all of them)
        eng.facts.append(z3.ForAll([x], z3.And(larr(r)[w(x)] == x, z3.Select(v.z, x) == z3.And(w(x) >= 0, w(x) < llen(r))), patterns=[z3.Select(v.z, x)]))
    else:
        eng.facts.append(z3.ForAll([x], z3.Implies(z3.Select(v.z, x), z3.And(w(x) >= 0, w(x) < llen(r), larr(r)[w(x)] == x)), patterns=[z3.Select(v.z, x)]))
    eng.facts.append(llen(r) == eng.uf("card", [v], INT).z)
    # every element once: its position is determined by its value
    eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(r)), z3.And(z3.Select(v.z, larr(r)[i]), w(larr(r)[i]) == i)), patterns=[larr(r)[i]]))
    for m in eng.measures.get(r.ty, []):
        if m.name.startswith("cnt"):
            g = eng.ghost[eng.unit.count_ghost(m.name)]
            if g.ty == v.ty.elem:
                eng.facts.append(m.mu(r.z) == z3.If(z3.Select(v.z, g.z), 1, 0))
    return r


def b_dict(eng, st, n, kw):
    if n.args or kw:
        raise Unsupported("dict of arguments")
    return V(Ty("dict", (UNK, UNK)), None)


def b_set(eng, st, n, kw):
    if not n.args:
        h = eng.unit.default_set
        if h is None:
            raise Unsupported("cannot type an empty set")
        return V(TSet(parse_ty(h)), z3.K(sort(parse_ty(h)), z3.BoolVal(False)))
    a = n.args[0]
    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "range" and 1 <= len(a.args) <= 2:
        lo = eng.ev(st, a.args[0]).z if len(a.args) == 2 else z3.IntVal(0)
        hi = eng.ev(st, a.args[-1]).z
        r = eng.fresh(TSet(INT), "set")
        x = z3.Int("sr!%d" % next(eng.cnt))
        eng.facts.append(z3.ForAll([x], z3.Select(r.z, x) == z3.And(x >= lo, x < hi), patterns=[z3.Select(r.z, x)]))
        eng.facts.append(eng.uf("card", [r], INT).z == z3.If(hi > lo, hi - lo, 0))
        return r
    v = eng.ev(st, a)
    if v.ty.kind == "set":
        return v
    if v.ty.kind == "list":
        r = eng.fresh(TSet(v.ty.elem), "set")
        x = z3.Const("se!%d" % next(eng.cnt), sort(v.ty.elem))
        i = z3.Int("sf!%d" % next(eng.cnt))
        w = z3.Function("widx!%d" % next(eng.cnt), sort(v.ty.elem), z3.IntSort())
        eng.facts.append(z3.ForAll([x], z3.Implies(z3.Select(r.z, x), z3.And(w(x) >= 0, w(x) < llen(v), larr(v)[w(x)] == x)), patterns=[z3.Select(r.z, x)]))
        eng.facts.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(v)), z3.Select(r.z, larr(v)[i])), patterns=[larr(v)[i]]))
        for m in eng.measures.get(v.ty, []):
            if m.name.startswith("cnt"):
                g = eng.ghost[eng.unit.count_ghost(m.name)]
                if g.ty == v.ty.elem:
                    eng.facts.append(z3.Select(r.z, g.z) == (m.mu(v.z) > 0))
        return r
    raise Unsupported("set(%r)" % v.ty)


def b_int(eng, st, n, kw):
    v = eng.ev(st, n.args[0])
    if v.ty.kind == "int":
        return v
    if v.ty.kind == "bool":
        return eng.coerce(v, INT)
    return V(INT, z3.If(v.z >= 0, z3.ToInt(v.z), -z3.ToInt(-v.z)))


def b_float(eng, st, n, kw):
    a = n.args[0]
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        s = a.value.lower()
        if s in ("inf", "+inf", "infinity"):
            return V(REAL, eng.INF)
        if s == "-inf":
            return V(REAL, -eng.INF)
        if s == "nan":
            if eng.unit.consts.get("nan") == "none":       # the unit models not-a-number as an absent value
                return V(NONE, z3.BoolVal(False))
            return V(REAL, z3.Real("NAN"))
        return V(REAL, z3.RealVal(a.value))
    return eng.coerce(eng.ev(st, a), REAL)


def b_sorted(eng, st, n, kw):
    l = eng.ev(st, n.args[0])
    r = eng.fresh(l.ty, "sorted")
    permutation_facts(eng, l, r)
    key, rev = kw.get("key"), kw.get("reverse")
    if rev is None:
        i = z3.Int("so!%d" % next(eng.cnt))
        j = z3.Int("sp!%d" % next(eng.cnt))
        if key is None:
            if l.ty.elem.kind in ("int", "real"):
                sorted_facts(eng, r)
        elif isinstance(key, ast.Lambda):
            def kv(ix):
                s = st.copy()
                s.env[key.args.args[0].arg] = lget(r, ix)
                eng.spec_depth += 1
                eng.bound_depth += 1
                try:
                    return eng.ev(s, key.body)
                finally:
                    eng.spec_depth -= 1
                    eng.bound_depth -= 1
            a, b = kv(i), kv(j)
            if a.ty.kind in ("int", "real"):
                eng.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < llen(r)), a.z <= b.z),
                                           patterns=[z3.MultiPattern(larr(r)[i], larr(r)[j])]))
    return r


def b_bool(eng, st, n, kw):
    return V(BOOL, eng.truth(st, eng.ev(st, n.args[0])))


def b_isinstance(eng, st, n, kw):
    d = ast.unparse(n)
    if d in eng.unit.consts:
        return eng.const_val(eng.unit.consts[d])
    v = eng.ev(st, n.args[0])
    t = eng.dotted(n.args[1])
    if v.ty.kind == "list" and t == "list":
        return V(BOOL, z3.BoolVal(True))
    raise Unsupported("isinstance")


def b_enumerate(eng, st, n, kw):
    raise Unsupported("enumerate outside a for loop")


def b_round(eng, st, n, kw):
    raise Unsupported("round")


def b_all_any(which):
    def f(eng, st, n, kw):
        l = eng.ev(st, n.args[0])
        i = z3.Int("aa!%d" % next(eng.cnt))
        inb = z3.And(i >= 0, i < llen(l))
        t = eng.truth(st, lget(l, i))
        return V(BOOL, z3.ForAll([i], z3.Implies(inb, t)) if which == "all" else z3.Exists([i], z3.And(inb, t)))
    return f


def b_str(eng, st, n, kw):
    return V(STR, z3.IntVal(-1))


def b_pow(eng, st, n, kw):
    return eng.pow(st, eng.ev(st, n.args[0]), eng.ev(st, n.args[1]), n)


BUILTINS = {"next": b_next, "dict": b_dict, "len": b_len, "max": b_max, "min": b_min, "abs": b_abs, "sum": b_sum, "range": b_range, "list": b_list, "set": b_set,
            "int": b_int, "float": b_float, "sorted": b_sorted, "bool": b_bool, "isinstance": b_isinstance,
            "enumerate": b_enumerate, "all": b_all_any("all"), "any": b_all_any("any"), "str": b_str, "pow": b_pow, "round": b_round}


# ---------------------------------------------------------------------- numpy and math (trusted contracts)
def np_array(eng, st, n, kw):
    v = eng.ev(st, n.args[0])
    eng.trusted_used.add("numpy.array (identity on values)")
    return v


def np_zeros(eng, st, n, kw):
    v = eng.ev(st, n.args[0])
    eng.trusted_used.add("numpy.zeros")
    if v.ty.kind == "int":
        return filled(eng, st, v, V(REAL, z3.RealVal(0)))
    if v.ty.kind == "tuple" and len(v.ty.args) == 1:
        return filled(eng, st, tget(v, 0), V(REAL, z3.RealVal(0)))
    if v.ty.kind == "tuple" and len(v.ty.args) == 2:
        row = filled(eng, st, tget(v, 1), V(REAL, z3.RealVal(0)))
        return filled(eng, st, tget(v, 0), row)
    raise Unsupported("numpy.zeros")


def np_argmin(which):
    def f(eng, st, n, kw):
        eng.trusted_used.add("numpy.arg%s" % which)
        d = eng.ev(st, n.args[0])
        ax = kw.get("axis")
        ax = ax.value if isinstance(ax, ast.Constant) else (n.args[1].value if len(n.args) > 1 else None)
        i, j = z3.Int("ai!%d" % next(eng.cnt)), z3.Int("aj!%d" % next(eng.cnt))
        cmp_ = (lambda x, y: x <= y) if which == "min" else (lambda x, y: x >= y)
        if d.ty.elem.kind != "list":
            eng.oblige(st, llen(d) > 0, "safety: arg%s of an empty vector" % which, n)
            r = z3.Int("arg!%d" % next(eng.cnt))
            eng.fact(st, z3.And(r >= 0, r < llen(d), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(d)), cmp_(larr(d)[r], larr(d)[i])), patterns=[larr(d)[i]]),
                                z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), larr(d)[r] != larr(d)[i]), patterns=[larr(d)[i]])))
            return V(INT, r)
        r = eng.fresh(TList(INT), "arg")
        if ax == 0:
            eng.oblige(st, llen(d) > 0, "safety: arg%s of an empty matrix" % which, n)
        at = lambda a, b: larr(lget(d, a))[b]
        if ax == 0:
            ncol = llen(lget(d, z3.IntVal(0)))
            eng.fact(st, llen(r) == ncol)
            eng.fact(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ncol), z3.And(larr(r)[j] >= 0, larr(r)[j] < llen(d))), patterns=[larr(r)[j]]))
            eng.fact(st, z3.ForAll([i, j], z3.Implies(z3.And(j >= 0, j < ncol, i >= 0, i < llen(d)), cmp_(at(larr(r)[j], j), at(i, j))), patterns=[at(i, j)]))
            return r
        if ax == 1:
            eng.fact(st, llen(r) == llen(d))
            eng.oblige(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(d)), llen(lget(d, i)) > 0)), "safety: arg%s along an empty axis" % which, n)
            eng.fact(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < llen(d)), z3.And(larr(r)[i] >= 0, larr(r)[i] < llen(lget(d, i)))), patterns=[larr(r)[i]]))
            eng.fact(st, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < llen(d), j >= 0, j < llen(lget(d, i))), cmp_(at(i, larr(r)[i]), at(i, j))), patterns=[at(i, j)]))
            return r
        raise Unsupported("argmin axis")
    return f


def np_sum(eng, st, n, kw):
    eng.trusted_used.add("numpy.sum")
    v = eng.ev(st, n.args[0])
    if v.ty.elem.kind == "list" and isinstance(kw.get("axis"), ast.Constant) and kw["axis"].value == 1:
        r = eng.fresh(v.ty.elem, "rowsum")
        eng.facts.append(llen(r) == llen(v))
        i = z3.Int("rs!%d" % next(eng.cnt))
        inb = z3.And(i >= 0, i < llen(v))
        for m in eng.measures.get(v.ty.elem, []):
            if m.name == "sum" and eng.unit.sum_as:
                s2 = st.copy()
                s2.pc = conj(s2.pc, inb)
                eng.bound_vars.append(i)
                try:
                    e = sum_induction(eng, s2, lget(v, i), m, {"_r": V(INT, i)})
                finally:
                    eng.bound_vars.pop()
                if e is not None:
                    eng.facts.append(z3.ForAll([i], z3.Implies(inb, larr(r)[i] == e), patterns=[larr(r)[i]]))
                    return r
        raise Unsupported("numpy.sum along the rows without closed form")
    if kw or v.ty.elem.kind == "list":
        raise Unsupported("numpy.sum with axis")
    return b_sum_v(eng, st, v, n)


def np_max(which):
    def f(eng, st, n, kw):
        eng.trusted_used.add("numpy." + which)
        v = eng.ev(st, n.args[0])
        if kw or v.ty.elem.kind == "list":
            raise Unsupported("numpy.max with axis")
        return b_minmax(eng, st, [v], which, n)
    return f


def np_mean(eng, st, b, n, kw):
    ax = kw.get("axis")
    if b.ty.elem.kind == "list" and isinstance(ax, ast.Constant) and ax.value == 0:
        eng.trusted_used.add("numpy.mean(axis=0)")
        eng.oblige(st, llen(b) > 0, "safety: mean of no points", n)
        r = eng.uf("mean_of_points", [b], TList(REAL))
        eng.note(r)
        rect = z3.Int("mn!%d" % next(eng.cnt))
        w = llen(lget(b, z3.IntVal(0)))
        eng.oblige(st, z3.ForAll([rect], z3.Implies(z3.And(rect >= 0, rect < llen(b)), llen(lget(b, rect)) == w)), "safety: mean of a rectangular array", n)
        eng.facts.append(z3.Implies(llen(b) > 0, llen(r) == w))
        for m in eng.measures.get(b.ty, []):
            if m.name == "colsum":       # sum of the coordinate q (ghost) of the rows
                q = eng.ghost["q"].z
                eng.facts.append(z3.Implies(z3.And(llen(b) > 0, q >= 0, q < w), larr(r)[q] * z3.ToReal(llen(b)) == m.mu(b.z)))
        return r
    raise Unsupported("numpy.mean")


def m_sqrt(eng, st, n, kw):
    v = eng.ev(st, n.args[0])
    return eng.sqrt(st, eng.coerce(v, REAL), n)


def m_floor(eng, st, n, kw):
    v = eng.ev(st, n.args[0])
    if v.ty.kind == "int":
        return v
    return V(INT, z3.ToInt(v.z))


def m_ceil(eng, st, n, kw):
    v = eng.ev(st, n.args[0])
    if v.ty.kind == "int":
        return v
    return V(INT, -z3.ToInt(-v.z))


def m_isnan(eng, st, n, kw):
    v = eng.ev(st, n.args[0])
    if v.ty.kind in ("opt", "none"):
        return V(BOOL, ois_none(v) if v.ty.kind == "opt" else z3.BoolVal(True))
    if v.ty.kind == "int":
        return V(BOOL, z3.BoolVal(False))
    return V(BOOL, eng.coerce(v, REAL).z == z3.Real("NAN"))


def m_uf(name, facts=()):
    def f(eng, st, n, kw):
        v = eng.coerce(eng.ev(st, n.args[0]), REAL)
        r = eng.uf(name, [v], REAL)
        if not eng.bound_depth:
            for g in facts:
                eng.facts.append(g(v.z, r.z))
        return r
    return f


NUMPY = {"numpy.array": np_array, "numpy.asarray": np_array, "copy.copy": np_array, "copy.deepcopy": np_array, "numpy.zeros": np_zeros,
         "numpy.argmin": np_argmin("min"), "numpy.argmax": np_argmin("max"), "numpy.sum": np_sum, "numpy.max": np_max("max"),
         "numpy.min": np_max("min"), "numpy.abs": np_ew(lambda x: z3.If(x < 0, -x, x)), "numpy.absolute": np_ew(lambda x: z3.If(x < 0, -x, x)),
         "numpy.square": np_ew(lambda x: x * x), "numpy.power": np_power, "numpy.divide": np_divide, "numpy.nan_to_num": np_nan_to_num, "numpy.where": np_where, "math.sqrt": m_sqrt, "math.floor": m_floor, "math.ceil": m_ceil,
         "math.isnan": m_isnan, "numpy.isnan": m_isnan, "numpy.sqrt": np_sqrt, "math.fabs": b_abs,
         "math.sin": m_uf("sin", [lambda x, r: z3.And(r >= -1, r <= 1)]), "math.cos": m_uf("cos", [lambda x, r: z3.And(r >= -1, r <= 1)]),
         "math.exp": m_uf("exp", [lambda x, r: r > 0]), "math.log": m_uf("log"), "numpy.exp": m_uf("exp", [lambda x, r: r > 0])}


def sorted_by(eng, st, n):
    """std::sort with a comparator: a permutation in which no later element is smaller than an earlier one"""
    l = eng.ev(st, n.args[0])
    lam = n.args[1]
    r = eng.fresh(l.ty, "sortedby")
    permutation_facts(eng, l, r)
    i, j = z3.Int("sb!%d" % next(eng.cnt)), z3.Int("sc!%d" % next(eng.cnt))
    s = st.copy()
    s.env[lam.args.args[0].arg] = lget(r, j)
    s.env[lam.args.args[1].arg] = lget(r, i)
    eng.spec_depth += 1
    eng.bound_depth += 1
    try:
        less = eng.truth(s, eng.ev(s, lam.body))
    finally:
        eng.spec_depth -= 1
        eng.bound_depth -= 1
    eng.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < llen(r)), z3.Not(less)), patterns=[z3.MultiPattern(larr(r)[i], larr(r)[j])]))
    return r
