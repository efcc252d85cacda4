"""Verification of one function against its contract."""
import ast
import os
import time
import z3

from .types import *      # noqa
from .types import Unsupported, V
from .engine import Engine, State, Alias, conj
from . import solve
from .source import PySource


def body_of(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return b


def source_for(root, c):
    if c.lang == "py":
        return PySource(root, c.file, c.cls, c.bases)
    from .cppsource import CppSource
    return CppSource(root, c.file, c.cls, c.cpp)


def verify(root, c, registry, verbose=False):
    """-> dict with the obligations and their status."""
    t0 = time.time()
    res = {"unit": c.name, "file": c.file, "func": (c.cls + "." if c.cls else "") + c.func, "lang": c.lang, "obligations": [], "error": None,
           "trusted": [], "inlined": [], "wall": 0, "solver": 0.0}
    try:
        src = source_for(root, c)
        fn = src.target(c)
        eng = Engine(c, registry, src)
        run(eng, c, fn, src)
    except Unsupported as e:
        res["error"] = "not extractable: %s" % e
        res["wall"] = time.time() - t0
        return res
    except RecursionError as e:
        res["error"] = "not extractable: recursion limit"
        res["wall"] = time.time() - t0
        return res
    # discharge
    seen = {}
    st_time = eng.solver_time
    for o in eng.obs:
        timeout = (c.timeout or 90) * 1000
        s, be, model, dt = solve.discharge(eng.facts[:o.n], o.pc, o.goal, timeout=timeout)
        st_time += dt
        seen[o.name] = seen.get(o.name, 0) + 1
        nm_ = "%s: %s" % (c.name, o.name) + (" (line %d)" % o.line if o.line else "") + ("" if seen[o.name] == 1 else " #%d" % seen[o.name])
        d = {"name": nm_, "status": s, "backend": be, "time": round(dt, 3)}
        if model is not None:
            d["model"] = str(model)[:1500]
        if verbose and s != "proved":
            print("   ", s, nm_, "%.1fs" % dt)
        res["obligations"].append(d)
    res["trusted"] = sorted(x for x in eng.trusted_used if x)
    res["inlined"] = sorted(eng.inlined)
    res["kept"] = eng.kept
    res["houdini"] = eng.houdini_stats[0]
    res["solver"] = st_time
    res["vacuous"] = eng.vacuous
    if eng.vacuous:
        res["error"] = "vacuous: " + eng.vacuous
    res["wall"] = time.time() - t0
    return res


def run(eng, c, fn, src):
    st = State({}, {}, z3.BoolVal(True), set())
    eng.vacuous = None
    args = [a.arg for a in fn.args.args]
    if args and args[0] in ("self", "cls") and c.cls and not getattr(fn, "_static", False):
        args = args[1:]
    names = list(c.params)
    if names[:1] == ["this_"] and len(names) == len(args) + 1:
        args = ["self"] + args
    if len(names) > len(args):
        raise Unsupported("the function has %d parameters, the contract %d" % (len(args), len(names)))
    # contracts name parameters by position: a renamed parameter stays covered
    ren = {}
    for i, p in enumerate(args):
        if i < len(names):
            ty = parse_ty(c.params[names[i]])
            v = eng.fresh(ty, names[i]) if names[i] not in c.static else eng.const_val(c.static[names[i]])
            st.env[p] = v
            if p != names[i]:
                ren[names[i]] = p
                eng.param_alias[names[i]] = p
        else:
            d = fn.args.defaults[i - len(args)] if len(fn.args.defaults) >= len(args) - i else None
            if d is None:
                raise Unsupported("parameter %s has no declared type" % p)
            st.env[p] = eng.ev(st, d)
    if fn.args.vararg or fn.args.kwarg:
        pass
    for f, t in c.self_.items():
        st.env["self." + f] = eng.fresh(parse_ty(t), "self." + f)
    for n, t in c.locals.items():
        # a local not assigned yet reads as None, and using it then fails the obligation "value is not None"
        if parse_ty(t).kind == "opt" and n not in st.env:
            st.env[n] = onone(parse_ty(t))
    entry_scope = {n: st.env[ren.get(n, n)] for n in names}
    for r in c.requires:
        g = eng.spec_bool(st, r, entry_scope)
        eng.facts.append(g)
    for m, l in c.positive:
        v = eng.spec(st, l, entry_scope)
        for ms in eng.measures.get(v.ty, []):
            if ms.name == m and ms.nonneg:
                w = z3.Int("iw!%d" % next(eng.cnt))
                eng.facts.append(z3.Implies(ms.mu(v.z) > 0, z3.And(w >= 0, w < llen(v), ms.f(lget(v, w)) > 0)))
    eng.heap0 = dict(st.heap)
    eng.entry = st.copy()
    eng.entry.env.update(entry_scope)
    eng.frames.append({"ret": [], "raise": []})
    # vacuity: the precondition must be satisfiable
    s = solve.solver(4000, 4_000_000)
    s.add(*eng.facts)
    if solve.check(s)[0] == "unsat":
        eng.vacuous = "contradictory precondition"
    heap_entry = dict(st.heap)
    end = eng.block(st, body_of(fn))
    fr = eng.frames[0]
    rets = list(fr["ret"])
    if end is not None:
        rets.append((end, V(NONE, z3.BoolVal(False))))
    if not rets and not c.raises:
        eng.vacuous = "no reachable exit"
    for s2, v in rets:
        scope = {}
        for n in names:
            p = ren.get(n, n)
            scope[n] = eng.read_root(s2, p) if n in c.modifies and p in s2.env else entry_scope[n]
        if c.ret and c.ret != "none":
            v = eng.coerce(v, parse_ty(c.ret))
            scope["result"] = v
        for e in c.ensures:
            g = eng.spec_bool(s2, e, scope, eng.entry)
            eng.oblige(s2, g, "ensures %s" % " ".join(e.split()))
        # frame
        for f in c.self_:
            k = "self." + f
            if k in c.modifies or parse_ty(c.self_[f]).kind == "fun":
                continue
            now, was = eng.read_root(s2, k), eng.entry.env[k]
            if not (now.z is was.z or now.z.eq(was.z)):
                eng.oblige(s2, same(eng, now, was), "frame: %s unchanged" % k)
        for n in names:
            if n in c.modifies or (c.lang == "cpp" and not c.params[n].startswith("list")):
                continue
            p = ren.get(n, n)
            if parse_ty(c.params[n]).kind not in ("list", "rec", "set"):
                continue
            key = "$orig:" + p
            if p in eng.param_rebound(fn):
                continue
            if p in s2.env:
                now, was = eng.read_root(s2, p), entry_scope[n]
                if not now.z.eq(was.z):
                    eng.oblige(s2, same(eng, now, was), "frame: argument %s unchanged" % n)
        for hk, hm in s2.heap.items():
            if hk not in c.modifies and not any(hk.endswith(m[1:]) for m in c.modifies if m.startswith("*")):
                h0 = z3.Const("heap0_" + hk, hm.sort())
                if not hm.eq(h0):
                    eng.oblige(s2, hm == h0, "frame: field %s unchanged" % hk)
    for s2, node in fr["raise"]:
        if c.raises == "any":
            continue
        if c.raises:
            g = eng.spec_bool(eng.entry, c.raises)
        else:
            g = z3.BoolVal(False)
        eng.oblige(s2, g, "raises only if %s" % (c.raises or "never"), node)
    if c.raises and c.raises != "any":
        # on normal exit the raise condition is false
        g = eng.spec_bool(eng.entry, c.raises)
        for s2, v in rets:
            eng.oblige(s2, z3.Not(g), "raises whenever %s" % c.raises)
    if rets:
        s = solve.solver(4000, 4_000_000)
        s.add(*eng.facts)
        s.add(z3.Or(*[r[0].pc for r in rets]))
        if solve.check(s)[0] == "unsat":
            eng.vacuous = "no exit is reachable"
    for clause in c.steps:
        if clause not in eng.steps_seen:
            eng.vacuous = "iteration condition never met: " + clause
    if not eng.obs:
        eng.vacuous = "no obligations"


def same(eng, a, b):
    if a.ty.kind == "list":
        return a.z == b.z
    return eng.coerce(a, b.ty).z == b.z
