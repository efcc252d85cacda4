"""Loops: cut points with inferred subsets of the candidate invariants of the contract (Houdini)."""
import ast
import z3

from .types import *          # noqa: F401,F403
from .types import Unsupported, V, Ty
from .engine import Alias, State, conj, disj, MUT, assigned_names
from .solve import prove


class Iter:
    """The iteration space of a for loop."""

    def __init__(self, eng, st, it, node):
        self.eng, self.node = eng, node
        self.live = None
        self.start = self.step = None
        self.seq = None
        self.kind = None
        self.idx_target = None
        target = node.target
        f = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else None
        self.rev = False
        if f == "reversed":
            self.rev = True
            it = it.args[0]
            f = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else None
        if f == "range":
            a = [eng.ev(st, x) for x in it.args]
            for x in a:
                if x.ty.kind not in ("int", "bool"):
                    raise Unsupported("range of %r" % x.ty)
            self.kind = "range"
            self.start = a[0].z if len(a) > 1 else z3.IntVal(0)
            stop = a[1].z if len(a) > 1 else a[0].z
            self.step = a[2].z if len(a) > 2 else z3.IntVal(1)
            s = z3.simplify(self.step)
            if z3.is_int_value(s) and s.as_long() == 1:
                self.n = z3.If(stop > self.start, stop - self.start, 0)
            elif z3.is_int_value(s) and s.as_long() == -1:
                self.n = z3.If(stop < self.start, self.start - stop, 0)
            else:
                if not (z3.is_int_value(s) and s.as_long() > 0):
                    eng.oblige(st, self.step > 0, "safety: positive range step", node)
                self.n = z3.If(stop > self.start, (stop - self.start + self.step - 1) / self.step, 0)
            self.stop = stop
            self.target = target
            return
        if f == "enumerate":
            self.kind = "enum"
            inner = it.args[0]
            self.seqs = [self.mk_seq(st, inner)]
            self.targets = [target.elts[1]]
            self.idx_target = target.elts[0]
        elif f == "zip":
            self.kind = "zip"
            self.seqs = [self.mk_seq(st, a) for a in it.args]
            self.targets = list(target.elts)
        else:
            self.kind = "seq"
            self.seqs = [self.mk_seq(st, it)]
            self.targets = [target]

    def mk_seq(self, st, node):
        """('live', place) for a mutable place, ('val', V) for a fresh list"""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "__ref__":
            node = node.args[0]
        p = self.eng.place(st, node)
        if p is not None:
            v = self.eng.read(st, *p)
            if v.ty.kind == "opt":
                self.eng.oblige(st, z3.Not(ois_none(v)), "safety: iterated value is not None", node)
                p = (p[0], tuple(p[1]) + (("opt", None),))
                v = oval(v)
            if v.ty.kind == "list":
                return ("live", p)
        v = self.eng.ev(st, node)
        if v.ty.kind == "set":
            from .calls import set_to_list
            v = set_to_list(self.eng, v)
        if v.ty.kind == "opt":
            self.eng.oblige(st, z3.Not(ois_none(v)), "safety: iterated value is not None", node)
            v = oval(v)
        if v.ty.kind == "ref" and CLASSES[v.ty.name].get("@len"):
            v = self.eng.get_field(st, v, CLASSES[v.ty.name]["@len"], node)
        if v.ty.kind != "list":
            raise Unsupported("iteration over %r (line %s)" % (v.ty, getattr(node, "lineno", "?")))
        return ("val", v)

    def seqv(self, st, i):
        k, x = self.seqs[i]
        return self.eng.read(st, x[0], x[1]) if k == "live" else x

    def length(self, st):
        if self.kind == "range":
            return self.n
        l = llen(self.seqv(st, 0))
        for i in range(1, len(self.seqs)):
            m = llen(self.seqv(st, i))
            l = z3.If(m < l, m, l)
        return l

    def bind(self, st, k):
        eng = self.eng
        if self.kind == "range":
            if self.rev:
                x = self.start + (self.n - 1 - k) * self.step
            else:
                x = self.start + k * self.step
            eng.assign_value(st, self.target, V(INT, z3.simplify(x)), self.node)
            return
        for i, t in enumerate(self.targets):
            s = self.seqv(st, i)
            if s.z is None:
                st.pc = z3.BoolVal(False)
                return
            kk = llen(s) - 1 - k if self.rev else k
            eng.note_read(s, kk)
            x = lget(s, kk)
            kind, pl = self.seqs[i]
            if kind == "live" and isinstance(t, ast.Name) and (x.ty.kind in ("list", "rec") if eng.unit.lang == "py" else getattr(self.node, "_byref", False)):
                eng.freeze(st, t.id)
                st.env[t.id] = Alias(pl[0], tuple(pl[1]) + (("idx", kk),))
            else:
                eng.assign_value(st, t, x, self.node)
        if self.idx_target is not None:
            eng.assign_value(st, self.idx_target, V(INT, k), self.node)


def mutated_roots(eng, st, body, seen=None):
    """(names rebound, roots mutated in place, heap fields written) by the statements, syntactically."""
    reb, mut, heap = set(), set(), set()
    edges = []

    def root(n):
        while True:
            if isinstance(n, ast.Name):
                return n.id
            if isinstance(n, ast.Attribute):
                if isinstance(n.value, ast.Name) and n.value.id.split("@")[0] in ("self", "this"):
                    return "self." + n.attr
                heap.add(n.attr) if False else None
                n = n.value
            elif isinstance(n, ast.Subscript):
                n = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "__ref__":
                n = n.args[0]
            else:
                return None

    def fields(n):
        out = set()
        while isinstance(n, (ast.Attribute, ast.Subscript)):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            n = n.value
        return out

    def tgt(t):
        if isinstance(t, ast.Name):
            reb.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Attribute):
            r = root(t)
            if isinstance(t.value, ast.Name) and t.value.id.split("@")[0] in ("self", "this"):
                reb.add("self." + t.attr)
                mut.add("self." + t.attr)
            else:
                heap.add(t.attr)
                if r:
                    mut.add(r)
        elif isinstance(t, ast.Subscript):
            r = root(t)
            if r:
                mut.add(r)
            heap.update(fields(t))

    def visit(n, depth=0):
        for x in ast.walk(n):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    tgt(t)
                    if isinstance(t, ast.Name) and eng.unit.lang == "cpp":
                        mut.add(t.id)                     # a write through a reference, if it is one
                    elif isinstance(t, ast.Name):
                        r = root(x.value)
                        if r:
                            edges.append((t.id, r))
            elif isinstance(x, ast.AugAssign):
                tgt(x.target)
                if isinstance(x.target, ast.Name):
                    mut.add(x.target.id)
            elif isinstance(x, ast.AnnAssign):
                tgt(x.target)
                if x.value is not None:
                    r = root(x.value)
                    if r:
                        edges.append((x.target.id, r))
            elif isinstance(x, ast.For):
                tgt(x.target)
                it = x.iter
                its = it.args if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "zip", "reversed", "__ref__") else [it]
                tn = [t.id for t in ast.walk(x.target) if isinstance(t, ast.Name)]
                for i in its:
                    r = root(i)
                    if r:
                        for t in tn:
                            edges.append((t, r))
            elif isinstance(x, ast.Delete):
                for t in x.targets:
                    tgt(t)
            elif isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Attribute) and f.attr in MUT:
                    r = root(f.value)
                    if r:
                        mut.add(r)
                        if isinstance(f.value, (ast.Attribute, ast.Subscript)):
                            heap.update(fields(f.value))
                if isinstance(f, ast.Name) and f.id in ("__swap__", "__iota__"):
                    for a in x.args:
                        r = root(a)
                        if r:
                            mut.add(r)
                for u, isself in callee(x):
                    if u[0] == "contract":
                        c = u[1]
                        for m in c.modifies:
                            if m.startswith("self."):
                                reb.add(m)
                                mut.add(m)
                            elif "." in m:
                                heap.add(m.split(".")[1])
                            else:
                                off = 1 if list(c.params)[:1] == ["this_"] else 0
                                i = list(c.params).index(m) - off
                                if 0 <= i < len(x.args):
                                    r = root(x.args[i])
                                    if r:
                                        mut.add(r)
                    elif u[0] == "user":
                        sp = u[1]
                        for alt in (sp if isinstance(sp, list) else [sp]):
                            names = alt.get("names") or ["a%d" % i for i in range(len(alt["args"]))]
                            for m in alt.get("modifies", []):
                                i = names.index(m)
                                if i < len(x.args):
                                    r = root(x.args[i])
                                    if r:
                                        mut.add(r)
                    elif u[0] == "fn" and depth < 6:
                        fn = u[1]
                        r2, m2, h2 = mutated_fn(fn, depth + 1)
                        heap.update(h2)
                        for m in r2 | m2:
                            if m.startswith("self."):
                                reb.add(m) if m in r2 else None
                                mut.add(m)
                        ps = [a.arg for a in fn.args.args if a.arg != "self"]
                        for i, a in enumerate(x.args):
                            if i < len(ps) and ps[i] in m2:
                                r = root(a)
                                if r:
                                    mut.add(r)

    def mutated_fn(fn, depth):
        key = fn.name
        if key in (seen or set()):
            return set(), set(), set()
        return mutated_roots(eng, State({}, {}, None, set()), fn.body, (seen or set()) | {key})

    def callee(x):
        f = x.func
        d = eng.dotted(f)
        u = eng.unit.calls.get(d) if d else None
        if u is None and isinstance(f, ast.Attribute):
            u = eng.unit.calls.get("*." + f.attr)
        if u is not None:
            return [(("user", u), False)]
        if isinstance(f, ast.Name):
            k = eng.lookup(st, f.id)
            if k and isinstance(st.env.get(k), V) and st.env[k].ty.kind == "fun" and st.env[k].ty.name == "localdef":
                return [(("fn", st.env[k].z), False)]
            c = eng.registry.find(eng.unit, None, f.id)
            if c:
                return [(("contract", c), False)]
            from .calls import BUILTINS
            fn = eng.source.function(f.id) if eng.source and f.id not in BUILTINS else None
            if fn is not None:
                return [(("fn", fn), False)]
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id.split("@")[0] in ("self", "this"):
                c = eng.registry.find(eng.unit, "self", f.attr)
                if c:
                    return [(("contract", c), True)]
                fn = eng.source.method(f.attr) if eng.source else None
                if fn is not None:
                    return [(("fn", fn), True)]
            else:
                c = eng.registry.find_any(eng.unit, f.attr)
                if c:
                    return [(("contract", c), True)]
        return []

    for s in body:
        visit(s)
    changed = True
    while changed:
        changed = False
        for a, b in edges:
            if a in mut and b not in mut:
                mut.add(b)
                changed = True
    return reb, mut, heap


def looping(body):
    """The statements of a loop body without the branches that always leave the loop (what they change is not seen by the next iteration)."""
    def leaves(b):
        if not b:
            return False
        if any(isinstance(x, ast.Continue) for s in b for x in ast.walk(s)):
            return False
        t = b[-1]
        return isinstance(t, (ast.Break, ast.Return, ast.Raise)) or (isinstance(t, ast.If) and leaves(t.body) and leaves(t.orelse))

    out = []
    for s in body:
        if isinstance(s, ast.If):
            b = [] if leaves(s.body) else looping(s.body)
            o = [] if leaves(s.orelse) else looping(s.orelse)
            out.append(ast.Expr(s.test))
            out += b + o
        else:
            out.append(s)
    return out


def resolve_roots(eng, st, names):
    out = set()
    for r in names:
        k = eng.lookup(st, r) or r
        a = st.env.get(k)
        n = 0
        while isinstance(a, Alias) and n < 10:
            k = a.root
            a = st.env.get(k)
            n += 1
        out.add(k)
    return out


def run_loop(eng, st, node, guard, bind, seqlen, auto=None, orelse=None, seqroots=()):
    """guard(st,k)->z3 Bool; bind(st,k) binds loop variables; seqlen(st) or None."""
    reb, mut, heapf = mutated_roots(eng, st, looping(node.body) + list(getattr(node, "_inc", []) or []))
    if isinstance(node, ast.For) and getattr(node, "_byref", False):
        _, m2, _ = mutated_roots(eng, st, [ast.For(node.target, node.iter, looping(node.body), [], None)])
        mut |= m2
    if isinstance(node, ast.For):
        r2, _, _ = mutated_roots(eng, st, [ast.For(node.target, ast.Constant(0), [ast.Pass()], [], None)])
        reb |= r2
    rebound = set(eng.lookup(st, x) or x for x in reb)
    if eng.unit.lang == "cpp":        # assigning to a C++ reference writes to what it refers to
        refs = {x for x in rebound if isinstance(st.env.get(x), Alias)}
        rebound -= refs
        mut = set(mut) | refs
    roots = resolve_roots(eng, st, mut) | rebound
    key = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), len(eng.loop_stack), type(node).__name__, id(node) if hasattr(node, "_comp") else 0)
    pre = st
    cands = []
    for c in eng.unit.all_invariants(node):
        if c[0] == "@":        # "@d: clause" is for loops nested d deep only
            d, c = c[1:].split(":", 1)
            if int(d) != len(eng.loop_stack):
                continue
        cands.append(("user", c.strip()))
    for c in (auto or []):
        cands.append(("auto", c))
    stable_len = seqlen is not None and not (set(seqroots) & roots)
    if seqlen is not None and not stable_len:
        cands.append(("auto", lambda s_, k_: k_ <= seqlen(s_)))
    depth = len(eng.loop_stack)
    types = {}

    def ev_clause(s, c, k, extra=None):
        env = {"_k": V(INT, k), "_k%d" % depth: V(INT, k)}
        for i, fr in enumerate(eng.loop_stack[:depth]):
            env["_k%d" % i] = V(INT, fr["k"])
        if c[0] == "auto":
            return c[1](s, k)
        if hasattr(node, "_comp"):
            env["_comp"] = eng.read_root(s, node._comp[0])
        it = getattr(node, "_iter", None)
        if it is not None and it.kind == "seq":
            env["_seq"] = it.seqv(s, 0)
        return eng.spec_bool(s, c[1], env)

    # --- initially
    kept = []
    z0 = z3.IntVal(0)
    eng.loop_stack.append({"breaks": [], "conts": [], "k": z0})
    try:
        for c in cands:
            n0 = len(eng.facts)
            try:
                eng.loop_stack[-1]["k"] = z0
                g = ev_clause(pre, c, z0)
            except Unsupported:
                del eng.facts[n0:]
                continue
            if prove(eng, n0 if False else len(eng.facts), pre.pc, g):
                kept.append(c)
            else:
                del eng.facts[n0:]
    finally:
        eng.loop_stack.pop()
    # --- preserved
    for attempt in range(60):
        nf, no = len(eng.facts), len(eng.obs)
        nret = [(len(f["ret"]), len(f["raise"])) for f in eng.frames]
        head = pre.copy()
        k = z3.Int("k!%d" % next(eng.cnt))
        havoc_types = {}
        for r in sorted(roots):
            if r not in head.env:
                h = eng.hint(r) if not r.startswith("self.") else (parse_ty(eng.unit.self_[r[5:]]) if r[5:] in eng.unit.self_ else None)
                if h is not None and r not in ("",):
                    if not r.startswith("self."):
                        continue
                    head.env[r] = eng.fresh(h, r)
                    havoc_types[r] = h
                continue
            cur = head.env[r]
            v = eng.read_root(head, r) if isinstance(cur, Alias) else cur
            ty = types.get(r) or eng.hint(r) or v.ty
            if v.ty.kind == "fun":
                continue
            if ty.kind == "list" and ty.elem.kind == "unk":
                continue
            if r in rebound:
                eng.freeze(head, r)
            head.env[r] = eng.fresh(ty, r.split("@")[0])
            havoc_types[r] = ty
        for hk in list(head.heap) + [c + "." + f for c in CLASSES for f in CLASSES[c] if not f.startswith("@") and not str(CLASSES[c][f]).startswith("=")]:
            cls, f = hk.split(".", 1)
            if f in heapf:
                hm = eng.heapmap(head, cls, f)
                head.heap[hk] = z3.Const("heaph!%d_%s" % (next(eng.cnt), hk), hm.sort())
        eng.loop_stack.append({"breaks": [], "conts": [], "k": k})
        fr = eng.loop_stack[-1]
        eng.facts.append(k >= 0)
        if seqlen is not None and stable_len:
            eng.fact(head, k <= seqlen(head))
        bad_eval = []
        for c in kept:
            try:
                g = ev_clause(head, c, k)
            except Unsupported:
                bad_eval.append(c)
                continue
            eng.fact(head, g)
        if bad_eval:
            kept = [c for c in kept if c not in bad_eval]
        body = head.copy()
        retype = {}
        try:
            g = guard(body, k)
            body.pc = conj(body.pc, g)
            bind(body, k)
            end = eng.block(body, node.body)
        except Unsupported:
            eng.loop_stack.pop()
            raise
        ends = [e for e in [end] + fr["conts"] if e is not None]
        breaks = list(fr["breaks"])
        end = eng.merge([e.copy() for e in ends]) if ends else None
        if end is not None and getattr(node, "_inc", None):
            end = eng.block(end, node._inc)
        if end is not None:
            for r, ty in havoc_types.items():
                if r in end.env:
                    v = eng.read_root(end, r)
                    if v.ty != ty:
                        try:
                            j = eng.join_ty(ty, v.ty)
                        except Unsupported:
                            raise
                        if j != ty:
                            retype[r] = j
            # untyped lists that obtained a type in the body
            for r in roots:
                if r in pre.env and isinstance(pre.env[r], V) and pre.env[r].ty.kind == "list" and pre.env[r].ty.elem.kind == "unk" and r in end.env:
                    v = eng.read_root(end, r)
                    if v.ty.kind == "list" and v.ty.elem.kind != "unk" and r not in types:
                        retype[r] = v.ty
        for b in breaks:
            for r in roots:
                if r in pre.env and isinstance(pre.env[r], V) and r in b.env:
                    v = eng.read_root(b, r)
                    base = types.get(r) or havoc_types.get(r) or pre.env[r].ty
                    if pre.env[r].ty.kind == "list" and pre.env[r].ty.elem.kind == "unk" and v.ty.kind == "list" and v.ty.elem.kind != "unk" and r not in types:
                        retype[r] = v.ty
        eng.loop_stack.pop()

        def rollback():
            del eng.facts[nf:]
            del eng.obs[no:]
            for f, (a, b) in zip(eng.frames, nret):
                del f["ret"][a:]
                del f["raise"][b:]
        if retype:
            types.update(retype)
            rollback()
            for r, t in retype.items():
                if isinstance(pre.env.get(r), V):
                    pre.env[r] = eng.coerce(pre.env[r], t)
            # clauses that could not be read before may make sense now
            kept = []
            eng.loop_stack.append({"breaks": [], "conts": [], "k": z0})
            for c in cands:
                n0 = len(eng.facts)
                try:
                    g = ev_clause(pre, c, z0)
                    ok = prove(eng, len(eng.facts), pre.pc, g)
                except Unsupported:
                    ok = False
                if ok:
                    kept.append(c)
                else:
                    del eng.facts[n0:]
            eng.loop_stack.pop()
            continue
        bad = []
        if end is not None:
            n1 = len(eng.facts)
            eng.loop_stack.append({"breaks": [], "conts": [], "k": k + 1})
            goals = []
            for c in kept:
                try:
                    e2 = end.copy()
                    for r, ty in havoc_types.items():
                        if r in e2.env and not isinstance(e2.env[r], Alias):
                            e2.env[r] = eng.coerce(e2.env[r], ty)
                    goals.append((c, ev_clause(e2, c, k + 1)))
                except Unsupported:
                    bad.append(c)
            eng.loop_stack.pop()
            if goals and prove(eng, len(eng.facts), end.pc, z3.And(*[g for _, g in goals])):
                pass
            else:
                for c, g in goals:
                    if not prove(eng, len(eng.facts), end.pc, g):
                        bad.append(c)
        if bad:
            kept = [c for c in kept if c not in bad]
            rollback()
            continue
        break
    else:
        raise Unsupported("no fixpoint of the invariants")
    for clause in eng.unit.steps:          # two-state conditions on one iteration: old(x) is x at its beginning
        for e in ([end] if end is not None else []) + breaks:
            try:
                env = {"_k": V(INT, k), "_k%d" % depth: V(INT, k)}
                for i, f in enumerate(eng.loop_stack[:depth]):
                    env["_k%d" % i] = V(INT, f["k"])
                g = eng.spec_bool(e, clause, env, old=head)
            except Unsupported:
                continue
            eng.steps_seen.add(clause)
            eng.oblige(e, g, "iteration condition: %s" % clause, node)
    eng.kept.append((getattr(node, "lineno", 0), [c[1] for c in kept if c[0] == "user"], len(kept)))
    # the kept clauses are obligations that have been discharged: record them
    for c in kept:
        if c[0] == "user":
            eng.oblige(pre, z3.BoolVal(True), "loop invariant established and preserved: %s" % c[1], node)
    # --- exit
    out = head.copy()
    g = guard(out, k)
    out.pc = conj(out.pc, z3.Not(g))
    if isinstance(node, ast.For):
        for x in ast.walk(node.target):
            if isinstance(x, ast.Name) and eng.unit.lang == "py":
                out.env.pop(x.id, None)
                h = eng.hint(x.id)
    if orelse:
        o2 = eng.block(out, orelse)
        return eng.merge([o2] + breaks)
    res = eng.merge([out] + breaks)
    return res


def for_loop(eng, st, s):
    it = Iter(eng, st, s.iter, s)
    s._iter = it
    auto = []
    if hasattr(s, "_comp"):
        auto = comp_invariants(eng, s, it)
    if it.kind != "range" and any(it.seqv(st, i).z is None for i in range(len(it.seqs))):
        return st                      # iteration over an empty literal
    return run_loop(eng, st, s, lambda b, k: k < it.length(b), it.bind, it.length, auto, s.orelse,
                    [x[0] for kd, x in (it.seqs if it.kind != "range" else []) if kd == "live"])


def while_loop(eng, st, s):
    def guard(b, k):
        nf = len(eng.facts)
        return eng.truth(b, eng.ev(b, s.test))
    auto = []
    for nme in getattr(s, "_vars", []):
        # counting loops: i == start + k, and i <= bound
        k0 = eng.lookup(st, nme)
        if k0 and isinstance(st.env[k0], V) and st.env[k0].ty.kind == "int":
            z = st.env[k0].z
            auto.append((lambda nm_, z: lambda b, k: eng.read_root(b, eng.lookup(b, nm_)).z == z + k)(k0, z))
    for c in ([s.test] if not isinstance(s.test, ast.BoolOp) else s.test.values):
        if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.NotEq)) and getattr(s, "_inc", None):
            auto.append((lambda c: lambda b, k: eng.spec_bool(b, ast.Compare(c.left, [ast.LtE()], c.comparators)))(c))
    return run_loop(eng, st, s, guard, lambda b, k: None, None, auto, s.orelse)


def comp_invariants(eng, s, it):
    tmp, target, elt, filt = s._comp
    out = []

    def T(st):
        return eng.read_root(st, tmp)
    if not filt:
        out.append(lambda st, k: llen(T(st)) == k)

        def elems(st, k):
            j = z3.Int("cj!%d" % next(eng.cnt))
            b = st.copy()
            eng.spec_depth += 1
            eng.bound_depth += 1
            try:
                it.bind(b, j)
                e = eng.coerce(eng.ev(b, elt), T(st).ty.elem)
            finally:
                eng.spec_depth -= 1
                eng.bound_depth -= 1
            t = larr(T(st))[j]
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), t == e.z), patterns=[t])
        out.append(elems)
    else:
        out.append(lambda st, k: z3.And(llen(T(st)) <= k))

    def meas(i, which):
        def f(st, k):
            ms = eng.measures.get(T(st).ty, [])
            if i >= len(ms):
                raise Unsupported("-")
            m = ms[i]
            if which == 0:
                return m.mu(T(st).z) == m.zero
            if it.kind == "range" or it.seqv(st, 0).ty != T(st).ty:
                raise Unsupported("-")
            q = it.seqv(st, 0)
            return m.mu(T(st).z) == m.pre(q.z, k)
        return f
    for i in range(4):
        out.append(meas(i, 0))
        out.append(meas(i, 1))
    if filt:
        def all_cond(st, k):
            raise Unsupported("-")
        # elements satisfy the filter
        def sat(st, k):
            j = z3.Int("cf!%d" % next(eng.cnt))
            conds = []
            b = st.copy()
            if not (isinstance(target, ast.Name) and isinstance(elt, ast.Name) and elt.id == target.id):
                raise Unsupported("-")
            b.env[target.id] = lget(T(st), j)
            body = s.body
            eng.spec_depth += 1
            eng.bound_depth += 1
            try:
                while isinstance(body[0], ast.If):
                    conds.append(eng.truth(b, eng.ev(b, body[0].test)))
                    body = body[0].body
            finally:
                eng.spec_depth -= 1
                eng.bound_depth -= 1
            t = larr(T(st))[j]
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < llen(T(st))), z3.And(*conds)), patterns=[t])
        out.append(sat)
    return out
