"""Mechanical extraction of C++ functions: clang JSON AST -> typed core language (as Python ast).

What the translation drops (and nothing else): const, inline, noexcept, reserve(), the distinction between a
pointer / reference to a value and the value where the pointer is never null by construction of the caller,
iterator types (an iterator is the index in its container), integer widths (size_t subtraction wraps modulo 2^64,
additions are mathematical), floating point rounding.  A node that is not known raises Unsupported.
"""
import ast
import hashlib
import json
import os
import subprocess
import tempfile

from .types import RECORDS, Unsupported, parse_ty

_mem = {}
CACHE = None


def clang_dump(root, file, filt, extra=()):
    key = (root, file, filt)
    if key in _mem:
        return _mem[key]
    inc = os.path.join(root, "ccore", "include")
    cmd = ["clang++", "-std=c++14", "-I" + inc, "-include", "limits", "-DEXPORT_PYCLUSTERING_INTERFACE", "-Xclang", "-ast-dump=json", "-Xclang",
           "-ast-dump-filter=" + filt, "-fsyntax-only"] + list(extra) + [os.path.join(root, file)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Unsupported("clang: " + r.stderr[:300])
    dec = json.JSONDecoder()
    out, s, i = [], r.stdout, 0
    n = len(s)
    while i < n:
        while i < n and s[i] != "{":
            j = s.find("\n", i)
            if s.startswith("Dumping", i) and j >= 0:
                i = j + 1
                continue
            i += 1
        if i >= n:
            break
        d, i = dec.raw_decode(s, i)
        out.append(d)
    _mem[key] = out
    return out


def kids(n):
    return [x for x in n.get("inner", []) if x]


def body_node(n):
    for x in kids(n):
        if x.get("kind") == "CompoundStmt":
            return x
    return None


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            depth += 1
        if ch == ">":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


TYPEDEFS = {"index_sequence": "list[int]", "cluster": "list[int]", "noise": "list[int]", "point": "list[real]", "dataset": "list[list[real]]",
            "cluster_sequence": "list[list[int]]", "index_sequence_type": "list[int]", "medoid_sequence": "list[int]",
            "representative_sequence": "list[list[real]]", "membership": "list[real]"}


class OwnSequence(ast.NodeTransformer):
    """A class derived from a sequence: the object itself is the sequence `field`."""

    def __init__(self, field):
        self.field = ast.Attribute(ast.Name("self", ast.Load()), field, ast.Load())

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == "self":
            n.value = self.field
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and f.attr in ("size", "empty", "at", "__push__", "__clear__"):
            if f.attr == "size":
                return ast.copy_location(ast.Call(ast.Name("len", ast.Load()), [self.field], []), n)
            if f.attr == "empty":
                return ast.copy_location(ast.Compare(ast.Call(ast.Name("len", ast.Load()), [self.field], []), [ast.Eq()], [ast.Constant(0)]), n)
            if f.attr == "at":
                return ast.copy_location(ast.Subscript(self.field, n.args[0], ast.Load()), n)
            f.value = self.field
        elif isinstance(f, ast.Name) and f.id == "len" and len(n.args) == 1 and isinstance(n.args[0], ast.Name) and n.args[0].id == "self":
            n.args = [self.field]
        return n


class CppSource:
    def __init__(self, root, file, cls, opts):
        self.root, self.file, self.cls, self.opts = root, file, cls, opts
        self.types = dict(TYPEDEFS)
        self.types.update({r: r for r in RECORDS})
        self.types.update(opts.get("types", {}))
        self.acc = opts.get("accessors", {})
        self.filters = opts.get("filter") or ((cls + "::") if cls else None)
        self.funcs = {}

    # ------------------------------------------------------------------ lookup
    def nodes(self, name):
        filt = self.filters or name
        docs = []
        for f in (filt if isinstance(filt, list) else [filt]):
            docs += clang_dump(self.root, self.file, f)
        found = []

        def walk(n, intemplate):
            k = n.get("kind")
            if k in ("CXXMethodDecl", "FunctionDecl", "CXXConstructorDecl") and n.get("name") == name and body_node(n) is not None:
                found.append((n, intemplate))
            if k in ("FunctionTemplateDecl", "ClassTemplateDecl", "ClassTemplateSpecializationDecl", "CXXRecordDecl", "NamespaceDecl", "LinkageSpecDecl"):
                for x in kids(n):
                    walk(x, intemplate or k == "FunctionTemplateDecl")
        for d in docs:
            walk(d, False)
        return found

    def record_fields(self, ty):
        name = self.opts.get("records", {}).get(ty, ty)
        out = {}

        def walk(n):
            if n.get("kind") == "CXXRecordDecl" and n.get("name") == name and kids(n):
                for x in kids(n):
                    if x["kind"] == "FieldDecl":
                        out[x["name"]] = x
            if n.get("kind") in ("ClassTemplateDecl", "ClassTemplateSpecializationDecl", "CXXRecordDecl", "NamespaceDecl"):
                for x in kids(n):
                    walk(x)
        for f in [name] + ([self.cls + "::"] if self.cls else []):
            for d in clang_dump(self.root, self.file, f):
                walk(d)
            if out:
                return out
        raise Unsupported("structure %s not found" % name)

    def pick(self, name):
        want = self.opts.get("signature", {}).get(name)
        c = self.nodes(name)
        uniq = {}
        for n, t in c:
            uniq[n["id"]] = (n, t)
        c = list(uniq.values())
        if want:
            c = [(n, t) for n, t in c if want in n["type"]["qualType"]]
        # instantiations are preferred to templates
        inst = [n for n, t in c if not (t and self.dependent(n))]
        if inst:
            return inst[0] if len(inst) == 1 or want else inst[0]
        return c[0][0] if c else None

    def dependent(self, n):
        s = json.dumps(n)
        return "<dependent type>" in s or "CXXUnresolvedConstructExpr" in s or "CXXDependentScopeMemberExpr" in s

    def method(self, name):
        if name in self.funcs:
            return self.funcs[name]
        n = self.pick(name)
        if n is None:
            self.funcs[name] = None
            return None
        self.funcs[name] = Tr(self).function(n)
        return self.funcs[name]

    def function(self, name):
        return self.method(name)

    def super_method(self, name):
        return None

    def property_of(self, name):
        return None

    def target(self, c):
        f = self.method(c.func)
        if f is None:
            raise Unsupported("function %s not found in %s" % (c.func, c.file))
        return f

    # ------------------------------------------------------------------ types
    def ty(self, t):
        """clang type object or text -> our type text"""
        if isinstance(t, dict):
            for k in ("qualType",):
                try:
                    return self.ty(t[k])
                except Unsupported:
                    pass
            if "desugaredQualType" in t:
                return self.ty(t["desugaredQualType"])
            raise Unsupported("C++ type %s" % t.get("qualType"))
        s = t.strip()
        for w in ("const ", "volatile ", "typename ", "struct ", "class ", "mutable "):
            s = s.replace(w, "")
        s = s.replace(" const", "").strip()
        while s.endswith("&") or s.endswith("*"):
            s = s[:-1].strip()
        if s in self.types:
            return self.types[s]
        b = s.split("::")[-1] if "<" not in s else s
        if b in self.types:
            return self.types[b]
        if s in ("bool", "_Bool"):
            return "bool"
        if s in ("double", "float", "long double"):
            return "real"
        if s in ("std::size_t", "size_t", "unsigned long", "int", "unsigned int", "long", "unsigned", "unsigned long long", "long long", "short", "char", "unsigned char",
                 "std::vector::size_type", "size_type", "std::ptrdiff_t", "difference_type", "std::int64_t", "uint32_t", "std::uint32_t"):
            return "int"
        if "<" in s:
            base = s[:s.index("<")].split("::")[-1]
            args = split_args(s[s.index("<") + 1:s.rindex(">")])
            tail = s[s.rindex(">") + 1:]
            if tail.startswith("::size_type") or tail.startswith("::difference_type"):
                return "int"
            if tail.startswith("::value_type"):
                return self.ty(args[0])
            if "iterator" in base or "iterator" in tail:
                return "int"
            if base in ("vector", "list", "deque"):
                e = self.ty(args[0])
                return "list[%s]" % e
            if base == "pair" or base == "tuple":
                return "tuple[%s]" % ",".join(self.ty(a) for a in args)
            if base in ("shared_ptr", "unique_ptr"):
                return self.ty(args[0])
            if base in ("unordered_set", "set"):
                return "set[%s]" % self.ty(args[0])
        if s == "void":
            return "none"
        raise Unsupported("C++ type %s" % s)


def N(x):
    return ast.Name(x, ast.Load())


def call(name, *args):
    return ast.Call(N(name), list(args), [])


def const(v):
    return ast.Constant(v)


BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "%": ast.Mod}
CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}


class Tr:
    """Translation of one function."""

    def __init__(self, src):
        self.src = src
        self.iters = {}         # iterator variable -> container expression (ast)
        self.line = 0
        self.tmp = 0
        self.pre = []

    def at(self, node, n):
        for x in ast.walk(node):
            if not hasattr(x, "lineno"):
                x.lineno = self.line
                x.col_offset = self.tmp
                x.end_lineno, x.end_col_offset = self.line, 0
        self.tmp += 1
        return node

    def function(self, n):
        params = [x for x in kids(n) if x["kind"] == "ParmVarDecl"]
        self.loc(n)
        args = [ast.arg(p.get("name", "_p%d" % i)) for i, p in enumerate(params)]
        body = self.block(kids(body_node(n)))
        fn = ast.FunctionDef(n["name"], ast.arguments([], args, None, [], [], None, []), body or [ast.Pass()], [])
        self.at(fn, n)
        if "*this" in self.src.acc:
            fn = OwnSequence(self.src.acc["*this"]).visit(fn)
        ast.fix_missing_locations(fn)
        fn._static = True
        fn._byval = [i for i, p in enumerate(params) if not p["type"]["qualType"].strip().endswith(("&", "*"))]
        return fn

    def loc(self, n):
        r = n.get("range", {}).get("begin", {})
        l = r.get("line") or r.get("spellingLoc", {}).get("line") or r.get("expansionLoc", {}).get("line")
        if l:
            self.line = l

    # ------------------------------------------------------------------ statements
    def block(self, ns):
        out = []
        for n in ns:
            out += self.stmt(n)
        return out

    def stmt(self, n):
        self.loc(n)
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m:
            r = m(n)
        else:
            e = self.expr_stmt(n)
            r = e
        r = self.pre + r if self.pre else r
        self.pre = []
        for x in r:
            self.at(x, n)
        return r

    def s_CompoundStmt(self, n):
        return self.block(kids(n))

    def s_NullStmt(self, n):
        return []

    def s_DeclStmt(self, n):
        out = []
        for d in kids(n):
            if d["kind"] == "VarDecl":
                out += self.vardecl(d)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl"):
                pass
            else:
                raise Unsupported("declaration %s" % d["kind"])
        return out

    def vardecl(self, d):
        qt = d["type"]["qualType"]
        init = kids(d)
        init = init[-1] if init else None
        name = d["name"]
        if init is not None:
            core = self.strip(init)
            if core["kind"] == "LambdaExpr":
                return [self.lambda_def(name, core)]
            it = self.iter_of(init)
            if it is not None:
                self.iters[name] = it[0]
                return self.ann(name, "int", it[1])
        try:
            ty = self.src.ty(d["type"])
        except Unsupported:
            if init is None or not qt.strip().endswith("&"):
                raise
            ty = "unk"        # a reference: it has the type of what it refers to
        if init is None:
            return self.ann(name, ty, self.default_of(ty))
        isref = qt.strip().endswith("&") or qt.strip().endswith("*")
        e = self.expr(init)
        if isref:
            e = call("__ref__", e)
        return self.ann(name, ty, e)

    def ann(self, name, ty, e):
        return [ast.AnnAssign(ast.Name(name, ast.Store()), const(ty), e, 1)]

    def default_of(self, ty):
        if ty in RECORDS:           # the initialisers of the members, from the definition of the structure
            fields = self.src.record_fields(ty)
            args = []
            for f, t in RECORDS[ty]:
                d = fields.get(f)
                init = [x for x in kids(d) if not x["kind"].endswith("Comment")] if d is not None else []
                args.append(self.expr(init[-1]) if init else call("__default__", const(t)))
            return call("__record__", const(ty), *args)
        return call("__default__", const(ty))

    def lambda_def(self, name, n):
        params, body = self.lambda_parts(n)
        sub = self.block(kids(body))
        return ast.FunctionDef(name, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), sub or [ast.Pass()], [])

    def lambda_parts(self, n):
        for x in kids(n):
            if x["kind"] == "CXXRecordDecl":
                for y in kids(x):
                    if y["kind"] == "CXXMethodDecl" and y.get("name") == "operator()":
                        ps = [p.get("name", "_") for p in kids(y) if p["kind"] == "ParmVarDecl"]
                        return ps, body_node(y)
                    if y["kind"] == "FunctionTemplateDecl":
                        for z in kids(y):
                            if z["kind"] == "CXXMethodDecl" and body_node(z) is not None:
                                ps = [p.get("name", "_") for p in kids(z) if p["kind"] == "ParmVarDecl"]
                                return ps, body_node(z)
        raise Unsupported("lambda")

    def s_IfStmt(self, n):
        c = [x for x in n.get("inner", [])]
        has_init = n.get("hasInit") or n.get("hasVar")
        if has_init:
            raise Unsupported("if with initialiser")
        cond = self.expr(c[0])
        pre = self.pre
        self.pre = []
        then = self.stmt(c[1])
        els = self.stmt(c[2]) if len(c) > 2 and c[2] else []
        return pre + [ast.If(cond, then or [ast.Pass()], els)]

    def s_ForStmt(self, n):
        c = n.get("inner", [])
        init, var, cond, inc, body = c[0], c[1], c[2], c[3], c[4]
        out = self.stmt(init) if init else []
        saved, self.pre = self.pre, []
        test = self.expr(cond) if cond else const(True)
        if self.pre:
            raise Unsupported("side effect in a loop condition")
        incs = self.stmt(inc) if inc else []
        b = self.stmt(body) if body else []
        self.pre = saved
        w = ast.While(test, b or [ast.Pass()], [])
        w._inc = incs
        names = []
        for s in out:
            if isinstance(s, ast.AnnAssign):
                names.append(s.target.id)
        w._vars = names
        return out + [w]

    def s_WhileStmt(self, n):
        c = kids(n)
        saved, self.pre = self.pre, []
        test = self.expr(c[0])
        if self.pre:
            raise Unsupported("side effect in a loop condition")
        b = self.stmt(c[1])
        self.pre = saved
        return [ast.While(test, b or [ast.Pass()], [])]

    def s_DoStmt(self, n):
        raise Unsupported("do loop")

    def s_CXXForRangeStmt(self, n):
        c = n.get("inner", [])
        rng = None
        var = None
        for x in c:
            if x and x["kind"] == "DeclStmt":
                d = kids(x)[0]
                if d.get("name", "").startswith("__range"):
                    rng = kids(d)[-1]
                elif d.get("name", "").startswith(("__begin", "__end")):
                    pass
                else:
                    var = d
        body = c[-1]
        it = self.expr(rng)
        b = self.stmt(body)
        f = ast.For(ast.Name(var["name"], ast.Store()), it, b or [ast.Pass()], [], None)
        qt = var["type"]["qualType"]
        f._byref = "&" in qt
        return [f]

    def s_ReturnStmt(self, n):
        c = kids(n)
        return [ast.Return(self.expr(c[0]) if c else None)]

    def s_BreakStmt(self, n):
        return [ast.Break()]

    def s_ContinueStmt(self, n):
        return [ast.Continue()]

    def s_CXXThrowExpr(self, n):
        return [ast.Raise(None, None)]

    def s_SwitchStmt(self, n):
        c = kids(n)
        val = self.expr(c[0])
        cases = []
        default = None
        cur = None
        for x in kids(c[1]):
            y = x
            labels = []
            while y["kind"] in ("CaseStmt", "DefaultStmt"):
                if y["kind"] == "CaseStmt":
                    ks = kids(y)
                    labels.append(self.expr(ks[0]))
                    y = ks[-1]
                else:
                    labels.append(None)
                    y = kids(y)[-1]
            if labels:
                cur = (labels, [])
                cases.append(cur)
            if y["kind"] == "BreakStmt":
                cur[1].append("break")
            elif cur[1] and cur[1][-1] == "break":
                raise Unsupported("switch shape")
            else:
                cur[1].append(y)
        top = []
        chain = None
        conv = []
        for labels, sts in cases:
            term = sts and (sts[-1] == "break" or sts[-1]["kind"] in ("ReturnStmt",) or self.ends(sts[-1]))
            if not term:
                raise Unsupported("switch fall-through")
            b = []
            for s in sts:
                if s == "break":
                    continue
                b += self.stmt_nobreak(s)
            conv.append((labels, b))
        res = []
        els = []
        for labels, b in reversed(conv):
            if None in labels:
                els = b
                continue
        for labels, b in reversed(conv):
            if None in labels:
                continue
            t = None
            for l in labels:
                cnd = ast.Compare(val, [ast.Eq()], [l])
                t = cnd if t is None else ast.BoolOp(ast.Or(), [t, cnd])
            els = [ast.If(t, b or [ast.Pass()], els)]
        return els

    def ends(self, s):
        if s["kind"] in ("ReturnStmt", "CXXThrowExpr", "BreakStmt", "ContinueStmt"):
            return True
        if s["kind"] == "ExprWithCleanups":
            return self.ends(kids(s)[0])
        if s["kind"] == "CompoundStmt":
            k = kids(s)
            return bool(k) and self.ends(k[-1])
        return False

    def stmt_nobreak(self, s):
        if s["kind"] == "CompoundStmt":
            k = kids(s)
            if k and k[-1]["kind"] == "BreakStmt":
                return self.block(k[:-1])
        return self.stmt(s)

    # expression statements
    def expr_stmt(self, n):
        c = self.strip(n)
        k = c["kind"]
        if k in ("BinaryOperator", "CompoundAssignOperator") and (c["opcode"] == "=" or c["opcode"].endswith("=") and c["opcode"] not in CMP):
            return self.assign(c)
        if k == "UnaryOperator" and c["opcode"] in ("++", "--"):
            return [self.incdec(c)]
        if k == "CXXOperatorCallExpr":
            op = self.opname(c)
            a = kids(c)[1:]
            if op in ("=", "+=", "-=", "*=", "/="):
                return self.assign_to(a[0], op, a[1], c)
            if op in ("++", "--"):
                t = self.expr(a[0])
                return [ast.Assign([self.store(t)], ast.BinOp(t, ast.Add() if op == "++" else ast.Sub(), const(1)))]
        if k == "CallExpr" or k == "CXXMemberCallExpr":
            r = self.call_stmt(c)
            if r is not None:
                return r
        if k == "CXXThrowExpr":
            return [ast.Raise(None, None)]
        return [ast.Expr(self.expr(n))]

    def store(self, e):
        e = self.unref(e)
        import copy
        e = copy.deepcopy(e)
        if hasattr(e, "ctx"):
            e.ctx = ast.Store()
        return e

    def unref(self, e):
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__ref__":
            e = e.args[0]
        return e

    def incdec(self, c):
        e = self.expr(kids(c)[0])
        t = c["type"]["qualType"]
        if c["opcode"] == "++":
            v = ast.BinOp(e, ast.Add(), const(1))
        else:
            v = call("__usub__", e, const(1)) if self.unsigned(c["type"]) else ast.BinOp(e, ast.Sub(), const(1))
        return ast.Assign([self.store(e)], v)

    def unsigned(self, t):
        s = t.get("desugaredQualType", t["qualType"]).replace("const ", "")
        return "unsigned" in s or "size_t" in s

    def assign(self, c):
        a, b = kids(c)
        op = c["opcode"]
        return self.assign_to(a, op, b, c)

    def assign_to(self, a, op, b, c):
        it = self.iter_of(b)
        if op == "=" and it is not None:
            t = self.strip(a)
            nme = t.get("referencedDecl", {}).get("name")
            if nme in self.iters:
                return [ast.Assign([ast.Name(nme, ast.Store())], it[1])]
        # it = v.erase(it)
        cb = self.strip(b)
        if cb["kind"] == "CXXMemberCallExpr" and self.member_name(cb) == "erase":
            return self.call_stmt(cb)
        lhs = self.expr(a)
        # chained assignment a = b = c
        if cb["kind"] == "BinaryOperator" and cb.get("opcode") == "=":
            inner = self.assign(cb)
            rhs = self.expr(kids(cb)[0])
            return inner + [ast.Assign([self.store(lhs)], rhs)]
        rhs = self.expr(b)
        if op == "=":
            return [ast.Assign([self.store(lhs)], rhs)]
        o = op[:-1]
        return [ast.Assign([self.store(lhs)], self.arith(o, lhs, rhs, c.get("computeResultType", c["type"]) if c["kind"] == "CompoundAssignOperator" else c["type"]))]

    def arith(self, o, a, b, t):
        if o == "-" and self.unsigned(t):
            return call("__usub__", a, b)
        if o == "/":
            s = t.get("desugaredQualType", t["qualType"])
            if "double" in s or "float" in s:
                return ast.BinOp(a, ast.Div(), b)
            return call("__cdiv__", a, b)
        if o == "%":
            return ast.BinOp(a, ast.Mod(), b)
        if o in BIN:
            return ast.BinOp(a, BIN[o](), b)
        raise Unsupported("operator " + o)

    # ------------------------------------------------------------------ expressions
    TRANSPARENT = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
                   "FullExpr"}

    def strip(self, n):
        while True:
            k = n["kind"]
            if k in self.TRANSPARENT:
                n = kids(n)[0]
            elif k == "ImplicitCastExpr" and n.get("castKind") in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion",
                                                                     "DerivedToBase", "UncheckedDerivedToBase", "ArrayToPointerDecay", "IntegralCast", "PointerToBoolean"):
                n = kids(n)[0]
            else:
                return n

    def expr(self, n):
        self.loc(n)
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            if k in self.TRANSPARENT:
                return self.expr(kids(n)[0])
            raise Unsupported("C++ expression %s (line %d)" % (k, self.line))
        return self.at(m(n), n)

    def e_ImplicitCastExpr(self, n):
        return self.cast(n, kids(n)[0])

    def e_CXXStaticCastExpr(self, n):
        return self.cast(n, kids(n)[0])

    e_CStyleCastExpr = e_CXXStaticCastExpr
    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr
    e_CXXReinterpretCastExpr = e_CXXStaticCastExpr
    e_CXXConstCastExpr = e_CXXStaticCastExpr

    def cast(self, n, c):
        ck = n.get("castKind")
        if ck == "IntegralToFloating":
            return call("__real__", self.expr(c))
        if ck == "FloatingToIntegral":
            return call("__trunc__", self.expr(c))
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return ast.Compare(self.expr(c), [ast.NotEq()], [const(0)])
        if ck == "IntegralCast":
            s = self.strip(c)
            if s["kind"] == "UnaryOperator" and s["opcode"] == "-" and self.unsigned(n["type"]):
                v = self.strip(kids(s)[0])
                if v["kind"] == "IntegerLiteral":
                    return const((1 << 64) - int(v["value"]))
            return self.expr(c)
        return self.expr(c)

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return ast.Attribute(N("enum"), d["name"], ast.Load())
        if d["name"] == "npos":
            return const((1 << 64) - 1)
        return N(d["name"])

    def e_CXXThisExpr(self, n):
        return N("self")

    def e_MemberExpr(self, n):
        b = kids(n)[0] if kids(n) else None
        name = n["name"]
        if b is None:
            return N(name)
        base = self.strip(b)
        e = self.expr(b)
        it = self.deref_iter(b)
        if it is not None and n.get("isArrow"):
            e = it
        if name in ("first", "second"):
            return ast.Subscript(e, const(0 if name == "first" else 1), ast.Load())
        full = self.path(e)
        if full and full + "." + name in self.src.acc:
            return ast.Attribute(N("self"), self.src.acc[full + "." + name], ast.Load())
        return ast.Attribute(e, name, ast.Load())

    def path(self, e):
        e = self.unref(e)
        if isinstance(e, ast.Attribute):
            b = self.path(e.value)
            return (b + "." + e.attr) if b and b != "self" else (e.attr if b == "self" else None)
        if isinstance(e, ast.Name):
            return e.id
        return None

    def e_IntegerLiteral(self, n):
        return const(int(n["value"]))

    def e_FloatingLiteral(self, n):
        return const(float(n["value"]))

    def e_CXXBoolLiteralExpr(self, n):
        return const(bool(n["value"]))

    def e_CXXNullPtrLiteralExpr(self, n):
        return const(None)

    def e_GNUNullExpr(self, n):
        return const(None)

    def e_StringLiteral(self, n):
        return const(str(n["value"]))

    def e_ConditionalOperator(self, n):
        a, b, c = kids(n)
        return ast.IfExp(self.expr(a), self.expr(b), self.expr(c))

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        c = kids(n)[0]
        if op == "!":
            return ast.UnaryOp(ast.Not(), self.expr(c))
        if op == "-":
            return ast.UnaryOp(ast.USub(), self.expr(c))
        if op == "+":
            return self.expr(c)
        if op in ("*", "&"):
            it = self.deref_iter(c) if op == "*" else None
            if it is not None:
                return it
            if op == "*" and "iterator" in c["type"]["qualType"]:
                raise Unsupported("dereferenced iterator of unknown container")
            return self.expr(c)
        if op in ("++", "--"):
            e = self.expr(c)
            if n.get("isPostfix"):
                # value before the change: hoisted
                self.tmp += 1
                t = "_post%d" % self.tmp
                self.pre.append(self.at(ast.AnnAssign(ast.Name(t, ast.Store()), const("int"), e, 1), n))
                self.pre.append(self.at(self.incdec(n), n))
                return N(t)
            self.pre.append(self.at(self.incdec(n), n))
            return e
        raise Unsupported("unary " + op)

    def e_BinaryOperator(self, n):
        a, b = kids(n)
        op = n["opcode"]
        if op == "&&" or op == "||":
            x = self.expr(a)
            saved, self.pre = self.pre, []
            y = self.expr(b)
            if self.pre:
                raise Unsupported("side effect in a short-circuit operand")
            self.pre = saved
            return ast.BoolOp(ast.And() if op == "&&" else ast.Or(), [x, y])
        if op in CMP:
            return self.compare(a, op, b)
        if op == "=":
            self.pre += [self.at(s, n) for s in self.assign(n)]
            return self.expr(a)
        if op == ",":
            self.pre += self.stmt(a)
            return self.expr(b)
        return self.arith(op, self.expr(a), self.expr(b), n["type"])

    def compare(self, a, op, b):
        ia, ib = self.iter_of(a), self.iter_of(b)
        x = ia[1] if ia else self.expr(a)
        y = ib[1] if ib else self.expr(b)
        return ast.Compare(x, [CMP[op]()], [y])

    def opname(self, n):
        f = self.strip(kids(n)[0])
        nm_ = f.get("referencedDecl", {}).get("name", "")
        return nm_.replace("operator", "")

    def e_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        a = kids(n)[1:]
        if op == "[]":
            return ast.Subscript(self.expr(a[0]), self.expr(a[1]), ast.Load())
        if op == "()":
            callee = self.expr(a[0])
            return ast.Call(self.unref(callee), [self.arg(x) for x in a[1:]], [])
        if op == "*":
            if len(a) == 1:
                it = self.deref_iter(a[0])
                if it is not None:
                    return it
                if "iterator" in a[0]["type"]["qualType"]:
                    raise Unsupported("dereferenced iterator of unknown container")
                return self.expr(a[0])
            return ast.BinOp(self.expr(a[0]), ast.Mult(), self.expr(a[1]))
        if op == "->":
            it = self.deref_iter(a[0])
            return it if it is not None else self.expr(a[0])
        if op in CMP:
            return self.compare(a[0], op, a[1])
        if op in ("=", "+=", "-=", "*=", "/="):
            self.pre += [self.at(s, n) for s in self.assign_to(a[0], op, a[1], n)]
            return self.expr(a[0])
        if op in ("+", "-"):
            it = self.iter_of(n)
            if it is not None:
                return it[1]
            return ast.BinOp(self.expr(a[0]), ast.Add() if op == "+" else ast.Sub(), self.expr(a[1]))
        if op in ("++", "--"):
            it = self.iter_of(n)
            if it is not None:
                return it[1]
            if len(a) == 2:
                raise Unsupported("postfix operator" + op)
            t = self.expr(a[0])
            self.pre.append(self.at(ast.Assign([self.store(t)], ast.BinOp(t, ast.Add() if op == "++" else ast.Sub(), const(1))), n))
            return t
        raise Unsupported("operator" + op)

    def arg(self, n):
        """argument of a call: by reference when it is an lvalue not read"""
        k = n
        while k["kind"] in self.TRANSPARENT or (k["kind"] == "ImplicitCastExpr" and k.get("castKind") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase")):
            k = kids(k)[0]
        if k["kind"] == "CXXDefaultArgExpr":
            raise Unsupported("default argument")
        e = self.expr(n)
        if k.get("valueCategory") == "lvalue" and k["kind"] in ("DeclRefExpr", "MemberExpr", "CXXOperatorCallExpr", "UnaryOperator", "CXXMemberCallExpr", "ArraySubscriptExpr", "CallExpr"):
            return call("__ref__", e)
        return e

    def args(self, ns):
        return [self.arg(x) for x in ns if x["kind"] != "CXXDefaultArgExpr"]

    def e_ArraySubscriptExpr(self, n):
        a, b = kids(n)
        return ast.Subscript(self.expr(a), self.expr(b), ast.Load())

    def e_CXXConstructExpr(self, n):
        a = [x for x in kids(n) if x["kind"] != "CXXDefaultArgExpr"]
        ty = None
        try:
            ty = self.src.ty(n["type"])
        except Unsupported:
            pass
        if not a:
            if ty is None:
                raise Unsupported("construction of %s" % n["type"]["qualType"])
            return self.default_of(ty)
        if len(a) == 1:
            if ty and ty.startswith("list["):
                s = self.strip(a[0])
                at = a[0]["type"]
                try:
                    aty = self.src.ty(at)
                except Unsupported:
                    aty = None
                if aty == "int":
                    e = parse_ty(ty).elem
                    return call("__filled__", self.expr(a[0]), call("__default__", const(ty[5:-1])))
                if s["kind"] in ("CXXStdInitializerListExpr", "InitListExpr"):
                    return self.initlist(s, ty)
            return self.expr(a[0])
        if ty and ty.startswith("list["):
            ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
            if ia and ib:
                return self.iter_range(ia, ib)
            s = self.strip(a[0])
            if s["kind"] in ("CXXStdInitializerListExpr", "InitListExpr"):
                return self.initlist(s, ty)
            x = self.expr(a[1])
            if ty == "list[real]":
                x = call("__real__", x)
            return call("__filled__", self.expr(a[0]), x)
        if ty and ty.startswith("tuple["):
            return ast.Tuple([self.expr(x) for x in a], ast.Load())
        rec = self.src.opts.get("ctors", {}).get(ty)
        if rec:
            return call(rec, *[self.expr(x) for x in a])
        raise Unsupported("construction of %s" % n["type"]["qualType"])

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def initlist(self, s, ty):
        while s["kind"] != "InitListExpr":
            s = self.strip(kids(s)[0])
        el = [self.expr(x) for x in kids(s)]
        if not el:
            return call("__emptylist__", const(ty))
        if ty == "list[real]":
            el = [call("__real__", x) for x in el]
        return ast.List(el, ast.Load())

    def e_InitListExpr(self, n):
        ty = self.src.ty(n["type"])
        if ty.startswith("tuple["):
            return ast.Tuple([self.expr(x) for x in kids(n)], ast.Load())
        if ty.startswith("list["):
            return self.initlist(n, ty)
        if len(kids(n)) == 1:
            return self.expr(kids(n)[0])
        raise Unsupported("initialiser list")

    def e_CXXStdInitializerListExpr(self, n):
        s = n
        while s["kind"] != "InitListExpr":
            s = self.strip(kids(s)[0])
        return ast.List([self.expr(x) for x in kids(s)], ast.Load())

    def e_CXXScalarValueInitExpr(self, n):
        return call("__default__", const(self.src.ty(n["type"])))

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    # --- iterators: (container ast, index ast)
    def iter_of(self, n):
        c = self.strip(n)
        k = c["kind"]
        if k == "CXXConstructExpr" and len(kids(c)) == 1:
            return self.iter_of(kids(c)[0])
        if k in ("CXXMemberCallExpr",):
            m = self.member_name(c)
            if m in ("begin", "cbegin", "end", "cend"):
                b = self.unref(self.expr(kids(kids(c)[0])[0])) if kids(self.strip(kids(c)[0])) else None
                b = self.unref(self.expr(kids(self.strip(kids(c)[0]))[0]))
                if m in ("begin", "cbegin"):
                    return b, const(0)
                return b, call("len", b)
            return None
        if k == "CallExpr":
            nme = self.callee_name(c)
            if nme in ("begin", "end", "cbegin", "cend"):
                b = self.unref(self.expr(kids(c)[1]))
                return b, (const(0) if "begin" in nme else call("len", b))
            if nme in ("next", "prev"):
                a = [x for x in kids(c)[1:] if x["kind"] != "CXXDefaultArgExpr"]
                it = self.iter_of(a[0])
                if it:
                    step = self.expr(a[1]) if len(a) > 1 else const(1)
                    return it[0], ast.BinOp(it[1], ast.Add() if nme == "next" else ast.Sub(), step)
            if nme in ("max_element", "min_element"):
                a = kids(c)[1:]
                ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
                if len(a) == 2 and ia and ib:
                    return ia[0], call("numpy_arg" + nme[:3], self.iter_range(ia, ib))
            if nme in ("find",):
                return self.find_iter(c)
            return None
        if k == "CXXOperatorCallExpr" and self.opname(c) in ("+", "-"):
            a = kids(c)[1:]
            it = self.iter_of(a[0])
            if it is not None:
                if self.iter_of(a[1]) is not None:
                    return None
                return it[0], ast.BinOp(it[1], ast.Add() if self.opname(c) == "+" else ast.Sub(), self.expr(a[1]))
            return None
        if k == "CXXOperatorCallExpr" and self.opname(c) in ("++", "--") or k == "UnaryOperator" and c["opcode"] in ("++", "--"):
            post = c.get("isPostfix") if k == "UnaryOperator" else len(kids(c)) == 3
            op = c["opcode"] if k == "UnaryOperator" else self.opname(c)
            a = kids(c)[0] if k == "UnaryOperator" else kids(c)[1]
            it = self.iter_of(a)
            if it is None or not isinstance(it[1], ast.Name):
                return None
            up = op == "++"
            self.pre.append(self.at(ast.Assign([self.store(it[1])], ast.BinOp(it[1], ast.Add() if up else ast.Sub(), const(1))), c))
            return (it[0], ast.BinOp(it[1], ast.Sub() if up else ast.Add(), const(1))) if post else it
        if k == "DeclRefExpr":
            nme = c["referencedDecl"]["name"]
            if nme in self.iters:
                return self.iters[nme], N(nme)
        return None

    def find_iter(self, c):
        a = kids(c)[1:]
        ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
        if not (ia and ib):
            return None
        return ia[0], call("__find__", self.iter_range(ia, ib), self.expr(a[2]))

    def iter_range(self, ia, ib):
        a, b = ia[1], ib[1]
        full_a = isinstance(a, ast.Constant) and a.value == 0
        full_b = isinstance(b, ast.Call) and getattr(b.func, "id", "") == "len"
        if full_a and full_b:
            return ia[0]
        return ast.Subscript(ia[0], ast.Slice(None if full_a else a, None if full_b else b, None), ast.Load())

    def deref_iter(self, n):
        it = self.iter_of(n)
        if it is None:
            return None
        return ast.Subscript(it[0], it[1], ast.Load())

    # --- calls
    def callee_name(self, c):
        f = self.strip(kids(c)[0])
        while f["kind"] == "ImplicitCastExpr":
            f = self.strip(kids(f)[0])
        if f["kind"] == "DeclRefExpr":
            return f["referencedDecl"]["name"]
        if f["kind"] == "MemberExpr":
            return f["name"]
        return f.get("name")

    def member_name(self, c):
        f = self.strip(kids(c)[0])
        return f.get("name") if f["kind"] == "MemberExpr" else None

    def call_stmt(self, c):
        """calls as statements that need statement-level translation"""
        k = c["kind"]
        if k == "CallExpr":
            nme = self.callee_name(c)
            a = kids(c)[1:]
            if nme in ("parallel_for", "parallel_for_each"):
                return self.parallel(nme, a)
            if nme == "for_each":
                ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
                lam = self.strip(a[2])
                return self.lambda_loop(lam, self.iter_range(ia, ib))
            if nme == "iota":
                ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
                return [ast.Expr(call("__iota__", ia[0], self.expr(a[2])))]
            if nme == "fill":
                ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
                return [ast.Assign([self.store(ia[0])], call("__filled__", call("len", ia[0]), self.expr(a[2])))]
            if nme in ("sort", "stable_sort"):
                ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
                if len(a) == 2:
                    return [ast.Assign([self.store(ia[0])], call("sorted", ia[0]))]
                lam = self.strip(a[2])
                if lam["kind"] != "LambdaExpr":
                    raise Unsupported("sort comparator")
                ps, body = self.lambda_parts(lam)
                st = kids(body)
                if len(st) != 1 or st[0]["kind"] != "ReturnStmt":
                    raise Unsupported("sort comparator")
                cmp_ = self.expr(kids(st[0])[0])
                lm = ast.Lambda(ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), cmp_)
                return [ast.Assign([self.store(ia[0])], call("__sortedby__", ia[0], lm))]
            if nme == "swap":
                return [ast.Expr(call("__swap__", self.unref(self.expr(a[0])), self.unref(self.expr(a[1]))))]
            if nme == "copy":
                ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
                t = self.strip(a[2])
                if t["kind"] == "CallExpr" and self.callee_name(t) == "back_inserter":
                    dst = self.unref(self.expr(kids(t)[1]))
                    return [ast.Expr(ast.Call(ast.Attribute(dst, "__insert__", ast.Load()), [self.iter_range(ia, ib)], []))]
                ic = self.iter_of(a[2])
                if ic is not None:
                    return [ast.Expr(ast.Call(ast.Attribute(ic[0], "__copyat__", ast.Load()), [ic[1], self.iter_range(ia, ib)], []))]
            return None
        m = self.member_name(c)
        mem = self.strip(kids(c)[0])
        base = kids(mem)[0] if kids(mem) else None
        a = [x for x in kids(c)[1:] if x["kind"] != "CXXDefaultArgExpr"]
        if m == "erase" and base is not None:
            b = self.unref(self.expr(base))
            it = self.iter_of(a[0])
            if len(a) == 2:
                raise Unsupported("erase of a range")
            if it is not None:
                return [ast.Expr(ast.Call(ast.Attribute(b, "__eraseat__", ast.Load()), [it[1]], []))]
            return [ast.Expr(ast.Call(ast.Attribute(b, "discard", ast.Load()), [self.expr(a[0])], []))]
        if m == "insert" and base is not None:
            b = self.unref(self.expr(base))
            if len(a) == 3:
                ia, ib = self.iter_of(a[1]), self.iter_of(a[2])
                return [ast.Expr(ast.Call(ast.Attribute(b, "__insert__", ast.Load()), [self.iter_range(ia, ib)], []))]
            if len(a) == 1:
                return [ast.Expr(ast.Call(ast.Attribute(b, "add", ast.Load()), [self.expr(a[0])], []))]
            it = self.iter_of(a[0])
            if it is not None:
                return [ast.Expr(ast.Call(ast.Attribute(b, "insert", ast.Load()), [it[1], self.expr(a[1])], []))]
        if m == "assign" and base is not None:
            b = self.unref(self.expr(base))
            ia = self.iter_of(a[0])
            if ia is not None:
                return [ast.Assign([self.store(b)], self.iter_range(ia, self.iter_of(a[1])))]
            return [ast.Assign([self.store(b)], call("__filled__", self.expr(a[0]), self.expr(a[1])))]
        if m == "swap":
            b = self.unref(self.expr(base))
            return [ast.Expr(call("__swap__", b, self.unref(self.expr(a[0]))))]
        return None

    def parallel(self, nme, a):
        lam = self.strip(a[-1])
        while lam["kind"] in ("CXXConstructExpr", "CXXFunctionalCastExpr"):
            lam = self.strip(kids(lam)[0])
        if nme == "parallel_for":
            rng = call("range", *[self.expr(x) for x in a[:2]] + ([self.expr(a[2])] if len(a) > 3 else []))
        else:
            if len(a) == 3:
                rng = self.iter_range(self.iter_of(a[0]), self.iter_of(a[1]))
            else:
                rng = self.expr(a[0])
        if lam["kind"] == "DeclRefExpr":
            nm_ = "_pi%d" % self.tmp
            self.tmp += 1
            return [ast.For(ast.Name(nm_, ast.Store()), rng, [ast.Expr(call(lam["referencedDecl"]["name"], N(nm_)))], [], None)]
        return self.lambda_loop(lam, rng)

    def lambda_loop(self, lam, rng):
        if lam["kind"] != "LambdaExpr":
            raise Unsupported("loop body is not a lambda")
        ps, body = self.lambda_parts(lam)
        b = self.block(kids(body))
        b = [RetToCont().visit(s) for s in b]
        f = ast.For(ast.Name(ps[0], ast.Store()), rng, b or [ast.Pass()], [], None)
        f._byref = True
        return [f]

    def e_CXXMemberCallExpr(self, n):
        mem = self.strip(kids(n)[0])
        if mem["kind"] != "MemberExpr":
            raise Unsupported("member call")
        m = mem["name"]
        base = kids(mem)[0] if kids(mem) else None
        if m.startswith("operator ") and base is not None:      # conversion of a proxy (vector<bool>)
            return self.expr(base)
        a = [x for x in kids(n)[1:] if x["kind"] != "CXXDefaultArgExpr"]
        if base is None or self.strip(base)["kind"] == "CXXThisExpr":
            if m in self.src.acc:
                return ast.Attribute(N("self"), self.src.acc[m], ast.Load())
            return ast.Call(ast.Attribute(N("self"), m, ast.Load()), self.args(a), [])
        it = self.iter_of(n)
        if it is not None:
            return it[1]
        b = self.unref(self.expr(base))
        dit = self.deref_iter(base)
        if dit is not None and mem.get("isArrow"):
            b = dit
        p = self.path(b)
        if p and p + "." + m in self.src.acc and (not a):
            return ast.Attribute(N("self"), self.src.acc[p + "." + m], ast.Load())
        if m in ("size", "length"):
            return call("len", b)
        if m == "empty":
            return ast.Compare(call("len", b), [ast.Eq()], [const(0)])
        if m == "at":
            return ast.Subscript(b, self.expr(a[0]), ast.Load())
        if m == "front":
            return ast.Subscript(b, const(0), ast.Load())
        if m == "back":
            return ast.Subscript(b, const(-1), ast.Load())
        if m in ("push_back", "emplace_back", "push"):
            if len(a) == 0:
                ety = self.src.ty(self.strip(base)["type"])[5:-1]
                x = call("__default__", const(ety))
            elif len(a) == 1:
                x = self.expr(a[0])
                try:
                    lty = self.src.ty(base["type"])
                    if m == "emplace_back" and lty.startswith("list[list["):
                        aty = self.src.ty(a[0]["type"])
                        if aty == "int":
                            x = call("__filled__", x, call("__default__", const(lty[10:-2])))
                except Unsupported:
                    pass
            else:
                lty = self.src.ty(self.strip(base)["type"]) if True else None
                ety = lty[5:-1]
                if ety.startswith("tuple["):
                    x = ast.Tuple([self.expr(y) for y in a], ast.Load())
                elif ety.startswith("list["):
                    ia = self.iter_of(a[0])
                    x = self.iter_range(ia, self.iter_of(a[1])) if ia else call("__filled__", self.expr(a[0]), self.expr(a[1]))
                elif self.src.opts.get("ctors", {}).get(ety):
                    x = call(self.src.opts["ctors"][ety], *[self.expr(y) for y in a])
                else:
                    raise Unsupported("emplace_back")
            return ast.Call(ast.Attribute(b, "__push__", ast.Load()), [x], [])
        if m == "pop_back":
            return ast.Call(ast.Attribute(b, "__popback__", ast.Load()), [], [])
        if m == "clear":
            return ast.Call(ast.Attribute(b, "__clear__", ast.Load()), [], [])
        if m == "resize":
            return ast.Call(ast.Attribute(b, "__resize__", ast.Load()), [self.expr(x) for x in a], [])
        if m in ("reserve", "shrink_to_fit"):
            return ast.Call(ast.Attribute(b, "__reserve__", ast.Load()), [], [])
        if m == "count":
            return call("__contains__", b, self.expr(a[0]))
        if m == "get" and not a:
            return b
        return ast.Call(ast.Attribute(b, m, ast.Load()), self.args(a), [])

    def e_CallExpr(self, n):
        nme = self.callee_name(n)
        a = kids(n)[1:]
        if nme in ("move", "forward", "ref", "cref", "as_const"):
            return self.expr(a[0])
        if nme == "max" and not a or nme in ("max", "min", "lowest", "infinity", "epsilon", "quiet_NaN") and not a:
            t = n["type"]["qualType"]
            if "double" in t or "float" in t:
                return N("INF") if nme in ("max", "infinity") else self.uns("numeric_limits::" + nme)
            return const((1 << 64) - 1)
        if nme in ("max", "min"):
            return call(nme, *[self.expr(x) for x in a])
        if nme in ("abs", "fabs"):
            return call("abs", self.expr(a[0]))
        if nme in ("sqrt", "floor", "ceil", "sin", "cos", "exp", "log"):
            return ast.Call(ast.Attribute(N("math"), nme, ast.Load()), [self.expr(a[0])], [])
        if nme == "pow":
            return ast.BinOp(self.expr(a[0]), ast.Pow(), self.expr(a[1]))
        if nme in ("max_element", "min_element"):
            it = self.iter_of(n)
            if it:
                return it[1]
        if nme == "distance":
            ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
            if ia and ib:
                return ast.BinOp(ib[1], ast.Sub(), ia[1])
        if nme == "accumulate":
            ia, ib = self.iter_of(a[0]), self.iter_of(a[1])
            if ia and ib and len(a) == 3:
                return ast.BinOp(self.expr(a[2]), ast.Add(), call("sum", self.iter_range(ia, ib)))
        if nme in ("make_pair", "make_tuple"):
            return ast.Tuple([self.expr(x) for x in a], ast.Load())
        if nme == "get":
            raise Unsupported("std::get")
        if nme in ("nan", "nanf"):
            return call("float", const("nan"))
        if nme == "isnan":
            return ast.Call(ast.Attribute(N("math"), "isnan", ast.Load()), [self.expr(a[0])], [])
        if nme is None:
            raise Unsupported("call of %s" % a0_text(n))
        return ast.Call(N(nme), self.args(a), [])

    def uns(self, m):
        raise Unsupported(m)

    def e_LambdaExpr(self, n):
        ps, body = self.lambda_parts(n)
        st = kids(body)
        if len(st) == 1 and st[0]["kind"] == "ReturnStmt":
            return ast.Lambda(ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), self.expr(kids(st[0])[0]))
        raise Unsupported("lambda as a value")

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unsupported("sizeof")


class RetToCont(ast.NodeTransformer):
    def visit_Return(self, n):
        return ast.copy_location(ast.Continue(), n)

    def visit_For(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.Return):
                raise Unsupported("return inside a nested loop of a lambda")
        return n

    visit_While = visit_For

    def visit_FunctionDef(self, n):
        return n


def a0_text(n):
    f = kids(n)[0]
    while f.get("kind") in ("ImplicitCastExpr", "ParenExpr") and kids(f):
        f = kids(f)[0]
    return "%s %s" % (f.get("kind"), f.get("name") or f.get("type", {}).get("qualType"))
