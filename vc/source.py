"""Mechanical extraction of the functions of /repo on every run (Python part)."""
import ast
import os

from .types import Unsupported

_cache = {}


def parse(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _cache:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _cache[k] = ast.parse(open(path).read())
    return _cache[k]


class PySource:
    def __init__(self, root, file, cls, bases=()):
        self.root, self.file, self.cls = root, file, cls
        self.tree = parse(os.path.join(root, file))
        self.bases = bases            # [(file, cls)]

    def cls_node(self, file, cls):
        for n in ast.walk(parse(os.path.join(self.root, file))):
            if isinstance(n, ast.ClassDef) and n.name == cls:
                return n
        raise Unsupported("class %s not found in %s" % (cls, file))

    def base_list(self):
        out = [(self.file, self.cls)]
        for b in self.bases:
            out.append(b if isinstance(b, tuple) else (self.file, b))
        return out

    def method(self, name, cls=None):
        for f, c in self.base_list():
            if cls and c != cls:
                continue
            if c is None:
                continue
            for n in self.cls_node(f, c).body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    n._static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in n.decorator_list)
                    n._prop = any(isinstance(d, ast.Name) and d.id == "property" for d in n.decorator_list)
                    return n
        return None

    def super_method(self, name):
        for f, c in self.base_list()[1:]:
            for n in self.cls_node(f, c).body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return n
        return None

    def property_of(self, name):
        if self.cls is None:
            return None
        m = self.method(name)
        return m if m is not None and getattr(m, "_prop", False) else None

    def function(self, name):
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return n
        return None

    def target(self, c):
        f = self.method(c.func, c.cls) if c.cls else self.function(c.func)
        if f is None:
            raise Unsupported("function %s not found in %s" % (c.func, c.file))
        for n in f.body:
            for x in ast.walk(n):
                if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
                    raise Unsupported("statement outside the subset: %s" % type(x).__name__)
        return f
