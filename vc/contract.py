"""Contracts and their registry."""
import ast


class Group:
    """Declarations shared by several contracts."""

    def __init__(self, **kw):
        self.ghost = kw.get("ghost", {})
        self.measures = kw.get("measures", {})
        self.spec = kw.get("spec", {})
        self.calls = kw.get("calls", {})
        self.consts = kw.get("consts", {})
        self.self_ = kw.get("self_", {})


class Contract:
    def __init__(self, name, file, func, cls=None, lang="py", params=None, self_=None, ret=None, requires=(), ensures=(),
                 modifies=(), invariants=(), locals=None, raises=None, consts=None, calls=None, spec=None, ghost=None,
                 measures=None, default_list=None, default_set=None, numpy=(), trusted=False, trusted_why=None, group=(),
                 bases=(), defaults=None, debug=0, lines=None, cpp=None, extra_facts=(), prop=(), assumes=(), note="", template=None,
                 timeout=None, entry=None, callnames=(), nparams=None, init_self=None, uses=(), inline_only=(), sum_as=(), steps=(), positive=(), effort=1, plain_quotients=False, safe_by=None, static=None):
        self.name, self.file, self.func, self.cls, self.lang = name, file, func, cls, lang
        self.short = func
        self.params = dict(params or {})
        self.ret = ret
        self.requires, self.ensures = list(requires), list(ensures)
        self.modifies, self.invariants = list(modifies), list(invariants)
        self.locals = dict(locals or {})
        self.raises = raises
        self.default_list, self.default_set = default_list, default_set
        self.numpy = set(numpy)
        self.trusted, self.trusted_why = trusted, trusted_why
        self.groups = [group] if isinstance(group, Group) else list(group)
        self.bases = list(bases)
        self.defaults = dict(defaults or {})
        self.debug = debug
        self.cpp = cpp or {}
        self.note = note
        self.template = template
        self.timeout = timeout
        self.effort = effort          # factor on the resource limit of the invariant queries
        self.plain_quotients = plain_quotients   # quotients in specifications are only compared, never multiplied out
        self.static = dict(static or {})   # parameters fixed to a constant in this unit (one unit per value)
        self.safe_by = safe_by        # name of the unit of the same function that discharges the safety obligations
        self.uses = list(uses)          # names of contracts usable at call sites in this unit (None = all of the file)
        self.inline_only = set(inline_only)
        self.steps = list(steps)        # two-state conditions on every loop iteration (old = its beginning)
        self.positive = list(positive)  # (measure, list): lemma at entry: a list of positive measure has an element of positive measure
        self.sum_as = list(sum_as)      # closed forms of sums, proved by induction where sum() is called
        self._ghost, self._measures, self._spec = dict(ghost or {}), dict(measures or {}), dict(spec or {})
        self.calls, self.consts, self.self_ = {}, {}, {}
        for g in self.groups:
            self.calls.update(g.calls)
            self.consts.update(g.consts)
            self.self_.update(g.self_)
        self.calls.update(calls or {})
        self.consts.update(consts or {})
        self.self_.update(self_ or {})
        self.callnames = set(callnames) | {func}
        self.class_names = {cls} | set(bases)

    def all_ghost(self):
        r = {}
        for g in self.groups:
            r.update(g.ghost)
        r.update(self._ghost)
        return r

    def all_measures(self):
        r = {}
        for g in self.groups:
            r.update(g.measures)
        r.update(self._measures)
        return r

    def all_spec(self):
        r = {}
        for g in self.groups:
            r.update(g.spec)
        r.update(self._spec)
        return r

    def all_invariants(self, node):
        return self.invariants

    def count_ghost(self, mname):
        h = self.all_measures()[mname][1]
        return h.split(":")[1] if h.startswith("count:") else None

    def is_numpy(self, text):
        return text in self.numpy


class Registry:
    def __init__(self, contracts):
        self.all = list(contracts)
        self.by_name = {c.name: c for c in self.all}
        for c in self.all:
            if c.safe_by:
                o = self.by_name[c.safe_by]
                same = ("file", "func", "cls", "lang", "params", "self_", "consts", "uses", "static", "template", "calls")
                if o.safe_by or any(getattr(o, k) != getattr(c, k) for k in same) or not set(o.requires) <= set(c.requires):
                    raise ValueError("%s does not cover the safety of %s" % (o.name, c.name))

    def find(self, unit, recv, fname):
        """Contract to use for a call of fname from unit; recv: None, 'self' or a class name."""
        if fname in unit.inline_only:
            return None
        for c in self.all:
            if c.name in unit.uses and fname in c.callnames:
                return c
        for c in self.all:
            if c.lang != unit.lang or fname not in c.callnames:
                continue
            if recv is None and c.cls is None and c.file == unit.file:
                return c
            if (recv == "self" or unit.lang == "cpp") and c.cls is not None and (c.cls == unit.cls or c.cls in unit.bases) and c.file == unit.file:
                return c
        return None

    def find_any(self, unit, fname):
        for c in self.all:
            if c.name in unit.uses and fname in c.callnames:
                return c
        return None
