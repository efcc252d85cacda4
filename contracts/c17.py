"""C17: ensembles, phases and order parameters of oscillatory networks. p is an arbitrary oscillator."""
from vc.contract import Contract, Group

G = Group(ghost={"p": "int"}, measures={"cnt": ("list[int]", "count:p", 3)})
SYNC = "pyclustering/nnet/sync.py"
DYN = dict(file=SYNC, cls="sync_dynamic", group=G, self_={"_dynamic": "list[point]", "_ccore_sync_dynamic_pointer": "int"}, consts={"self._ccore_sync_dynamic_pointer is not None": False, "self._dynamic is None": False, "pi": 3.14159265359})
N = "len(self._dynamic[0])"
FULL = "forall(lambda i: implies(0 <= i and i < len(self._dynamic), len(self._dynamic[i]) == %s))" % N
NE = "forall(lambda c: implies(0 <= c and c < len({0}), len({0}[c]) > 0))"
FIRST = "forall(lambda c: implies(0 <= c and c < len({0}) and 0 <= p and p < {0}[c][0], not near({0}[c][0], p)))"
INR = "forall(lambda c, j: implies(0 <= c and c < len(clusters) and 0 <= j and j < len(clusters[c]), 0 <= clusters[c][j] and clusters[c][j] < %s))"


def ensembles(name, it, state, **kw):
    NEAR = "lambda a, b: (%s[a] < %s[b] + tolerance and %s[a] > %s[b] - tolerance) or (abs(%s[a] - 2 * pi) < %s[b] + tolerance and abs(%s[a] - 2 * pi) > %s[b] - tolerance)" % ((state,) * 8)
    return Contract("sync_dynamic.allocate_sync_ensembles(%s)" % name, func="allocate_sync_ensembles", params=dict(tolerance="real", **({"indexes": "none", "iteration": "int" if it else "none"})), ret="list[list[int]]",
        requires=["len(self._dynamic) > 0", FULL] + (["0 <= iteration and iteration < len(self._dynamic)"] if it else []), spec={"near": NEAR},
        ensures=["cnt(result) == ite(0 <= p and p < %s, 1, 0)" % N, NE.format("result"),
            # an ensemble is opened only for an oscillator that is near to no earlier one
            FIRST.format("result")],
        invariants=["@0: cnt(clusters) == ite(0 <= p and p < _k0 + 1 and p < number_oscillators, 1, 0)", "@1: cnt(clusters) == ite(0 <= p and p < i, 1, 0)", "@2: cnt(clusters) == ite(0 <= p and p < i, 1, 0)", NE.format("clusters"), "@0: " + INR % "_k0 + 1", "@1: " + INR % "i", "@2: " + INR % "i",
            FIRST.format("clusters"), "@1: implies(0 <= p and p < i and near(i, p), pre('cnt', clusters, _k1) == 0)", "@2: implies(0 <= p and p < i and near(i, p), pre('cnt', cluster, _k2) == 0)",
            "@1: not cluster_allocated", "@2: not cluster_allocated", "@1: i == _k0 + 1", "@2: i == _k0 + 1"], **dict(DYN, **kw))


CONTRACTS = [ensembles("last state", False, "self._dynamic[len(self._dynamic) - 1]"), ensembles("iteration", True, "self._dynamic[iteration]")]

# phases stay within one period
for lang, cls, func, f in (("py", "sync_network", "_phase_normalization", SYNC), ("cpp", "sync_network", "phase_normalization", "ccore/src/nnet/sync.cpp")):
    CONTRACTS.append(Contract(("cpp." if lang == "cpp" else "") + "sync_network.phase_normalization", f, func, cls, lang=lang, params={"teta": "real"}, ret="real", consts={"pi": 3.14159265359},
        ensures=["0 <= result and result <= 2 * 3.14159265359 ", "implies(0 <= teta and teta <= 2 * 3.14159265359, result == teta)"], invariants=["implies(0 <= teta and teta <= 2 * 3.14159265359, norm_teta == teta)"]))
#: exp is positive and lies above its tangent in M, an arbitrary number that is the mean of the phases here
EXP = {"args": ["real"], "ret": "real", "fn": "exp", "ensures": ["result > 0", "result >= exp(M) * (1 + a0 - M)"], "doc": "exp is positive and convex (above its tangent at the mean phase)"}
ABS = {"asum": (["point", "int"], "real", ["lambda l, k, r: r == ite(k <= 0, 0, asum(l, k - 1) + abs(l[k - 1]))"]), "exp": (["real"], "real", ["lambda x, r: r > 0"])}
OP = "oscillator_phases"
CONTRACTS += [
 Contract("order_estimator.calculate_sync_order", SYNC, "calculate_sync_order", "order_estimator", params={OP: "point"}, ret="real", ghost={"M": "real"}, measures={"sum": ("point", "sum")}, spec=ABS, calls={"math.exp": EXP},
    requires=["len(%s) > 0" % OP, "M * len({0}) == abs(mu('sum', {0}))".format(OP)], ensures=["0 <= result and result <= 1"],
    invariants=["average_phase == pre('sum', %s, _k)" % OP, "abs(average_phase) <= asum(%s, _k)" % OP, "exp_amount >= exp(M) * (_k + asum(%s, _k) - _k * M)" % OP]),

 Contract("order_estimator.calculate_sync_order(equal phases)", SYNC, "calculate_sync_order", "order_estimator", params={OP: "point"}, ret="real", ghost={"M": "real", "c": "real"}, spec=ABS, calls={"math.exp": EXP},
    requires=["len(%s) > 0" % OP, "forall(lambda i: implies(0 <= i and i < len({0}), {0}[i] == c))".format(OP)], ensures=["result == 1"],
    invariants=["average_phase == _k * c", "exp_amount == _k * exp(abs(c))"]),
 Contract("order_estimator.calculate_local_sync_order", SYNC, "calculate_local_sync_order", "order_estimator", params={OP: "point", "oscillatory_network": "list[int]"}, ret="real", ghost={"M": "real"}, spec=ABS,
    calls={"math.exp": dict(EXP, ensures=["result > 0", "implies(a0 <= 0, result <= 1)"], doc="exp of a number that is not positive is in (0, 1]"),
           "oscillatory_network.has_connection": {"args": ["int", "int"], "ret": "bool", "doc": "network.has_connection (C16); the network is seen as its sequence of oscillators"}},
    requires=["len(%s) == len(oscillatory_network)" % OP], ensures=["0 <= result and result <= 1"], invariants=["0 <= exp_amount and exp_amount <= num_neigh", "num_neigh >= 0"]),
]
HY = dict(file="pyclustering/nnet/hysteresis.py", cls="hysteresis_dynamic", group=G, self_={"_dynamic": "list[point]"})
NEAR = "lambda a, b: forall(lambda t: implies(len(self._dynamic) - min(threshold_steps, len(self._dynamic)) <= t and t < len(self._dynamic), self._dynamic[t][a] < self._dynamic[t][b] + tolerance and self._dynamic[t][a] > self._dynamic[t][b] - tolerance))"
CONTRACTS += [
 Contract("hysteresis_dynamic.allocate_sync_ensembles", func="allocate_sync_ensembles", params={"tolerance": "real", "threshold_steps": "int"}, ret="list[list[int]]", requires=["len(self._dynamic) > 0", FULL, N + " > 0", "threshold_steps >= 1"], spec={"near": NEAR},
    ensures=["cnt(result) == ite(0 <= p and p < %s, 1, 0)" % N, NE.format("result"), "forall(lambda c, d: implies(0 <= d and d < c and c < len(result), not near(result[c][0], result[d][0])))"],
    invariants=["@0: cnt(clusters) == ite(0 <= p and p < _k0 + 1, 1, 0)", "@1: cnt(clusters) == ite(0 <= p and p < i, 1, 0)", NE.format("clusters"), "@0: " + INR % "_k0 + 1", "@1: " + INR % "i", "@0: len(clusters) > 0", "@1: len(clusters) > 0", "@1: i == _k0 + 1", "@2: captured_neuron",
        "forall(lambda c, d: implies(0 <= d and d < c and c < len(clusters), not near(clusters[c][0], clusters[d][0])))", "@1: forall(lambda d: implies(0 <= d and d < _k1, not near(i, clusters[d][0])))", "@1: implies(_k1 > 0, not captured_neuron)",
        "@2: step == len(self._dynamic) - 1 - _k2", "@2: forall(lambda t: implies(len(self._dynamic) - 1 - _k2 < t and t < len(self._dynamic), self._dynamic[t][i] < self._dynamic[t][neuron_index] + tolerance and self._dynamic[t][i] > self._dynamic[t][neuron_index] - tolerance))"], **HY),
]
PC = dict(file="pyclustering/nnet/pcnn.py", cls="pcnn_dynamic", group=G, self_={"__dynamic": "list[point]", "__OUTPUT_TRUE": "int", "__ccore_pcnn_dynamic_pointer": "int"}, consts={"self.__ccore_pcnn_dynamic_pointer is not None": False})
PN = N.replace("_dynamic", "__dynamic")
FIRES = "exists(lambda w: %s <= w and w < len(self.__dynamic) and self.__dynamic[w][p] == self.__OUTPUT_TRUE)"
CONTRACTS += [
 Contract("pcnn_dynamic.allocate_sync_ensembles", func="allocate_sync_ensembles", ret="list[list[int]]", requires=["len(self.__dynamic) > 0", FULL.replace("_dynamic", "__dynamic")],
    ensures=["cnt(result) == ite(0 <= p and p < %s and %s, 1, 0)" % (PN, FIRES % "1"), NE.format("result")], default_set="int", locals={"traverse_oscillators": "set[int]"},
    invariants=["@0: cnt(sync_ensembles) == ite(p in traverse_oscillators, 1, 0)", "@1: cnt(sync_ensembles) + cnt(sync_ensemble) == ite(p in traverse_oscillators, 1, 0)", NE.format("sync_ensembles"), "implies(p in traverse_oscillators, 0 <= p and p < number_oscillators)",
        "@0: implies(0 <= p and p < number_oscillators, (p in traverse_oscillators) == (%s))" % FIRES % "len(self.__dynamic) - _k0",
        "@1: implies(0 <= p and p < number_oscillators, (p in traverse_oscillators) == (%s or (p < _k1 and self.__dynamic[t][p] == self.__OUTPUT_TRUE)))" % FIRES % "t + 1", "@1: t == len(self.__dynamic) - 1 - _k0"], **PC),
]
CN = dict(file="pyclustering/nnet/cnn.py", cls="cnn_dynamic", group=G, self_={"output": "list[point]"}, calls={"heaviside": {"args": ["real"], "ret": "int", "fn": "heaviside", "doc": "heaviside step"}})
CO = "self.output"
CNN = "len(%s[0])" % CO
CFULL = "forall(lambda i: implies(0 <= i and i < len({0}), len({0}[i]) == {1}))".format(CO, CNN)
CONTRACTS += [
 Contract("cnn_dynamic.allocate_neuron_patterns", func="__allocate_neuron_patterns", params={"start_iteration": "int", "stop_iteration": "int"}, ret="list[list[int]]",
    requires=["len(%s) > 0" % CO, CFULL, "0 <= start_iteration and stop_iteration <= len(%s)" % CO],
    ensures=["len(result) == " + CNN], invariants=["@0: len(pattern_matrix) == _k"], locals={"pattern_matrix": "list[list[int]]"}, **CN),
 Contract("cnn_dynamic.allocate_sync_ensembles", func="allocate_sync_ensembles", params={"steps": "int"}, ret="list[list[int]]", requires=["len(%s) > 0" % CO, CFULL, CNN + " > 0", "steps >= 1"], uses=["cnn_dynamic.allocate_neuron_patterns"],
    ensures=["cnt(result) == ite(0 <= p and p < %s, 1, 0)" % CNN, NE.format("result")],
    invariants=["@0: cnt(ensembles) == ite(0 <= p and p < _k0 + 1, 1, 0)", "@1: cnt(ensembles) == ite(0 <= p and p < index_neuron, 1, 0)", NE.format("ensembles"), "len(pattern_matrix) == " + CNN, "@1: not neuron_assigned", "@1: index_neuron == _k0 + 1",
        "@0: " + INR.replace("clusters", "ensembles") % "_k0 + 1", "@1: " + INR.replace("clusters", "ensembles") % "index_neuron"], **CN),
]

# C++: sync_dynamic is itself the sequence of its states, oscillators() is the number of phases of every state
XD = "self.m_dynamic"
XNEAR = "lambda a, b: ({0}[a] < {0}[b] + tolerance and {0}[a] > {0}[b] - tolerance) or (abs({0}[a] - 2 * pi) < {0}[b] + tolerance and abs({0}[a] - 2 * pi) > {0}[b] - tolerance)".format(XD + "[iteration].m_phase")
CONTRACTS += [
 Contract("cpp.sync_dynamic.allocate_sync_ensembles", "ccore/src/nnet/sync.cpp", "allocate_sync_ensembles", "sync_dynamic", lang="cpp", params={"tolerance": "real", "iteration": "int", "ensembles": "list[list[int]]"}, modifies=["ensembles"], group=G,
    self_={"m_dynamic": "list[sync_network_state]", "m_oscillators": "int"}, cpp={"accessors": {"*this": "m_dynamic", "oscillators": "m_oscillators"}, "signature": {"allocate_sync_ensembles": "size_t"}}, consts={"pi": 3.14159265358979},
    requires=["implies(len({0}) > 0, 0 <= iteration and iteration < len({0}))".format(XD), "forall(lambda i: implies(0 <= i and i < len({0}), len({0}[i].m_phase) == self.m_oscillators))".format(XD), "self.m_oscillators > 0"], spec={"near": XNEAR},
    ensures=["implies(len(%s) == 0, len(ensembles) == 0)" % XD, "implies(len(%s) > 0, cnt(ensembles) == ite(0 <= p and p < self.m_oscillators, 1, 0))" % XD, NE.format("ensembles"), "implies(len(%s) > 0, %s)" % (XD, FIRST.format("ensembles"))],
    invariants=["@0: cnt(ensembles) == ite(0 <= p and p < _k0 + 1, 1, 0)", "@1: cnt(ensembles) == ite(0 <= p and p < i, 1, 0)", "@2: cnt(ensembles) == ite(0 <= p and p < i, 1, 0)", NE.format("ensembles"), FIRST.format("ensembles")] +
        [("@%d: " % d + INR % e).replace("clusters", "ensembles") for d, e in ((0, "_k0 + 1"), (1, "i"), (2, "i"))] + ["@0: i == _k0 + 1", "@1: i == _k0 + 1", "@2: i == _k0 + 1",
        "@1: implies(0 <= p and p < i and near(i, p), pre('cnt', ensembles, _k1) == 0)", "@2: implies(0 <= p and p < i and near(i, p), pre('cnt', cluster, _k2) == 0)", "@1: not cluster_allocated", "@2: not cluster_allocated", "@0: i <= self.m_oscillators"]),
]
