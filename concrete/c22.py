import copy
import itertools
import math
import numpy
from fractions import Fraction
from .base import Target, expect
from . import gen
import pyclustering.utils as U
from pyclustering.utils.dimension import dimension_info
from pyclustering.utils.graph import graph, type_graph_descr
from pyclustering.utils.sampling import reservoir_r, reservoir_x


def near(a, b, scale=1.0):
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)) + scale)


def sq(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def g_points(rng, i):
    data = gen.points(rng, i, nmin=1, nmax=14)
    if rng.random() < 0.2:
        data = [[int(round(x)) for x in p] for p in data]
    n = len(data)
    f = [rng.randrange(n) for _ in range(rng.randint(1, n + 2))] if rng.random() < 0.5 else None
    a = [rng.randrange(n) for _ in range(rng.randint(1, 5))]
    b = [rng.randrange(n) for _ in range(rng.randint(1, 5))]
    return {"data": data, "filter": f, "a": a, "b": b, "neigh": rng.randint(1, max(1, n - 1)), "direct": rng.random() < 0.5, "number": rng.choice([1, 2.0, -3, 0.5])}


def check_points(c):
    data = copy.deepcopy(c["data"])
    n, d = len(data), len(data[0])
    big = max(abs(x) for p in data for x in p) + 1
    r = U.linear_sum(data)
    expect(type(r) is list and len(r) == d and all(near(r[k], sum(Fraction(p[k]) for p in data), n * big) for k in range(d)), lambda: "linear_sum(%s) = %s" % (data, r))
    want = sum(Fraction(x) ** 2 for p in data for x in p)
    expect(near(U.square_sum(data), want), lambda: "square_sum(%s) = %r, should be %r" % (data, U.square_sum(data), float(want)))
    flat = [p[0] for p in data]
    expect(near(U.linear_sum(flat), sum(map(Fraction, flat)), n * big), lambda: "linear_sum(%s) = %r" % (flat, U.linear_sum(flat)))
    expect(near(U.square_sum(flat), sum(Fraction(x) ** 2 for x in flat)), lambda: "square_sum(%s) = %r" % (flat, U.square_sum(flat)))
    f = c["filter"]
    lo, hi = U.data_corners(data, f)
    rows = [data[j] for j in f] if f is not None else data
    expect(list(lo) == [min(p[k] for p in rows) for k in range(d)] and list(hi) == [max(p[k] for p in rows) for k in range(d)], lambda: "data_corners(%s, %s) = %s" % (data, f, (lo, hi)))
    m = dimension_info(data)
    order = [("get_dimensions", d), ("get_width", [max(p[k] for p in data) - min(p[k] for p in data) for k in range(d)]), ("get_center", [(max(p[k] for p in data) + min(p[k] for p in data)) / 2.0 for k in range(d)]),
             ("get_maximum_coordinate", [max(p[k] for p in data) for k in range(d)]), ("get_minimum_coordinate", [min(p[k] for p in data) for k in range(d)])]
    for name, w in order[len(c["a"]) % 5:] + order:
        expect(getattr(m, name)() == w, lambda: "dimension_info(%s).%s() = %s" % (data, name, getattr(m, name)()))
    if n > 1:
        q = c["neigh"]
        w = sum(sum(sorted(math.sqrt(sq(x, y)) for j, y in enumerate(data) if j != i)[:q]) for i, x in enumerate(data)) / (q * n)
        expect(near(U.average_neighbor_distance(data, q), w, big), lambda: "average_neighbor_distance(%s, %d) = %r, should be %r" % (data, q, U.average_neighbor_distance(data, q), w))
    A, B = [data[j] for j in c["a"]], [data[j] for j in c["b"]]
    args = (A, B) if c["direct"] else (c["a"], c["b"], data)
    w = math.sqrt(sum(sq(x, y) for x in A for y in B) / (len(A) * len(B)))
    expect(near(U.average_inter_cluster_distance(*args), w, big), lambda: "average_inter_cluster_distance%s = %r, should be %r" % (args, U.average_inter_cluster_distance(*args), w))
    P = A + B
    w = math.sqrt(sum(sq(x, y) for x in P for y in P) / (len(P) * (len(P) - 1)))
    expect(near(U.average_intra_cluster_distance(*args), w, big), lambda: "average_intra_cluster_distance%s = %r, should be %r" % (args, U.average_intra_cluster_distance(*args), w))
    mean = lambda q: [sum(Fraction(p[k]) for p in q) / len(q) for k in range(d)]
    sse = lambda q: sum((Fraction(x) - y) ** 2 for p in q for x, y in zip(p, mean(q)))
    w = sse(P) - sse(A) - sse(B)
    expect(near(U.variance_increase_distance(*args), w, len(P) * big * big), lambda: "variance_increase_distance%s = %r, should be %r" % (args, U.variance_increase_distance(*args), float(w)))
    x, y, k = data[0], data[-1], c["number"]
    for name, arg, w in [("subtraction", y, [p - q for p, q in zip(x, y)]), ("addition", y, [p + q for p, q in zip(x, y)]), ("multiplication", y, [p * q for p, q in zip(x, y)]),
                         ("substraction_number", k, [p - k for p in x]), ("addition_number", k, [p + k for p in x]), ("multiplication_number", k, [p * k for p in x]), ("division_number", k, [p / k for p in x])]:
        got = getattr(U, "list_math_" + name)(x, arg)
        expect(got == w, lambda: "list_math_%s(%s, %s) = %s" % (name, x, arg, got))
    if all(y):
        expect(U.list_math_division(x, y) == [p / q for p, q in zip(x, y)], "list_math_division(%s, %s) = %s" % (x, y, U.list_math_division(x, y)))
    expect(near(U.norm_vector(x), math.sqrt(sum(p * p for p in x))), lambda: "norm_vector(%s) = %r" % (x, U.norm_vector(x)))
    expect(U.heaviside(x[0]) == (1.0 if x[0] > 0 else 0.0), lambda: "heaviside(%r) = %r" % (x[0], U.heaviside(x[0])))
    expect(near(U.euclidean_distance(x, y), math.sqrt(sq(x, y))) and near(U.euclidean_distance_square(x, y), sq(x, y)) and near(U.manhattan_distance(x, y), sum(abs(p - q) for p, q in zip(x, y))), lambda: "distances of %s and %s" % (x, y))
    mt = U.calculate_distance_matrix(data)
    expect(len(mt) == n and all(len(r) == n and all(near(r[j], math.sqrt(sq(data[i], data[j])), big) for j in range(n)) for i, r in enumerate(mt)), lambda: "calculate_distance_matrix(%s) = %s" % (data, mt))
    expect(data == c["data"], lambda: "the helpers change their argument %s to %s" % (c["data"], data))
    return n > 1


def g_sorted(rng, i):
    v = sorted(rng.choice([rng.randint(-3, 3), rng.randint(0, 30), rng.uniform(-2, 2)]) for _ in range(rng.randint(1, 24)))
    return {"values": v, "right": rng.randrange(len(v)), "pairs": rng.random() < 0.5}


def check_sorted(c):
    v, r = c["values"], c["right"]
    data = [[x, j] for j, x in enumerate(v)] if c["pairs"] else list(v)
    keep = copy.deepcopy(data)
    got = U.find_left_element(data, r, (lambda a, b: a[0] < b[0]) if c["pairs"] else (lambda a, b: a < b))
    expect(got == v.index(v[r]), lambda: "find_left_element(%s, %d) = %r, should be %d" % (v, r, got, v.index(v[r])))
    expect(data == keep, "find_left_element changes its argument")
    return len(v) > 1


def g_misc(rng, i):
    n = rng.randint(1, 9)
    kind = rng.choice(["sample", "graph", "oscillations", "grey"])
    c = {"kind": kind}
    if kind == "sample":
        c.update(data=[rng.choice([rng.randint(0, 9), rng.random()]) for _ in range(rng.randint(1, 40))], amount=rng.randint(1, 45), x=rng.random() < 0.5)
    elif kind == "graph":
        c.update(rows=[[rng.choice([0, 1]) for _ in range(n)] for _ in range(n)] if rng.random() < 0.5 else [[rng.randrange(n) for _ in range(rng.randint(0, n + 1))] for _ in range(n)])
    elif kind == "oscillations":
        c.update(dyn=[[rng.choice([0.0, 0.5, 1.5, 2.0]), rng.uniform(0, 2)] for _ in range(rng.randint(2, 25))], index=rng.randrange(2), threshold=rng.choice([1.0, 0.7]))
    else:
        c.update(pixels=[[rng.randint(0, 255) for _ in range(3)] for _ in range(rng.randint(0, 12))])
    return c


def check_misc(c):
    k = c["kind"]
    if k == "sample":
        d, n = list(c["data"]), c["amount"]
        f = reservoir_x if c["x"] else reservoir_r
        if n > len(d):
            try:
                f(d, n)
            except ValueError:
                return True
            expect(False, "a sample of %d out of %d elements is returned" % (n, len(d)))
        tagged = [(x, j) for j, x in enumerate(d)]
        r = f(tagged, n)
        expect(len(r) == n and len(set(r)) == n and set(r) <= set((x, j) for j, x in enumerate(d)), lambda: "sample %s of %s" % (r, d))
        expect(tagged == [(x, j) for j, x in enumerate(d)], "the sampled list is changed")
    elif k == "graph":
        rows = c["rows"]
        g = graph(copy.deepcopy(rows))
        square = all(len(r) == len(rows) for r in rows) and all(x in (0, 1) for r in rows for x in r)
        expect(g.type_graph_descr == (type_graph_descr.GRAPH_MATRIX_DESCR if square else type_graph_descr.GRAPH_VECTOR_DESCR), lambda: "description %s of the graph %s" % (g.type_graph_descr, rows))
        expect(len(g) == len(rows) and g.data == rows and g.space_description is None, "the graph reports other data")
    elif k == "oscillations":
        v, t = [x[c["index"]] for x in c["dyn"]], c["threshold"]
        high, last = v[0] > t, 0
        drops = []
        edges = 0
        for x in v:
            h = (x >= t) if not high else not (x < t)
            if h != high:
                edges += 1
                drops.append(not h)
            high = h
        n, wait = 0, False
        for falling in drops:
            if wait and falling:
                n, wait = n + 1, False
            else:
                wait = True
        got = U.extract_number_oscillations(copy.deepcopy(c["dyn"]), c["index"], t)
        expect(got == n, lambda: "extract_number_oscillations(%s, threshold %s) = %r, should be %d" % (v, t, got, n))
    else:
        got = U.rgb2gray(copy.deepcopy(c["pixels"]))
        expect(len(got) == len(c["pixels"]) and all(near(x, 0.2989 * p[0] + 0.587 * p[1] + 0.114 * p[2]) for x, p in zip(got, c["pixels"])), lambda: "rgb2gray(%s) = %s" % (c["pixels"], got))
    return True


TARGETS = [Target("points", g_points, check_points, weight=2), Target("find_left_element", g_sorted, check_sorted), Target("samples, graphs, dynamics", g_misc, check_misc)]
