import copy
import math
import numpy
from .base import Target, expect
from . import gen
from pyclustering.container.cftree import cftree, cfentry, measurement_type, cfnode_type
from pyclustering.utils import linear_sum, square_sum

MT = list(measurement_type)


def sq(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def mean(ps):
    return [sum(p[d] for p in ps) / len(ps) for d in range(len(ps[0]))]


def mag(ps):
    return 1 + max(abs(x) for p in ps for x in p)


def dist(t, A, B):
    """the documented measures on the points themselves"""
    ca, cb = mean(A), mean(B)
    if t == 0:
        return sq(ca, cb)
    if t == 1:
        return sum(abs(x - y) for x, y in zip(ca, cb))
    if t == 2:
        return math.sqrt(sum(sq(a, b) for a in A for b in B) / (len(A) * len(B)))
    U = A + B
    if t == 3:
        return math.sqrt(sum(sq(a, b) for a in U for b in U) / (len(U) * (len(U) - 1)))
    cu = mean(U)
    return sum(sq(x, cu) for x in U) - sum(sq(x, ca) for x in A) - sum(sq(x, cb) for x in B)


def entry(ps, nump=False):
    ps = numpy.array(ps) if nump else ps
    return cfentry(len(ps), linear_sum(ps), square_sum(ps))


def is_feature(e, ps, what):
    m = mag(ps)
    expect(e.number_points == len(ps), lambda: "%s counts %d points, has %d" % (what, e.number_points, len(ps)))
    for d in range(len(ps[0])):
        expect(abs(e.linear_sum[d] - sum(p[d] for p in ps)) <= 1e-9 * len(ps) * m, lambda: "%s: linear sum %s of %s" % (what, e.linear_sum, ps))
    expect(abs(e.square_sum - sum(x * x for p in ps for x in p)) <= 1e-9 * len(ps) * m * m, lambda: "%s: square sum %s of %s" % (what, e.square_sum, ps))


def g_feat(rng, i):
    a = gen.points(rng, i, nmax=8)
    d = len(a[0])
    b = gen.points(rng, i, nmax=8, dmin=d, dmax=d)
    return {"a": a, "b": b, "numpy": False}


def near(x, y, scale):
    """x = sqrt(v + error): compare the squares"""
    if isinstance(x, complex) or x != x:
        return y * y <= 1e-9 * scale * scale
    return abs(x * x - y * y) <= 1e-8 * scale * scale


def check_feat(c):
    A, B = c["a"], c["b"]
    a, b = entry(A, c["numpy"]), entry(B, c["numpy"])
    is_feature(a, A, "feature")
    is_feature(b, B, "feature")
    u = a + b
    is_feature(u, A + B, "the merged feature")
    is_feature(a, A, "feature after the merge")
    is_feature(b, B, "feature after the merge")
    is_feature(copy.copy(a), A, "copied feature")
    s = mag(A + B) * len(A + B)
    for E, P in ((a, A), (b, B), (u, A + B)):
        cn = E.get_centroid()
        expect(all(abs(x - y) <= 1e-9 * s for x, y in zip(cn, mean(P))), lambda: "centroid %s of %s" % (cn, P))
        expect(near(E.get_radius(), math.sqrt(sum(sq(p, mean(P)) for p in P) / len(P)), s), lambda: "radius %r of %s" % (E.get_radius(), P))
        dm = math.sqrt(sum(sq(p, q) for p in P for q in P) / (len(P) * (len(P) - 1))) if len(P) > 1 else 0.0
        expect(near(E.get_diameter(), dm, s), lambda: "diameter %r of %s, from the points %r" % (E.get_diameter(), P, dm))
        again = (list(E.get_centroid()), E.get_diameter())
        expect(again == (list(cn), E.get_diameter()), "a second call returns another value")
    for t in range(5):
        for X, Y, P, Q in ((a, b, A, B), (b, a, B, A)):
            x, y = X.get_distance(Y, MT[t]), dist(t, P, Q)
            ok = near(x, y, s) if t in (2, 3) else abs(x - y) <= 1e-8 * s * s
            expect(ok, lambda: "%s of features is %r, of the points %r" % (MT[t].name, x, y))
    return len(A) > 1 or len(B) > 1


def g_tree(rng, i):
    pts = gen.points(rng, i, nmax=60)
    return {"points": pts, "branch": rng.choice([1, 2, 2, 3, 4, 5, 10]), "entries": rng.choice([1, 1, 2, 3, 5, 20]), "threshold": rng.choice([0.0, 0.0, 0.1, 0.5, 1.0, 3.0]), "measure": rng.randrange(5), "group": rng.choice([1, 1, 1, 2, 3]), "numpy": False}


def check_tree(c):
    t = cftree(c["branch"], c["entries"], c["threshold"], MT[c["measure"]])
    done = []
    P = c["points"]
    g_ = c["group"]
    q = 0
    cuts = set(range(0, len(P), 1 if len(P) < 15 else 5)) | {len(P)}
    while q < len(P):
        part = P[q:q + g_]
        if g_ == 1:
            t.insert_point(numpy.array(part[0]) if c["numpy"] else part[0])
        else:
            t.insert(entry(part))
        done += part
        q += g_
        if q in cuts or q >= len(P):
            tree_ok(t, done, c, g_)
    return len(done) > 2


def tree_ok(t, done, c, g_):
    leaves, nodes, depth = [], [0], []

    def rec(n, parent, level):
        nodes[0] += 1
        expect(n.parent is parent, "a node at level %d has a wrong parent" % level)
        if n.type == cfnode_type.CFNODE_LEAF:
            depth.append(level)
            leaves.append(n)
            expect(1 <= len(n.entries) <= max(1, c["entries"]), "a leaf holds %d entries, at most %d allowed" % (len(n.entries), c["entries"]))
            parts = n.entries
            if g_ == 1:
                for e in n.entries:
                    expect(e.number_points == 1 or e.get_diameter() <= c["threshold"] + 1e-9, "an entry of %d points has diameter %r, threshold %r" % (e.number_points, e.get_diameter(), c["threshold"]))
        else:
            expect(1 <= len(n.successors) <= max(2, c["branch"]), "a node has %d successors, branching factor %d" % (len(n.successors), c["branch"]))
            for s in n.successors:
                rec(s, n, level + 1)
            parts = [s.feature for s in n.successors]
        num = sum(e.number_points for e in parts)
        expect(n.feature.number_points == num, "a node counts %d points, below it are %d" % (n.feature.number_points, num))
        m = mag(done) * len(done)
        for d in range(len(done[0])):
            s = sum(e.linear_sum[d] for e in parts)
            expect(abs(s - n.feature.linear_sum[d]) <= 1e-9 * m, lambda: "the linear sum of a node is %s, below it %r" % (n.feature.linear_sum, s))
        s = sum(e.square_sum for e in parts)
        expect(abs(s - n.feature.square_sum) <= 1e-9 * m * m, lambda: "the square sum of a node is %r, below it %r" % (n.feature.square_sum, s))
    rec(t.root, None, 0)
    is_feature(t.root.feature, done, "the root")
    ents = [e for l in leaves for e in l.entries]
    expect(sum(e.number_points for e in ents) == len(done), "the leaf entries account for %d of %d points" % (sum(e.number_points for e in ents), len(done)))
    expect(len(t.leafes) == len(leaves) and {id(x) for x in t.leafes} == {id(x) for x in leaves}, "%d leaves are registered, the tree has %d" % (len(t.leafes), len(leaves)))
    expect(t.amount_entries == len(ents), "amount of entries is %d, leaves hold %d" % (t.amount_entries, len(ents)))
    expect(len(set(depth)) == 1 and t.height == depth[0] + 1, "height %d, leaves at %s" % (t.height, sorted(set(depth))))
    expect(t.amount_nodes == nodes[0], "amount of nodes is %d, the tree has %d" % (t.amount_nodes, nodes[0]))
    lv = sum(len(t.get_level_nodes(k)) for k in range(t.height))
    expect(lv == nodes[0], "the levels hold %d nodes, the tree %d" % (lv, nodes[0]))
    e = entry([done[-1]])
    l = t.find_nearest_leaf(e)
    expect(any(l is x for x in leaves), "the nearest leaf is no leaf of the tree")
    if l.entries:
        k = l.get_nearest_index_entry(e, MT[c["measure"]])
        ds = [x.get_distance(e, MT[c["measure"]]) for x in l.entries]
        if all(x == x for x in ds):
            expect(0 <= k < len(ds) and ds[k] <= min(ds) + 1e-12 and l.get_nearest_entry(e, MT[c["measure"]]) is not None, "entry %d at %r is reported nearest of %s" % (k, ds[k], ds))


TARGETS = [Target("cfentry", g_feat, check_feat), Target("cftree", g_tree, check_tree, 3)]
