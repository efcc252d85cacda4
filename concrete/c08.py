"""histories of insertions, removals and queries against a plain list"""
import numpy
from .base import Target, expect
from . import gen
from .cppdrv import Driver
from pyclustering.container.kdtree import kdtree, kdtree_balanced

DRV = Driver("kdtree")


def g(balanced, nmax):
    def f(rng, i):
        data = gen.points(rng, i, nmax=nmax)
        d = len(data[0])
        start = data if balanced else data[:rng.choice([0, 0, 1, len(data)])]
        hist = []
        live = [list(p) + [k] for k, p in enumerate(start, 1)]
        pid = len(start)
        for _ in range(rng.randint(3, 40)):
            op = rng.choice(["F", "G", "Q", "U", "N"] if balanced else ["I", "I", "I", "I", "R", "P", "P", "F", "G", "Q", "U", "N", "D"])
            q = list(rng.choice(data))
            if rng.random() < 0.3:
                q = [x + rng.choice([0.0, 0.5, 1.0, -1.0]) for x in q]
            if op == "I":
                pid += 1
                live.append(q + [pid])
                hist.append([op, q, pid])
            elif op in ("P", "G"):
                if live and rng.random() < 0.85:
                    x = rng.choice(live)
                    q, k = x[:-1], x[-1]
                    if op == "P":
                        live.remove(x)
                else:
                    k = rng.randint(1, pid + 2)
                hist.append([op, q, k])
            elif op in ("R", "F"):
                if live and rng.random() < 0.85:
                    q = rng.choice(live)[:-1]
                hist.append([op, q])
            elif op == "D":
                hist.append([op])
            else:
                hist.append([op, q, rng.choice([0.0, 0.5, 1.0, 2.0, 5.0, 100.0, rng.uniform(0, 6)])])
        hist.append(["D"])
        return {"balanced": balanced, "start": start, "history": hist, "dim": d, "numpy": rng.random() < 0.2}
    return f


def sq(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


class Model:
    """the stored points: {payload: point}; the tree decides which of equal points a removal without payload takes"""

    def __init__(self, c):
        self.live = {k: p for k, p in enumerate(c["start"], 1)}

    def tree(self, size, preorder):
        """preorder: nested (point, payload, disc, parent_ok, left, right) or None"""
        got = []

        def rec(n, lo, hi, what):
            if n is None:
                return
            p, k, disc, ok, l, r = n
            expect(ok, lambda: "the parent of a child of node %s is another node" % (p,))
            expect(0 <= disc < len(p), "discriminator %r" % (disc,))
            for d in range(len(p)):
                expect((lo[d] is None or p[d] >= lo[d]) and (hi[d] is None or p[d] < hi[d]), lambda: "node %s violates the order (coordinate %d in [%s, %s))" % (p, d, lo[d], hi[d]))
            got.append((k, list(p)))
            l2 = list(hi)
            l2[disc] = p[disc] if hi[disc] is None else min(p[disc], hi[disc])
            rec(l, lo, l2, what)
            r2 = list(lo)
            r2[disc] = p[disc] if lo[disc] is None else max(p[disc], lo[disc])
            rec(r, r2, hi, what)
        d = len(preorder[0]) if preorder else 1
        rec(preorder, [None] * d, [None] * d, "")
        expect(sorted(got) == sorted((k, list(p)) for k, p in self.live.items()), lambda: "the tree holds %s, inserted and not removed are %s" % (sorted(got), sorted(self.live.items())))
        expect(size == len(self.live), "length %d, %d points stored" % (size, len(self.live)))

    def removed(self, q, now, k=None):
        """after removal of q: `now` = payloads stored"""
        cand = [x for x, p in self.live.items() if p == q and (k is None or x == k)]
        gone = set(self.live) - set(now)
        expect(len(now) == len(set(now)) and not set(now) - set(self.live), "a removal adds points: %s, stored were %s" % (now, self.live))
        expect(len(gone) == min(1, len(cand)) and gone <= set(cand), lambda: "removal of %s (payload %s) takes %s, candidates %s" % (q, k, sorted(gone), cand))
        for x in gone:
            del self.live[x]

    def find(self, q, k, got):
        cand = [x for x, p in self.live.items() if p == q and (k is None or x == k)]
        expect((got is None and not cand) or got in cand, lambda: "search of %s (payload %s) finds %s, stored %s" % (q, k, got, cand))

    def near(self, q, r, pairs):
        want = {x: sq(p, q) for x, p in self.live.items()}
        ks = [k for k, _ in pairs]
        expect(len(ks) == len(set(ks)), "a stored point is reported twice: %s" % ks)
        for k, d in pairs:
            expect(k in want and abs(want[k] - d) <= 1e-9 * (1 + d), lambda: "point with payload %s at square distance %r, it is at %r" % (k, d, want.get(k)))
            expect(want[k] <= r * r * (1 + 1e-12), "point at %r is reported within %r" % (want[k] ** 0.5, r))
        for k, d in want.items():
            expect(k in ks or d > r * r * (1 - 1e-12), lambda: "point %s at distance %r is not reported within %r of %s" % (self.live[k], d ** 0.5, r, q))

    def nearest(self, q, r, k):
        want = {x: sq(p, q) for x, p in self.live.items()}
        inside = [d for d in want.values() if d <= r * r * (1 - 1e-12)]
        if k is None:
            expect(not inside, lambda: "no point is found within %r of %s, one is at %r" % (r, q, min(inside) ** 0.5))
            return
        expect(k in want, "payload %s is not stored" % k)
        if inside:
            expect(want[k] <= min(inside) * (1 + 1e-12), lambda: "the nearest point found is at %r, one is at %r" % (want[k] ** 0.5, min(inside) ** 0.5))


def py_tree(n, seen=None):
    if n is None:
        return None
    ok = (n.left is None or n.left.parent is n) and (n.right is None or n.right.parent is n)
    return (list(map(float, n.data)), n.payload, n.disc, ok, py_tree(n.left), py_tree(n.right))


def payloads(n):
    return [] if n is None else [n[1]] + payloads(n[4]) + payloads(n[5])


def check_py(c):
    m = Model(c)
    V = numpy.array if c["numpy"] else (lambda p: p)
    t = (kdtree_balanced if c["balanced"] else kdtree)([V(p) for p in c["start"]], list(range(1, len(c["start"]) + 1))) if c["start"] else kdtree()
    if c["start"]:
        expect(t.get_root().parent is None, "the root has a parent")
        m.tree(len(t), py_tree(t.get_root()))
    mod = 0
    for h in c["history"]:
        op = h[0]
        if op == "I":
            nd = t.insert(V(h[1]), h[2])
            expect(nd is not None and list(nd.data) == h[1] and nd.payload == h[2], "insert returns %s" % nd)
            m.live[h[2]] = h[1]
            mod += 1
        elif op in ("R", "P"):
            had = [x for x, p in m.live.items() if p == h[1] and (op == "R" or x == h[2])]
            r = t.remove(V(h[1])) if op == "R" else t.remove(V(h[1]), payload=h[2])
            m.removed(h[1], payloads(py_tree(t.get_root())), h[2] if op == "P" else None)
            expect(r is (t.get_root() if had else None), "remove returns %s" % r)
            mod += 1
        elif op == "F":
            n = t.find_node(V(h[1]))
            m.find(h[1], None, None if n is None else n.payload)
        elif op == "G":
            n = t.find_node_with_payload(V(h[1]), h[2])
            m.find(h[1], h[2], None if n is None else n.payload)
        elif op in ("Q", "U"):
            m.near(h[1], h[2], [(n.payload, float(d)) for d, n in t.find_nearest_dist_nodes(V(h[1]), h[2])])
        elif op == "N":
            n = t.find_nearest_dist_node(V(h[1]), h[2])
            m.nearest(h[1], h[2], None if n is None else n.payload)
            r = t.find_nearest_dist_node(V(h[1]), h[2], True)
            if n is not None:
                expect(r[1] is n and abs(r[0] - sq(n.data, h[1])) < 1e-9 * (1 + r[0]), "nearest with distance: %s" % (r,))
                expect(sq(n.data, h[1]) <= h[2] ** 2 * (1 + 1e-12), "the nearest point reported is outside the radius")
        if op in ("D", "R", "P"):
            root = t.get_root()
            expect(root is None or root.parent is None, "the root has a parent")
            m.tree(len(t), py_tree(root))
    return mod > 2 or c["balanced"]


def num(x):
    return "%.17g" % x


def parse(tok):
    t = tok.pop(0)
    if t == ".":
        return None
    assert t == "("
    raw = []
    while tok[0] not in ("(", "."):
        raw.append(tok.pop(0))
    l, r = parse(tok), parse(tok)
    assert tok.pop(0) == ")"
    return ([float(x) for x in raw[:-3]], int(raw[-3]), int(raw[-2]), raw[-1] == "1", l, r)


def check_cpp(c):
    m = Model(c)
    cmd = [0 if c["balanced"] else 1, c["dim"], len(c["start"])]
    for k, p in enumerate(c["start"], 1):
        cmd += [num(x) for x in p] + [k]
    hist = [["D"]]
    for h in c["history"]:
        hist.append(h)
        if h[0] in ("R", "P"):
            hist.append(["D"])
    for h in hist:
        cmd.append(h[0])
        if len(h) > 1:
            cmd += [num(x) for x in h[1]]
        if len(h) > 2:
            cmd.append(num(h[2]) if h[0] in ("N", "Q", "U") else h[2])
    out = DRV.ask(" ".join(map(str, cmd))).split("\t")
    pend = None
    for h, o in zip(hist, out):
        tok = o.split()
        expect(tok and tok[0] == h[0], "driver out of step: %s / %s" % (h, o))
        op = h[0]
        if op == "I":
            expect(int(tok[1]) == h[2], "insert returns %s" % tok)
            m.live[h[2]] = h[1]
        elif op in ("R", "P"):
            pend = h
        elif op == "D":
            size = int(tok[1])
            tr = parse(tok[2:])
            if pend:
                m.removed(pend[1], payloads(tr), pend[2] if pend[0] == "P" else None)
                pend = None
            m.tree(size, tr)
        elif op in ("F", "G"):
            m.find(h[1], h[2] if op == "G" else None, None if int(tok[1]) == -1 else int(tok[1]))
        elif op in ("Q", "U"):
            v = tok[1:]
            m.near(h[1], h[2], [(int(v[i]), float(v[i + 1])) for i in range(0, len(v), 2)])
        elif op == "N" and len(tok) > 1:
            expect(int(tok[1]) != -1, "no nearest node in a tree that is not empty")
            m.nearest(h[1], h[2], int(tok[1]))
    return True


TARGETS = [Target("py.kdtree", g(False, 14), check_py, 2), Target("py.balanced", g(True, 20), check_py), Target("cpp.kdtree", g(False, 14), check_cpp, 2), Target("cpp.balanced", g(True, 20), check_cpp)]
