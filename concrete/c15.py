import copy
from .base import Target, expect
from pyclustering.gcolor.dsatur import dsatur


def g(rng, i):
    n = rng.randint(1, min(14, 2 + i // 6))
    kind = rng.choice(["random", "random", "random", "tree", "cycle", "bipartite", "complete", "wheel", "empty"])
    m = [[0] * n for _ in range(n)]
    p = rng.random()
    for a in range(n):
        for b in range(a):
            e = {"random": rng.random() < p, "tree": False, "cycle": a - b == 1 or (b == 0 and a == n - 1), "bipartite": (a + b) % 2 == 1 and rng.random() < 0.7, "complete": rng.random() < 0.95,
                 "wheel": b == 0 or a - b == 1 or (b == 1 and a == n - 1), "empty": False}[kind]
            if e:
                m[a][b] = m[b][a] = 1
        if kind == "tree" and a:
            b = rng.randrange(a)
            m[a][b] = m[b][a] = 1
    perm = list(range(n))
    rng.shuffle(perm)
    return {"graph": [[m[perm[a]][perm[b]] for b in range(n)] for a in range(n)], "again": rng.random() < 0.2, "bool": rng.random() < 0.2}


def check(c):
    m = c["graph"]
    n = len(m)
    given = [[bool(x) for x in r] for r in m] if c["bool"] else copy.deepcopy(m)
    a = dsatur(given)
    a.process()
    if c["again"]:
        a.process()
    col = a.get_colors()
    expect(len(col) == n, lambda: "%d colours for %d vertices" % (len(col), n))
    for v in range(n):
        expect(isinstance(col[v], int) and col[v] >= 1, lambda: "vertex %d has the colour %r" % (v, col[v]))
        for w in range(n):
            expect(not m[v][w] or col[v] != col[w], lambda: "adjacent vertices %d and %d have the colour %d: %s" % (v, w, col[v], col))
    top = max(sum(r) for r in m)
    expect(len(set(col)) <= top + 1 and max(col) <= top + 1, lambda: "%s: more colours than the largest degree %d plus one" % (col, top))
    expect(given == m, "the graph is changed")
    return sum(map(sum, m)) > 0


TARGETS = [Target("dsatur", g, check)]
