import math
from .base import Target, expect
from .cppdrv import Driver
from pyclustering.nnet import network, conn_type, conn_represent

DRV = Driver("adjacency")
TYPES = ["NONE", "ALL_TO_ALL", "GRID_FOUR", "GRID_EIGHT", "LIST_BIDIR"]


def structure(t, n, w, h):
    r = set()
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            if t == "ALL_TO_ALL":
                c = True
            elif t == "LIST_BIDIR":
                c = abs(i - j) == 1
            elif t in ("GRID_FOUR", "GRID_EIGHT"):
                dx, dy = abs(i % w - j % w), abs(i // w - j // w)
                c = dx + dy == 1 if t == "GRID_FOUR" else max(dx, dy) == 1
            else:
                c = False
            if c:
                r.add((i, j))
    return r


def shifted(t, n, w):
    """The grid of the recorded finding: the Python network takes ceil(index / width) as the row
    of a node when it connects left and right neighbours, so a row starts one node too late."""
    r = {(i, j) for i, j in structure(t, n, w, 0) if abs(i // w - j // w)}
    for i in range(n - 1):
        if math.ceil(i / w) == math.ceil((i + 1) / w):
            r |= {(i, i + 1), (i + 1, i)}
    return r


def shape(rng, t, i):
    if t.startswith("GRID"):
        if rng.random() < 0.5:
            s = rng.randint(1, 5 if i < 50 else 9)
            return s * s, 0, 0
        w, h = rng.randint(1, 7), rng.randint(1, 7)
        return w * h, w, h
    return rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(60, 70)]), 0, 0


def g_py(rng, i):
    t = rng.choice(TYPES + ["DYNAMIC"])
    n, w, h = shape(rng, t, i)
    ops = [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, 8))] if t == "DYNAMIC" else []
    return {"type": t, "n": n, "w": w, "h": h, "repr": rng.choice(["LIST", "MATRIX", None]), "set": ops}


def side(c):
    return c["w"] or int(math.isqrt(c["n"]))


def check_py(c):
    n = c["n"]
    kw = {"height": c["h"], "width": c["w"]} if c["w"] else {}
    a = network(n, getattr(conn_type, c["type"]), getattr(conn_represent, c["repr"]) if c["repr"] else None, **kw)
    expect(len(a) == n and a.structure == getattr(conn_type, c["type"]), "size or structure reported")
    if c["type"].startswith("GRID"):
        expect((a.width, a.height) == ((c["w"], c["h"]) if c["w"] else (side(c), side(c))), "width and height reported")
    want = structure(c["type"], n, side(c), 0)
    key = None
    if c["type"].startswith("GRID"):
        known = shifted(c["type"], n, side(c))
        if known != want and all(bool(a.has_connection(i, j)) == ((i, j) in known) for i in range(n) for j in range(n)) \
                and all(sorted(set(a.get_neighbors(i))) == [j for j in range(n) if (i, j) in known] for i in range(n)):
            key = "grid-rows-shifted"
    for i, j in c["set"]:
        a.set_connection(i, j)
        want |= {(i, j), (j, i)}
    for i in range(n):
        got = a.get_neighbors(i)
        w = [j for j in range(n) if (i, j) in want]
        expect(sorted(set(got)) == w, lambda: "neighbours of node %d are %s, should be %s" % (i, got, w), key)
        expect(c["set"] or len(got) == len(w), lambda: "neighbours of node %d are repeated: %s" % (i, got), key)
        for j in range(n):
            expect(bool(a.has_connection(i, j)) == ((i, j) in want), lambda: "connection %d-%d is reported as %r" % (i, j, a.has_connection(i, j)), key)
    if c["type"] != "DYNAMIC" and n > 1:
        try:
            a.set_connection(0, 1)
        except NameError:
            pass
        else:
            expect(False, "a connection of a static structure is changed")
    return n > 1


def g_cpp(rng, i):
    t = rng.choice(TYPES)
    n, w, h = shape(rng, t, i)
    n0, rep = n, rng.randrange(5)
    ops = []
    for _ in range(rng.randint(0, 12)):
        o = rng.choice("sew") if rep in (1, 3, 4) and rep != 1 else rng.choice("se")
        x = [o, rng.randrange(n), rng.randrange(n)]
        if rng.random() < 0.3 and ops:
            x[1:3] = ops[-1][1:3]
        if o == "w":
            x.append(rng.choice([0.0, 1.5, -2.0, 3.0]))
        ops.append(x)
    return {"type": t, "n": n0, "w": w, "h": h, "rep": rep, "ops": ops}


def check_cpp(c):
    n = c["n"]
    r = DRV.ask("%d %d %d %d %d %s" % (c["rep"], TYPES.index(c["type"]), n, c["w"], c["h"], " ".join(" ".join(map(str, o)) for o in c["ops"])))
    expect(r != "EXCEPTION", "exception while creating the structure")
    size, has, neigh, weights = r.split("\t")
    want = structure(c["type"], n, side(c), 0)
    weighted = c["rep"] >= 3
    val = {x: 1.0 for x in want}
    free = set()          # weight after setting an existing connection again is not specified
    for o in c["ops"]:
        x = (o[1], o[2])
        if o[0] == "s":
            if x in val:
                free.add(x)
            val.setdefault(x, 1.0)
        elif o[0] == "e" or o[3] == 0.0:
            val.pop(x, None)
            free.discard(x)
        else:
            val[x] = o[3]
            free.discard(x)
    expect(int(size) == n, "size is %s, %d nodes" % (size, n))
    names = ["bit matrix", "matrix", "list", "weight matrix", "weight list"]
    for i in range(n):
        for j in range(n):
            expect((has[i * n + j] == "1") == ((i, j) in val), lambda: "%s: connection %d-%d is reported as %s" % (names[c["rep"]], i, j, has[i * n + j]))
    for i, l in enumerate(neigh.split(";")[:n]):
        got = sorted(map(int, l.split()))
        w = [j for j in range(n) if (i, j) in val]
        expect(got == w, lambda: "%s: neighbours of node %d are %s, should be %s" % (names[c["rep"]], i, got, w))
    if weighted:
        wt = list(map(float, weights.split()))
        for i in range(n):
            for j in range(n):
                x = wt[i * n + j]
                expect((i, j) in free or x == val.get((i, j), 0.0), lambda: "%s: weight %d-%d is %r, should be %r" % (names[c["rep"]], i, j, x, val.get((i, j), 0.0)))
    return n > 1


TARGETS = [Target("network", g_py, check_py), Target("adjacency.cpp", g_cpp, check_cpp)]
