import pickle
from .base import Target, expect
from .gen import points
from .oracle import partition
from pyclustering.nnet.som import som, som_parameters, type_conn, type_init
from pyclustering.cluster.somsc import somsc


def g(rng, i):
    data = points(rng, i, 1, 16)
    d = len(data[0])
    ps = [list(rng.choice(data)) if rng.random() < 0.4 else [rng.uniform(-12, 12) for _ in range(d)] for _ in range(rng.randint(1, 4))]
    return {"data": data, "rows": rng.randint(1, 4), "cols": rng.randint(1, 4), "conn": rng.choice(["grid_four", "grid_eight", "honeycomb", "func_neighbor"]), "patterns": ps,
            "init": rng.choice(["random", "random_centroid", "random_surface", "uniform_grid", "uniform_grid"]), "rate": rng.choice([0.1, 0.5, 0.01, 1.0]), "radius": rng.choice([None, None, 1.0, 3.0]),
            "epochs": rng.choice([1, 2, 5, 20]), "stop": rng.random() < 0.5, "state": rng.choice([None, 1, 5, 1000]), "ccore": rng.random() < 0.5, "again": rng.choice([None, None, None, "same", "other"]),
            "thr": rng.choice([0.001, 0.5]), "pickle": rng.random() < 0.2, "data2": points(rng, i, 1, 10)}


def sq(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def nearest(net, w, p):
    k = net.simulate(p)
    expect(isinstance(k, int) and 0 <= k < len(w), lambda: "winner %r of %d neurons" % (k, len(w)))
    best = min(sq(x, p) for x in w)
    expect(sq(w[k], p) <= best + 1e-9 * (1 + best), lambda: "neuron %d %s wins for %s at distance %r, the nearest is at %r" % (k, w[k], p, sq(w[k], p), best))


def state(net, c, n, dim):
    size = c["rows"] * c["cols"]
    expect(net.size == size == len(net), "amount of neurons")
    w, a, cap = [list(x) for x in net.weights], list(net.awards), [list(x) for x in net.capture_objects]
    expect(len(w) == len(a) == len(cap) == size and all(len(x) == dim for x in w), lambda: "%d weights %d awards %d captures, %s" % (len(w), len(a), len(cap), w))
    partition(cap, n, "captured objects")
    expect(a == [len(x) for x in cap], lambda: "awards %s, captured %s" % (a, cap))
    expect(net.get_winner_number() == sum(x > 0 for x in a), lambda: "%r winners, awards %s" % (net.get_winner_number(), a))
    return w


def check(c):
    p = som_parameters()
    p.init_type, p.init_learn_rate, p.adaptation_threshold = getattr(type_init, c["init"]), c["rate"], c["thr"]
    p.init_radius, p.random_state = c["radius"], c["state"]
    net = som(c["rows"], c["cols"], getattr(type_conn, c["conn"]), p, c["ccore"])
    data = c["data"]
    e = net.train(data, c["epochs"], c["stop"])
    expect(1 <= e <= c["epochs"], lambda: "%r epochs of %d" % (e, c["epochs"]))
    if c["again"] == "same":
        net.train(data, c["epochs"], c["stop"])
    elif c["again"] == "other":
        data = c["data2"]
        net.train(data, c["epochs"], not c["stop"])
    w = state(net, c, len(data), len(data[0]))
    pats = [q for q in c["patterns"] if len(q) == len(data[0])] + data[:3]
    for q in pats:
        nearest(net, w, q)
    state(net, c, len(data), len(data[0]))
    expect([list(x) for x in net.weights] == w, "simulating changes the weights")
    if c["pickle"]:
        net = pickle.loads(pickle.dumps(net))
        expect([list(x) for x in net.weights] == w, "weights of the restored map")
        state(net, c, len(data), len(data[0]))
        for q in pats:
            nearest(net, w, q)
    return len(data) > 1


def g_sc(rng, i):
    data = points(rng, i, 1, 18)
    return {"data": data, "k": rng.randint(1, 6), "epoch": rng.choice([1, 3, 20, 100]), "ccore": rng.random() < 0.5, "state": rng.choice([None, 3, 77])}


def check_sc(c):
    data = [list(x) for x in c["data"]]
    a = somsc(data, c["k"], c["epoch"], c["ccore"], random_state=c["state"]).process()
    cl = a.get_clusters()
    partition(cl, len(data))
    expect(len(cl) == c["k"], lambda: "%d clusters, %d requested" % (len(cl), c["k"]))
    lab = a.predict(data)
    expect(len(lab) == len(data) and all(0 <= x < c["k"] for x in lab), lambda: "prediction %s" % lab)
    expect(data == c["data"], "the data is changed")
    return len(data) > 1


TARGETS = [Target("som", g, check, 3), Target("somsc", g_sc, check_sc)]
