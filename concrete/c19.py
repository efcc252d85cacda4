from .base import Target, expect
from . import gen, oracle
from .cppdrv import Driver
from pyclustering.cluster.kmeans import kmeans
from pyclustering.cluster.kmedians import kmedians
from pyclustering.cluster.kmedoids import kmedoids
from pyclustering.cluster.fcm import fcm

DRV = {n: Driver("parallel", n) for n in (8, 1, 2)}      # number of processors the C++ run-time reports


def g_loop(rng, i):
    op = rng.choice("FFFFFFPEEEEN")
    t = rng.choice("zliu")
    step = rng.choice([1, 1, 1, 2, 3, rng.randint(1, 12)])
    n = rng.choice([0, 1, 2, rng.randint(0, 12), rng.randint(0, 70), rng.randint(0, 300)])
    threads = rng.choice([0, 1, 2, 3, 4, rng.randint(1, 12), rng.randint(1, 20)])
    b = rng.choice([0, 0, 1, rng.randint(0, 20)])
    if t in "li" and rng.random() < 0.4:
        b = -rng.randint(1, 40)
    if op in "PEN":
        b, step = abs(b), 1
    if op == "N":
        b, n = 0, min(n, 12)
    if op == "E" and rng.random() < 0.3:
        t = "d"
        threads = threads or 4
    return {"op": op, "type": t, "begin": b, "end": b + n, "step": step, "threads": threads, "cpus": rng.choice([8, 8, 1, 2]), "delay": rng.choice([0, 0, 0, 0, 0, 20])}


def check_loop(c):
    b, e, s = c["begin"], c["end"], c["step"]
    r = DRV[c["cpus"]].ask("%s %s %d %d %d %d %d" % (c["op"], c["type"], b, e, s, c["threads"], c["delay"])).split()
    want = sorted(i * e + j for i in range(b, e) for j in range(e)) if c["op"] == "N" else list(range(b, e, s))
    expect(r[:1] != ["EXCEPTION"], "exception for a valid range")
    got = sorted(map(int, r))
    expect(got == want, lambda: "calls of the body after return: missing %s, unexpected or repeated %s" % (
        sorted(set(want) - set(got))[:8], [x for x in sorted(set(got)) if got.count(x) > 1 or x not in want][:8]))
    return e - b > 1


def g_alg(rng, i):
    data = gen.points(rng, i, nmin=4, nmax=rng.choice([10, 40, 90]))
    k = rng.randint(1, 4)
    return {"alg": rng.choice(["kmeans", "kmedians", "kmedoids", "fcm"]), "data": data, "centres": gen.centres(rng, data, k), "medoids": rng.sample(range(len(data)), min(k, len(data)))}


def run(c):
    if c["alg"] == "kmeans":
        a = kmeans(c["data"], c["centres"], ccore=True).process()
        return [a.get_clusters(), a.get_centers(), a.get_total_wce()]
    if c["alg"] == "kmedians":
        a = kmedians(c["data"], c["centres"], ccore=True).process()
        return [a.get_clusters(), a.get_medians(), a.get_total_wce()]
    if c["alg"] == "kmedoids":
        a = kmedoids(c["data"], c["medoids"], ccore=True).process()
        return [a.get_clusters(), a.get_medoids()]
    a = fcm(c["data"], c["centres"], ccore=True).process()
    return [a.get_clusters(), a.get_centers(), a.get_membership()]


def check_alg(c):
    """the parallel algorithms return the same result on every run of the same input"""
    first = run(c)
    for _ in range(2):
        expect(run(c) == first, "%s: two runs for the same input differ" % c["alg"])
    return len(c["data"]) > 4


TARGETS = [Target("parallel_for", g_loop, check_loop, weight=3), Target("algorithms", g_alg, check_alg)]
