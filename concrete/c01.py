from .base import Target, expect
from . import gen, centre
from .oracle import partition


def check(c):
    r = centre.run(c)
    n = len(c["data"])
    nonempty = c["alg"] in ("kmeans", "kmedians", "xmeans", "gmeans")
    partition(r["clusters"], n, c["alg"] + " clusters", nonempty)
    k = len(r["clusters"])
    top = {"kmeans": "centers", "kmedians": "centers", "fcm": "centers", "kmedoids": "medoids"}.get(c["alg"])
    if top:
        expect(k <= len(c[top]), "%d clusters from %d initial centres" % (k, len(c[top])))
    elif c["alg"] in ("clarans", "ema"):
        expect(k <= c["k"], "%d clusters, %d requested" % (k, c["k"]))
    elif c["alg"] == "xmeans":
        expect(k <= c["kmax"], "%d clusters, kmax=%d" % (k, c["kmax"]))
    elif c["kmax"] != -1:
        expect(k <= c["kmax"], "%d clusters, kmax=%d" % (k, c["kmax"]))
    if r.get("observer") is not None:
        for t in range(len(r["observer"])):
            partition(r["observer"].get_clusters(t), n, "observed clusters", True)
    if "labels" in r:
        for j, cl in enumerate(r["clusters"]):
            pass
    return n > 1 and k > 1


TARGETS = [Target("kmeans", centre.g_centre("kmeans"), check, 2), Target("kmedians", centre.g_centre("kmedians"), check, 2), Target("kmedoids", centre.g_kmedoids, check, 2),
           Target("xmeans", centre.g_xmeans, check, 2), Target("gmeans", centre.g_gmeans, check, 2), Target("clarans", centre.g_clarans, check), Target("fcm", centre.g_fcm, check),
           Target("ema", centre.g_ema, check)]
