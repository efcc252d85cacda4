from vc.contract import Contract
from .common import *
from .centre import *
D = "len(self.__pointer_data)"
NP = {"self.__metric.enable_numpy_usage": {"args": [], "ret": "none"}, "self.__metric.disable_numpy_usage": {"args": [], "ret": "none"}}
XMP = dict(XM, calls={"self.__metric": METRICS, **NP})
GMP = dict(GM, calls={"metric": METRICS, "distance_metric": {"args": ["any"], "ret": "none", "doc": "distance_metric(...) (see C11)"}}, consts={"type_metric.EUCLIDEAN_SQUARE": 1})
#: every point of a cluster is at least as near to the centre of its cluster as to any other centre
def nearest(cl, centre, c, dist="metric(self.__pointer_data[{x}], self.%s[{c}])"):
    d = dist % centre
    return ("forall(lambda c, i, j: implies(0 <= c and c < len(%s) and 0 <= i and i < len(%s[c]) and 0 <= j and j < len(self.%s), %s <= %s))"
            % (cl, cl, centre, d.format(x=cl + "[c][i]", c="c"), d.format(x=cl + "[c][i]", c="j")))

CONTRACTS = kmeans_differences() + kmedians_differences() + [
 predict(KM, "kmeans.predict(named)", "__centers", consts={USER: True}), predict(KM, "kmeans.predict(user)", "__centers", consts={USER: False}),
 predict(KMED, "kmedians.predict", "__medians"),
 total_wce(KM, "kmeans", "__centers"), total_wce(KMED, "kmedians", "__medians"),
 kmedoids_update_clusters(), clarans_update_clusters(),
 predict(XMP, "xmeans.predict", "__centers"), predict(GMP, "gmeans.predict", "__centers"),
 cpp_total_wce(), cpp_assign("kmeans", "p_centers", "p_clusters"), cpp_assign("kmedians", "p_medians", "p_lables", True),
]
