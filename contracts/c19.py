from vc.contract import Contract
from .common import *

KMED = dict(self_={"__pointer_data": "points", "__medians": "points", "__clusters": "list[list[int]]"},
            calls={"self.__metric": METRIC}, group=PART)
CONTRACTS = [
 Contract("kmedians.update_clusters", "pyclustering/cluster/kmedians.py", "__update_clusters", cls="kmedians",
   ret="list[list[int]]", default_list="list[int]",
   requires=["len(self.__medians) > 0"],
   ensures=["cnt(result) == ite(0 <= p and p < len(self.__pointer_data), 1, 0)",
            "len(result) <= len(self.__medians)",
            "forall(lambda j: implies(0 <= j and j < len(result), len(result[j]) > 0))"],
   invariants=["len(clusters) == len(self.__medians)",
               "cnt(clusters) == ite(0 <= p and p < _k, 1, 0)",
               "cnt(clusters) == ite(0 <= p and p < index_point, 1, 0)",
               "_k == 0 or (0 <= index_optim and index_optim < _k)"],
   **KMED),
]

def km(cls, **kw):
    return dict(file="ccore/src/cluster/%s.cpp" % cls, cls=cls, lang="cpp", group=PART,
            self_={"m_ptr_data": "points", "m_ptr_indexes": "list[int]", "result_clusters": "list[list[int]]", "result_centers": "points", "result_wce": "real"},
            cpp={"accessors": {"m_ptr_result.clusters": "result_clusters", "m_ptr_result.centers": "result_centers", "m_ptr_result.wce": "result_wce"}, **kw},
            calls={"self.m_metric": METRIC})
CONTRACTS += [
 Contract("cpp.kmeans.assign_point_to_cluster", func="assign_point_to_cluster", params={"p_index_point": "int", "p_centers": "points", "p_clusters": "list[int]"},
    requires=["len(p_centers) > 0", "0 <= p_index_point and p_index_point < len(self.m_ptr_data)", "len(p_clusters) == len(self.m_ptr_data)"],
    modifies=["p_clusters"],
    ensures=["len(p_clusters) == len(old(p_clusters))",
             "0 <= p_clusters[p_index_point] and p_clusters[p_index_point] < len(p_centers)",
             "forall(lambda j: implies(0 <= j and j < len(p_centers), metric(p_centers[p_clusters[p_index_point]], self.m_ptr_data[p_index_point]) <= metric(p_centers[j], self.m_ptr_data[p_index_point])))",
             "forall(lambda j: implies(0 <= j and j < len(p_clusters) and j != p_index_point, p_clusters[j] == old(p_clusters)[j]))"],
    spec={"metric": (["point", "point"], "real")},
    invariants=["0 <= suitable_index_cluster and (suitable_index_cluster < _k or (_k == 0 and suitable_index_cluster == 0))",
                "_k == 0 or minimum_distance == metric(p_centers[suitable_index_cluster], self.m_ptr_data[p_index_point])",
                "_k > 0 or minimum_distance == INF",
                "forall(lambda j: implies(0 <= j and j < _k, minimum_distance <= metric(p_centers[j], self.m_ptr_data[p_index_point])))"],
    **km("kmeans")),
 Contract("cpp.kmeans.erase_empty_clusters", func="erase_empty_clusters", params={"p_clusters": "list[list[int]]"}, modifies=["p_clusters"],
    ensures=["cnt(p_clusters) == cnt(old(p_clusters))", "len(p_clusters) <= len(old(p_clusters))",
             "forall(lambda j: implies(0 <= j and j < len(p_clusters), len(p_clusters[j]) > 0))"],
    invariants=["cnt(p_clusters) == cnt(old(p_clusters))", "len(p_clusters) <= len(old(p_clusters))",
                "index_cluster == 18446744073709551615 or (0 <= index_cluster and index_cluster < len(p_clusters))",
                "forall(lambda j: implies((j > index_cluster or index_cluster == 18446744073709551615) and 0 <= j and j < len(p_clusters), len(p_clusters[j]) > 0))"],
    requires=["len(p_clusters) < 18446744073709551615"],
    **km("kmeans")),
 Contract("cpp.kmeans.update_clusters", func="update_clusters", params={"p_centers": "points", "p_clusters": "list[list[int]]"}, modifies=["p_clusters"],
    requires=["len(p_centers) > 0", "len(self.m_ptr_indexes) == 0", "len(p_centers) < 18446744073709551615"],
    ensures=["cnt(p_clusters) == ite(0 <= p and p < len(self.m_ptr_data), 1, 0)",
             "len(p_clusters) <= len(p_centers)",
             "forall(lambda j: implies(0 <= j and j < len(p_clusters), len(p_clusters[j]) > 0))"],
    invariants=["len(p_clusters) == len(p_centers)", "len(winners) == len(self.m_ptr_data)",
                "forall(lambda j: implies(0 <= j and j < len(winners), 0 <= winners[j] and winners[j] < len(p_centers)))",
                "cnt(p_clusters) == ite(0 <= p and p < _k, 1, 0)"],
    **km("kmeans")),
]
