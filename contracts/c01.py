from vc.contract import Contract
from .common import *
from .centre import *
D = "len(self.__pointer_data)"
CL = "self.__clusters"
CONTRACTS = kmeans_differences()[:1] + [
 kmeans_update_clusters([partition("result", D), nonempty("result"), "len(result) <= len(self.__centers)", "implies(%s > 0, len(result) > 0)" % D, in_range2("result", D)]),
 kmeans_update_centers(False), kmeans_changes(), total_wce(KM, "kmeans", "__centers"),
 kmeans_process([partition(CL, D), nonempty(CL), "len(self.__clusters) <= len(old(self.__centers))"]),
 kmedians_update_clusters([partition("result", D), nonempty("result"), "len(result) <= len(self.__medians)"]),
 kmedoids_update_clusters(), *kmedoids_swap(), kmedoids_erase(), kmedoids_process(),
 clarans_update_clusters(), *clarans_optimize(),
 *xmeans_contracts(), *gmeans_contracts(), *soft_contracts(False),
 cpp_assign("kmeans", "p_centers", "p_clusters"), cpp_erase("kmeans"), cpp_update("kmeans", "p_centers", "winners"), cpp_update_indexes(),
 cpp_assign("kmedians", "p_medians", "p_lables", True), cpp_erase("kmedians"), cpp_update("kmedians", "p_medians", "labels"),
 cpp_kmedoids_erase(), *cpp_structure(),
]
