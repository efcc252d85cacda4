from vc.contract import Contract
from .common import *
from .centre import *
CONTRACTS = [kmeans_update_centers(True), *kmedoids_swap(), kmedoids_erase(), kmedoids_update_clusters(), kmedoids_process(), clarans_update_clusters(), *clarans_optimize(), *cpp_kmeans_centers(), cpp_kmedoids_erase()]
