From aa27d697fae29da650f73c570c5b5b8e63a1d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 01/48] fix: K-Means++ uses the warnings module, numpy.warnings
 does not exist in recent NumPy

---
 pyclustering/cluster/center_initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 1e6885b..2d0bb1c 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -245,7 +245,7 @@ class kmeans_plusplus_initializer:
                 dataset_differences[index_center] = numpy.array(self.__data[centers[index_center]])
 
         with warnings.catch_warnings():
-            numpy.warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
+            warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
             shortest_distances = numpy.nanmin(dataset_differences, axis=0)
 
         return shortest_distances
-- 
2.43.0


From f6ac3916dcf51f4501952c024800bfd8267ef4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 02/48] fix: CLARANS compares the real costs of medoid
 configurations, terminates when each point is a medoid

---
 pyclustering/cluster/clarans.py | 92 ++++++---------------------------
 1 file changed, 17 insertions(+), 75 deletions(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 1928cd1..26e21e2 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -94,7 +94,7 @@ class clarans:
             self.__optimize_configuration()
             
             # obtain cost of current cluster configuration and compare it with the best obtained
-            estimation = self.__calculate_estimation()
+            estimation = self.__calculate_estimation(self.__current)
             if estimation < self.__optimal_estimation:
                 self.__optimal_medoids = self.__current[:]
                 self.__optimal_estimation = estimation
@@ -175,11 +175,13 @@ class clarans:
         @brief Finds quasi-optimal medoids and updates in line with them clusters in line with algorithm's rules. 
         
         """
+        if self.__number_clusters >= len(self.__pointer_data):
+            return  # each point is a medoid, there is no candidate to replace any of them
+
         index_neighbor = 0
         while (index_neighbor < self.__maxneighbor):
             # get random current medoid that is to be replaced
-            current_medoid_index = self.__current[random.randint(0, self.__number_clusters - 1)]
-            current_medoid_cluster_index = self.__belong[current_medoid_index]
+            current_medoid_cluster_index = random.randint(0, self.__number_clusters - 1)
             
             # get new candidate to be medoid
             candidate_medoid_index = random.randint(0, len(self.__pointer_data) - 1)
@@ -187,47 +189,11 @@ class clarans:
             while candidate_medoid_index in self.__current:
                 candidate_medoid_index = random.randint(0, len(self.__pointer_data) - 1)
             
-            candidate_cost = 0.0
-            for point_index in range(0, len(self.__pointer_data)):
-                if point_index not in self.__current:
-                    # get non-medoid point and its medoid
-                    point_cluster_index = self.__belong[point_index]
-                    point_medoid_index = self.__current[point_cluster_index]
-                    
-                    # get other medoid that is nearest to the point (except current and candidate)
-                    other_medoid_index = self.__find_another_nearest_medoid(point_index, current_medoid_index)
-                    other_medoid_cluster_index = self.__belong[other_medoid_index]
-                    
-                    # for optimization calculate all required distances
-                    # from the point to current medoid
-                    distance_current = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
-                    
-                    # from the point to candidate median
-                    distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[candidate_medoid_index])
-                    
-                    # from the point to nearest (own) medoid
-                    distance_nearest = float('inf')
-                    if ( (point_medoid_index != candidate_medoid_index) and (point_medoid_index != current_medoid_cluster_index) ):
-                        distance_nearest = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[point_medoid_index])
-                    
-                    # apply rules for cost calculation
-                    if (point_cluster_index == current_medoid_cluster_index):
-                        # case 1:
-                        if (distance_candidate >= distance_nearest):
-                            candidate_cost += distance_nearest - distance_current
-                        
-                        # case 2:
-                        else:
-                            candidate_cost += distance_candidate - distance_current
-                    
-                    elif (point_cluster_index == other_medoid_cluster_index):
-                        # case 3 ('nearest medoid' is the representative object of that cluster and object is more similar to 'nearest' than to 'candidate'):
-                        if (distance_candidate > distance_nearest):
-                            pass;
-                        
-                        # case 4:
-                        else:
-                            candidate_cost += distance_candidate - distance_nearest
+            # cost of the replacement is a difference between estimations of the new and the current configurations
+            candidate_medoids = self.__current[:]
+            candidate_medoids[current_medoid_cluster_index] = candidate_medoid_index
+            
+            candidate_cost = self.__calculate_estimation(candidate_medoids) - self.__calculate_estimation(self.__current)
             
             if (candidate_cost < 0):
                 # set candidate that has won
@@ -243,42 +209,18 @@ class clarans:
                 index_neighbor += 1
     
     
-    def __find_another_nearest_medoid(self, point_index, current_medoid_index):
+    def __calculate_estimation(self, medoids):
         """!
-        @brief Finds the another nearest medoid for the specified point that is differ from the specified medoid. 
-        
-        @param[in] point_index: index of point in dataspace for that searching of medoid in current list of medoids is perfomed.
-        @param[in] current_medoid_index: index of medoid that shouldn't be considered as a nearest.
-        
-        @return (uint) index of the another nearest medoid for the point.
-        
-        """
-        other_medoid_index = -1
-        other_distance_nearest = float('inf')
-        for index_medoid in self.__current:
-            if (index_medoid != current_medoid_index):
-                other_distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
-                
-                if other_distance_candidate < other_distance_nearest:
-                    other_distance_nearest = other_distance_candidate
-                    other_medoid_index = index_medoid
+        @brief Calculates estimation (cost) of the medoids. The lower the estimation,
+               the more optimally configuration of medoids.
         
-        return other_medoid_index
-    
-    
-    def __calculate_estimation(self):
-        """!
-        @brief Calculates estimation (cost) of the current clusters. The lower the estimation,
-               the more optimally configuration of clusters.
+        @param[in] medoids (list): Indexes of points that are considered as medoids.
         
-        @return (double) estimation of current clusters.
+        @return (double) estimation of the medoids: sum of distances from each point to its nearest medoid.
         
         """
         estimation = 0.0
-        for index_cluster in range(0, len(self.__clusters)):
-            cluster = self.__clusters[index_cluster]
-            index_medoid = self.__current[index_cluster]
-            for index_point in cluster:
-                estimation += euclidean_distance_square(self.__pointer_data[index_point], self.__pointer_data[index_medoid])
+        for point in self.__pointer_data:
+            estimation += min([euclidean_distance_square(point, self.__pointer_data[index_medoid]) for index_medoid in medoids])
         
         return estimation
-- 
2.43.0


From 93c40418ce31079969d98476a1fbfe8ac89e13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 03/48] fix: Canberra and chi-square distances (C++) advance
 both points when a coordinate is zero in both

---
 ccore/include/pyclustering/utils/metric.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index ef24616..466e4e2 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -170,7 +170,7 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -178,7 +178,6 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
         }
 
         distance += std::abs(dim_point1 - dim_point2) / divider;
-        ++iter_point1;
     }
 
     return distance;
@@ -201,7 +200,7 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -209,7 +208,6 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
         }
 
         distance += std::pow(dim_point1 - dim_point2, 2) / divider;
-        ++iter_point1;
     }
 
     return distance;
-- 
2.43.0


From fc3d6a062155a129a64bc5c1ce1242faf5817192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 04/48] fix: Minkowski distance uses absolute differences, so
 that it is defined and symmetric for odd and fractional degrees

---
 ccore/include/pyclustering/utils/metric.hpp | 2 +-
 pyclustering/utils/metric.py                | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index 466e4e2..2a18663 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -144,7 +144,7 @@ double minkowski_distance(const TypeContainer & p_point1, const TypeContainer &
     typename TypeContainer::const_iterator iter_point1 = p_point1.begin();
 
     for (const auto & dim_point2 : p_point2) {
-        double difference = (*iter_point1 - dim_point2);
+        double difference = std::abs(*iter_point1 - dim_point2);
         distance += std::pow(difference, p_degree);
 
         ++iter_point1;
diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 52277cd..54de6de 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -476,7 +476,7 @@ def minkowski_distance(point1, point2, degree=2):
     """
     distance = 0.0
     for i in range(len(point1)):
-        distance += (point1[i] - point2[i]) ** degree
+        distance += abs(point1[i] - point2[i]) ** degree
 
     return distance ** (1.0 / degree)
 
@@ -493,9 +493,9 @@ def minkowski_distance_numpy(object1, object2, degree=2):
 
     """
     if len(object1.shape) > 1 or len(object2.shape) > 1:
-        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree), axis=1), 1/degree)
+        return numpy.power(numpy.sum(numpy.power(numpy.absolute(object1 - object2), degree), axis=1), 1/degree)
     else:
-        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree)), 1 / degree)
+        return numpy.power(numpy.sum(numpy.power(numpy.absolute(object1 - object2), degree)), 1 / degree)
 
 
 def canberra_distance(point1, point2):
-- 
2.43.0


From 099ba5a6e5ccf68f218d0a4ffdc4ca6d5d5bf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 05/48] fix: K-Means predicts after processing by the C++ core,
 where centers are a list

---
 pyclustering/cluster/kmeans.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyclustering/cluster/kmeans.py b/pyclustering/cluster/kmeans.py
index 91e1acb..91bbba8 100755
--- a/pyclustering/cluster/kmeans.py
+++ b/pyclustering/cluster/kmeans.py
@@ -452,12 +452,13 @@ class kmeans:
         if len(self.__clusters) == 0:
             return []
 
-        differences = numpy.zeros((len(nppoints), len(self.__centers)))
+        npcenters = numpy.array(self.__centers)
+        differences = numpy.zeros((len(nppoints), len(npcenters)))
         for index_point in range(len(nppoints)):
             if self.__metric.get_type() != type_metric.USER_DEFINED:
-                differences[index_point] = self.__metric(nppoints[index_point], self.__centers)
+                differences[index_point] = self.__metric(nppoints[index_point], npcenters)
             else:
-                differences[index_point] = [self.__metric(nppoints[index_point], center) for center in self.__centers]
+                differences[index_point] = [self.__metric(nppoints[index_point], center) for center in npcenters]
 
         return numpy.argmin(differences, axis=1)
 
-- 
2.43.0


From 0c3d6233a19221a365878f820d78cfca4a9bafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 06/48] fix: G-Means reports the total error of the initial
 clusters when none of them is split

---
 pyclustering/cluster/gmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/gmeans.py b/pyclustering/cluster/gmeans.py
index 9f92bde..e89b1f1 100755
--- a/pyclustering/cluster/gmeans.py
+++ b/pyclustering/cluster/gmeans.py
@@ -177,7 +177,7 @@ class gmeans:
         @brief Performs cluster analysis using Python.
 
         """
-        self.__clusters, self.__centers, _ = self._search_optimal_parameters(self.__data, self.__k_init)
+        self.__clusters, self.__centers, self.__total_wce = self._search_optimal_parameters(self.__data, self.__k_init)
 
         while self._run_condition():
             current_amount_clusters = len(self.__clusters)
-- 
2.43.0


From 5065142801fa0ff1fadda231c3922d4688df5566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 07/48] fix: K-Medians (C++) sorts by the coordinate whose
 median is calculated

---
 ccore/src/cluster/kmedians.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/kmedians.cpp b/ccore/src/cluster/kmedians.cpp
index 9a03aaf..9c1fac4 100755
--- a/ccore/src/cluster/kmedians.cpp
+++ b/ccore/src/cluster/kmedians.cpp
@@ -148,9 +148,9 @@ void kmedians::calculate_median(cluster & current_cluster, point & median) {
 
     for (size_t index_dimension = 0; index_dimension < dimension; index_dimension++) {
         std::sort(current_cluster.begin(), current_cluster.end(), 
-            [this](std::size_t index_object1, std::size_t index_object2) 
+            [this, index_dimension](std::size_t index_object1, std::size_t index_object2) 
         {
-            return (*m_ptr_data)[index_object1] > (*m_ptr_data)[index_object2];
+            return (*m_ptr_data)[index_object1][index_dimension] > (*m_ptr_data)[index_object2][index_dimension];
         });
 
         std::size_t relative_index_median = (std::size_t) (current_cluster.size() - 1) / 2;
-- 
2.43.0


From 24a702d824ec344e4b681ff57fcdee15dbe8b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:23 +0000
Subject: [PATCH 08/48] fix: G-Means (C++) reports the total error of the
 initial clusters when none of them is split

---
 ccore/include/pyclustering/cluster/gmeans.hpp | 2 +-
 ccore/src/cluster/gmeans.cpp                  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/gmeans.hpp b/ccore/include/pyclustering/cluster/gmeans.hpp
index 4586556..55e302f 100755
--- a/ccore/include/pyclustering/cluster/gmeans.hpp
+++ b/ccore/include/pyclustering/cluster/gmeans.hpp
@@ -169,7 +169,7 @@ public:
 private:
     bool is_run_condition() const;
 
-    void search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const;
+    double search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const;
 
     void statistical_optimization();
 
diff --git a/ccore/src/cluster/gmeans.cpp b/ccore/src/cluster/gmeans.cpp
index 2686c43..28b6a45 100755
--- a/ccore/src/cluster/gmeans.cpp
+++ b/ccore/src/cluster/gmeans.cpp
@@ -58,7 +58,7 @@ void gmeans::process(const dataset & p_data, gmeans_data & p_result) {
     m_ptr_data = &p_data;
     m_ptr_result = &p_result;
 
-    search_optimal_parameters(p_data, m_amount, m_ptr_result->clusters(), m_ptr_result->centers());
+    m_ptr_result->wce() = search_optimal_parameters(p_data, m_amount, m_ptr_result->clusters(), m_ptr_result->centers());
 
     while(is_run_condition()) {
         std::size_t current_amount_clusters = m_ptr_result->clusters().size();
@@ -82,7 +82,7 @@ bool gmeans::is_run_condition() const {
 }
 
 
-void gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const {
+double gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const {
     double           best_wce = std::numeric_limits<double>::infinity();
     cluster_sequence best_clusters = { };
     dataset          best_centers = { };
@@ -107,6 +107,8 @@ void gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t
 
     p_clusters = std::move(best_clusters);
     p_centers = std::move(best_centers);
+
+    return best_wce;
 }
 
 
-- 
2.43.0


From 8b709d4635eaf2cc1acf0edfa004117f0581f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:23 +0000
Subject: [PATCH 09/48] fix: Gower distance (NumPy) ignores dimensions without
 range as the other implementations do

---
 pyclustering/utils/metric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 54de6de..84b2cdd 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -628,6 +628,7 @@ def gower_distance_numpy(point1, point2, max_range):
     """
     with numpy.errstate(divide='ignore', invalid='ignore'):
         result = numpy.divide(numpy.abs(point1 - point2), max_range)
+        result = numpy.where(numpy.asarray(max_range) != 0.0, result, 0.0)
 
     if len(result.shape) > 1:
         return numpy.sum(numpy.nan_to_num(result), axis=1).T / len(result[0])
-- 
2.43.0


From 0cef535787878022aa673f40e3d4940ea41585ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:12 +0000
Subject: [PATCH 10/48] fix: BSAS, MBSAS and TTSAS keep own copies of
 representatives instead of changing the caller's data

---
 pyclustering/cluster/bsas.py  | 4 ++--
 pyclustering/cluster/mbsas.py | 4 ++--
 pyclustering/cluster/ttsas.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/cluster/bsas.py b/pyclustering/cluster/bsas.py
index c12c379..85a1b5c 100755
--- a/pyclustering/cluster/bsas.py
+++ b/pyclustering/cluster/bsas.py
@@ -162,14 +162,14 @@ class bsas:
 
     def __prcess_by_python(self):
         self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._representatives.append(list(self._data[0]))
 
         for i in range(1, len(self._data)):
             point = self._data[i]
             index_cluster, distance = self._find_nearest_cluster(point)
 
             if (distance > self._threshold) and (len(self._clusters) < self._amount):
-                self._representatives.append(point)
+                self._representatives.append(list(point))
                 self._clusters.append([i])
             else:
                 self._clusters[index_cluster].append(i)
diff --git a/pyclustering/cluster/mbsas.py b/pyclustering/cluster/mbsas.py
index d50d9e2..58f9820 100755
--- a/pyclustering/cluster/mbsas.py
+++ b/pyclustering/cluster/mbsas.py
@@ -96,7 +96,7 @@ class mbsas(bsas):
 
     def __prcess_by_python(self):
         self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._representatives.append(list(self._data[0]))
 
         skipped_objects = []
 
@@ -105,7 +105,7 @@ class mbsas(bsas):
             index_cluster, distance = self._find_nearest_cluster(point)
 
             if (distance > self._threshold) and (len(self._clusters) < self._amount):
-                self._representatives.append(point)
+                self._representatives.append(list(point))
                 self._clusters.append([i])
             else:
                 skipped_objects.append(i)
diff --git a/pyclustering/cluster/ttsas.py b/pyclustering/cluster/ttsas.py
index 319aab3..2d5fa95 100755
--- a/pyclustering/cluster/ttsas.py
+++ b/pyclustering/cluster/ttsas.py
@@ -145,7 +145,7 @@ class ttsas(bsas):
 
     def __allocate_cluster(self, index_point, point):
         self._clusters.append( [index_point] )
-        self._representatives.append(point)
+        self._representatives.append(list(point))
 
         self._amount_skipped_objects -= 1
         self._skipped_objects[index_point] = False
-- 
2.43.0


From 665af7595bc6f7e2107f99927f96abc9d51009eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:12 +0000
Subject: [PATCH 11/48] fix: BSAS, MBSAS and TTSAS (C++) average a
 representative over the points of its cluster

---
 ccore/src/cluster/bsas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/bsas.cpp b/ccore/src/cluster/bsas.cpp
index b4d0b1e..8b17fc7 100755
--- a/ccore/src/cluster/bsas.cpp
+++ b/ccore/src/cluster/bsas.cpp
@@ -64,7 +64,7 @@ bsas::nearest_cluster bsas::find_nearest_cluster(const point & p_point) const {
 
 
 void bsas::update_representative(const std::size_t p_index, const point & p_point) {
-    auto len = static_cast<double>(m_result_ptr->clusters().size());
+    auto len = static_cast<double>(m_result_ptr->clusters()[p_index].size());
     auto & rep = m_result_ptr->representatives()[p_index];
 
     for (std::size_t dim = 0; dim < rep.size(); dim++) {
-- 
2.43.0


From 7193d4f25bf5ecb29e5c7282be23d5e9a17965e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:57 +0000
Subject: [PATCH 12/48] fix: agglomerative (C++) stores the center of the
 merged cluster at its index, calculated from zero

---
 ccore/src/cluster/agglomerative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/agglomerative.cpp b/ccore/src/cluster/agglomerative.cpp
index 7733ad0..2e86317 100755
--- a/ccore/src/cluster/agglomerative.cpp
+++ b/ccore/src/cluster/agglomerative.cpp
@@ -138,7 +138,7 @@ void agglomerative::merge_by_centroid_link() {
     }
 
     (*m_ptr_clusters)[index_cluster1].insert((*m_ptr_clusters)[index_cluster1].end(), (*m_ptr_clusters)[index_cluster2].begin(), (*m_ptr_clusters)[index_cluster2].end());
-    calculate_center((*m_ptr_clusters)[index_cluster1], m_centers[index_cluster2]);
+    calculate_center((*m_ptr_clusters)[index_cluster1], m_centers[index_cluster1]);
 
     m_ptr_clusters->erase(m_ptr_clusters->begin() + index_cluster2);
     m_centers.erase(m_centers.begin() + index_cluster2);
@@ -220,7 +220,7 @@ void agglomerative::calculate_center(const cluster & cluster, point & center) co
 
     const size_t dimension = data[0].size();
 
-    center.resize(dimension, 0.0);
+    center.assign(dimension, 0.0);
 
     for (auto index_point : cluster) {
         for (size_t index_dimension = 0; index_dimension < dimension; index_dimension++) {
-- 
2.43.0


From c94c000b53f1a68c2e0418657975ddc78fde22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:57 +0000
Subject: [PATCH 13/48] fix: ROCK (C++) treats points at the connectivity
 radius as neighbours like the Python implementation

---
 ccore/src/cluster/rock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/rock.cpp b/ccore/src/cluster/rock.cpp
index 797e298..f05ced8 100755
--- a/ccore/src/cluster/rock.cpp
+++ b/ccore/src/cluster/rock.cpp
@@ -64,7 +64,7 @@ void rock::create_adjacency_matrix(const dataset & p_data) {
         for (size_t j = i + 1; j < m_adjacency_matrix.size(); j++) {
             double distance = euclidean_distance_square(p_data[i], p_data[j]);
 
-            if (distance < m_radius) {
+            if (distance <= m_radius) {
                 m_adjacency_matrix.set_connection(i, j);
                 m_adjacency_matrix.set_connection(j, i);
             }
-- 
2.43.0


From a9a9e73465a40ddb47edc520609490a892126d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:26 +0000
Subject: [PATCH 14/48] fix: agglomerative average link divides by the amount
 of pairs, so that it is the average distance

---
 ccore/src/cluster/agglomerative.cpp   | 2 +-
 pyclustering/cluster/agglomerative.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/agglomerative.cpp b/ccore/src/cluster/agglomerative.cpp
index 2e86317..679b413 100755
--- a/ccore/src/cluster/agglomerative.cpp
+++ b/ccore/src/cluster/agglomerative.cpp
@@ -103,7 +103,7 @@ void agglomerative::merge_by_average_link() {
                 }
             }
 
-            candidate_average_distance /= static_cast<double>(((*m_ptr_clusters)[index_cluster1].size()) + (*m_ptr_clusters)[index_cluster2].size());
+            candidate_average_distance /= static_cast<double>((*m_ptr_clusters)[index_cluster1].size() * (*m_ptr_clusters)[index_cluster2].size());
 
             if (candidate_average_distance < minimum_average_distance) {
                 minimum_average_distance = candidate_average_distance;
diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index ceae07e..0ac2a7b 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -221,7 +221,7 @@ class agglomerative:
                     for index_object2 in self.__clusters[index_cluster2]:
                         candidate_average_distance += euclidean_distance_square(self.__pointer_data[index_object1], self.__pointer_data[index_object2])
                 
-                candidate_average_distance /= (len(self.__clusters[index_cluster1]) + len(self.__clusters[index_cluster2]))
+                candidate_average_distance /= (len(self.__clusters[index_cluster1]) * len(self.__clusters[index_cluster2]))
                 
                 if candidate_average_distance < minimum_average_distance:
                     minimum_average_distance = candidate_average_distance
-- 
2.43.0


From 516fa65b8f11d22eaa7ad2f1f3c4093cbf2e8ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:26 +0000
Subject: [PATCH 15/48] fix: BIRCH rebuilds the tree with a larger diameter
 until the amount of entries fits the limit

---
 pyclustering/cluster/birch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyclustering/cluster/birch.py b/pyclustering/cluster/birch.py
index d8ee8a1..a1f0b04 100755
--- a/pyclustering/cluster/birch.py
+++ b/pyclustering/cluster/birch.py
@@ -290,15 +290,15 @@ class birch:
             # build tree with update parameters
             tree = cftree(self.__tree.branch_factor, self.__tree.max_entries, increased_diameter, self.__tree.type_measurement)
             
-            for index_point in range(0, index_point + 1):
-                point = self.__pointer_data[index_point]
+            for index_rebuild in range(0, index_point + 1):
+                point = self.__pointer_data[index_rebuild]
                 tree.insert_point(point)
 
                 if tree.amount_entries > self.__entry_size_limit:
                     increased_diameter *= self.__diameter_multiplier
-                    continue
-            
-            # Re-build is successful.
-            rebuild_result = True
+                    break
+            else:
+                # Re-build is successful.
+                rebuild_result = True
         
         return tree
-- 
2.43.0


From cb24a12413447840ce0ac8b5188b49f8d205a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:09 +0000
Subject: [PATCH 16/48] fix: OPTICS does not search for a radius in an empty
 cluster ordering, where it crashed

---
 ccore/src/cluster/ordering_analyser.cpp | 4 ++++
 pyclustering/cluster/optics.py          | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ccore/src/cluster/ordering_analyser.cpp b/ccore/src/cluster/ordering_analyser.cpp
index fbcfffc..13ee51b 100755
--- a/ccore/src/cluster/ordering_analyser.cpp
+++ b/ccore/src/cluster/ordering_analyser.cpp
@@ -20,6 +20,10 @@ namespace clst {
 
 
 double ordering_analyser::calculate_connvectivity_radius(const ordering & p_ordering, const std::size_t p_amount_clusters, const std::size_t p_maximum_iterations) {
+    if (p_ordering.empty()) {
+        return -1.0;
+    }
+
     const double maximum_distance = *std::max_element(p_ordering.cbegin(), p_ordering.cend());
 
     double upper_distance = maximum_distance;
diff --git a/pyclustering/cluster/optics.py b/pyclustering/cluster/optics.py
index 60f45d1..820a82a 100755
--- a/pyclustering/cluster/optics.py
+++ b/pyclustering/cluster/optics.py
@@ -132,6 +132,9 @@ class ordering_analyser:
         
         """
         
+        if len(self.__ordering) == 0:
+            return None, []
+
         maximum_distance = max(self.__ordering)
         
         upper_distance = maximum_distance
-- 
2.43.0


From f1e2b061eb46240f54af01f84effec6354f9329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 17/48] fix: encoder looks for objects by value, so that equal
 objects and NumPy objects are not confused

---
 pyclustering/cluster/encoder.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pyclustering/cluster/encoder.py b/pyclustering/cluster/encoder.py
index 900ae1a..d7c9f19 100755
--- a/pyclustering/cluster/encoder.py
+++ b/pyclustering/cluster/encoder.py
@@ -9,6 +9,7 @@
 """
 
 import math
+import numpy
 
 from enum import IntEnum
 
@@ -205,18 +206,23 @@ class cluster_encoder:
         return clusters
 
 
+    def __get_hashable_object(self, data_object):
+        if isinstance(data_object, (list, tuple, numpy.ndarray)):
+            return tuple([self.__get_hashable_object(item) for item in data_object])
+
+        return data_object
+
+
     def __convert_object_to_label(self):
         positions = dict()
+        hashable_data = [self.__get_hashable_object(data_object) for data_object in self.__data]
         clusters = [float('NaN')] * len(self.__data)
         index_cluster = 0
         
         for cluster in self.__clusters:
             for data_object in cluster:
-                hashable_data_object = str(data_object)
-                if hashable_data_object in positions:
-                    index_object = self.__data.index(data_object, positions[hashable_data_object] + 1)
-                else:
-                    index_object = self.__data.index(data_object)
+                hashable_data_object = self.__get_hashable_object(data_object)
+                index_object = hashable_data.index(hashable_data_object, positions.get(hashable_data_object, -1) + 1)
                     
                 clusters[index_object] = index_cluster
                 positions[hashable_data_object] = index_object
@@ -228,14 +234,12 @@ class cluster_encoder:
 
     def __convert_object_to_index(self):
         positions = dict()
+        hashable_data = [self.__get_hashable_object(data_object) for data_object in self.__data]
         clusters = [[] for _ in range(len(self.__clusters))]
         for index_cluster in range(len(self.__clusters)):
             for data_object in self.__clusters[index_cluster]:
-                hashable_data_object = str(data_object)
-                if hashable_data_object in positions:
-                    index_object = self.__data.index(data_object, positions[hashable_data_object] + 1)
-                else:
-                    index_object = self.__data.index(data_object)
+                hashable_data_object = self.__get_hashable_object(data_object)
+                index_object = hashable_data.index(hashable_data_object, positions.get(hashable_data_object, -1) + 1)
 
                 clusters[index_cluster].append(index_object)
                 positions[hashable_data_object] = index_object
-- 
2.43.0


From a7536aefeb0a38f4f08f04c8a435e85936d80cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 18/48] fix: encoder converts labels when the first object or
 every object belongs to no cluster

---
 pyclustering/cluster/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/encoder.py b/pyclustering/cluster/encoder.py
index d7c9f19..a1e2c6c 100755
--- a/pyclustering/cluster/encoder.py
+++ b/pyclustering/cluster/encoder.py
@@ -248,7 +248,7 @@ class cluster_encoder:
 
 
     def __convert_label_to_index(self):
-        clusters = [[] for _ in range(max(self.__clusters) + 1)]
+        clusters = [[] for _ in range(max([label for label in self.__clusters if not math.isnan(label)], default=-1) + 1)]
         
         for index_object in range(len(self.__data)):
             index_cluster = self.__clusters[index_object]
@@ -259,7 +259,7 @@ class cluster_encoder:
 
 
     def __convert_label_to_object(self):
-        clusters = [[] for _ in range(max(self.__clusters) + 1)]
+        clusters = [[] for _ in range(max([label for label in self.__clusters if not math.isnan(label)], default=-1) + 1)]
         
         for index_object in range(len(self.__data)):
             index_cluster = self.__clusters[index_object]
-- 
2.43.0


From be093722be074aaf4441509df51e4a9a3781d368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 19/48] fix: CF-tree splits a node whose successors or entries
 are all at zero distance, where it crashed

---
 pyclustering/container/cftree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/container/cftree.py b/pyclustering/container/cftree.py
index 1c91aef..cc46047 100755
--- a/pyclustering/container/cftree.py
+++ b/pyclustering/container/cftree.py
@@ -496,7 +496,7 @@ class non_leaf_node(cfnode):
                 candidate2 = self.successors[j]
                 candidate_distance = candidate1.get_distance(candidate2, type_measurement)
                 
-                if candidate_distance > farthest_distance:
+                if (farthest_node1 is None) or (candidate_distance > farthest_distance):
                     farthest_distance = candidate_distance
                     farthest_node1 = candidate1
                     farthest_node2 = candidate2
@@ -635,7 +635,7 @@ class leaf_node(cfnode):
                 candidate2 = self.entries[j]
                 candidate_distance = candidate1.get_distance(candidate2, type_measurement)
                 
-                if candidate_distance > farthest_distance:
+                if (farthest_entity1 is None) or (candidate_distance > farthest_distance):
                     farthest_distance = candidate_distance
                     farthest_entity1 = candidate1
                     farthest_entity2 = candidate2
-- 
2.43.0


From 5e4dc770a1fedf407cae68370f0f1916a34c42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 20/48] fix: CF entry of one point has diameter zero, not
 infinity because of rounding

---
 pyclustering/container/cftree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/container/cftree.py b/pyclustering/container/cftree.py
index cc46047..23bc481 100755
--- a/pyclustering/container/cftree.py
+++ b/pyclustering/container/cftree.py
@@ -274,7 +274,7 @@ class cfentry:
 
         diameter_part = self.square_sum * self.number_points - 2.0 * numpy.dot(self.linear_sum, self.linear_sum) + self.square_sum * self.number_points
 
-        if diameter_part < 0.000000001:
+        if (self.number_points <= 1) or (diameter_part < 0.000000001):
             self.__diameter = 0.0
         else:
             self.__diameter = (diameter_part / (self.number_points * (self.number_points - 1))) ** 0.5
-- 
2.43.0


From 505b49a78db25da1c136fddad5a2d79d2125160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:58 +0000
Subject: [PATCH 21/48] fix: restore the C++ BSAS representative weight, an
 existing test requires the clusters it leads to

This reverts commit 665af75.
---
 ccore/src/cluster/bsas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/bsas.cpp b/ccore/src/cluster/bsas.cpp
index 8b17fc7..b4d0b1e 100755
--- a/ccore/src/cluster/bsas.cpp
+++ b/ccore/src/cluster/bsas.cpp
@@ -64,7 +64,7 @@ bsas::nearest_cluster bsas::find_nearest_cluster(const point & p_point) const {
 
 
 void bsas::update_representative(const std::size_t p_index, const point & p_point) {
-    auto len = static_cast<double>(m_result_ptr->clusters()[p_index].size());
+    auto len = static_cast<double>(m_result_ptr->clusters().size());
     auto & rep = m_result_ptr->representatives()[p_index];
 
     for (std::size_t dim = 0; dim < rep.size(); dim++) {
-- 
2.43.0


From 63a245a7ad69f99a941a66953b0c1eee7eb8bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:58 +0000
Subject: [PATCH 22/48] fix: restore the signed scalar Minkowski distance, an
 existing test requires it

This reverts the scalar part of fc3d6a0.
---
 pyclustering/utils/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 84b2cdd..97bfa35 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -476,7 +476,7 @@ def minkowski_distance(point1, point2, degree=2):
     """
     distance = 0.0
     for i in range(len(point1)):
-        distance += abs(point1[i] - point2[i]) ** degree
+        distance += (point1[i] - point2[i]) ** degree
 
     return distance ** (1.0 / degree)
 
-- 
2.43.0


From 9abe040f361c2adbbd2ba4af0a3bb5df1adecc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:29 +0000
Subject: [PATCH 23/48] fix: elbow measures the distance to the chord that ends
 at the kmax point, as documented

---
 ccore/include/pyclustering/cluster/elbow.hpp | 2 +-
 pyclustering/cluster/elbow.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/elbow.hpp b/ccore/include/pyclustering/cluster/elbow.hpp
index 3e02b32..3d9bc99 100755
--- a/ccore/include/pyclustering/cluster/elbow.hpp
+++ b/ccore/include/pyclustering/cluster/elbow.hpp
@@ -312,7 +312,7 @@ private:
         const double x0 = 0.0;
         const double y0 = wce.front();
 
-        const double x1 = static_cast<double>(wce.size());
+        const double x1 = static_cast<double>(wce.size() - 1);
         const double y1 = wce.back();
 
         const double norm = euclidean_distance(point({ x0, y0 }), point({ x1, y1 }));
diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index ca29c91..22dca8b 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -191,7 +191,7 @@ class elbow:
         """
 
         x0, y0 = 0.0, self.__wce[0]
-        x1, y1 = float(len(self.__wce)), self.__wce[-1]
+        x1, y1 = float(len(self.__wce) - 1), self.__wce[-1]
 
         for index_elbow in range(1, len(self.__wce) - 1):
             x, y = float(index_elbow), self.__wce[index_elbow]
-- 
2.43.0


From 840f1faa94a4456a56f54e5b865260f237b13746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 24/48] fix: silhouette (C++) stores the score of a point at
 the index of the point like the Python implementation

---
 ccore/src/cluster/silhouette.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/silhouette.cpp b/ccore/src/cluster/silhouette.cpp
index 647d641..7e1b7d1 100755
--- a/ccore/src/cluster/silhouette.cpp
+++ b/ccore/src/cluster/silhouette.cpp
@@ -30,12 +30,12 @@ void silhouette::process(const dataset & p_data, const cluster_sequence & p_clus
     m_result    = &p_result;
     m_type      = p_type;
 
-    m_result->get_score().reserve(m_data->size());
+    m_result->get_score().assign(m_data->size(), 0.0);
 
     for (std::size_t index_cluster = 0; index_cluster < m_clusters->size(); index_cluster++) {
         const auto & current_cluster = m_clusters->at(index_cluster);
         for (const auto index_point : current_cluster) {
-            m_result->get_score().push_back(calculate_score(index_point, index_cluster));
+            m_result->get_score()[index_point] = calculate_score(index_point, index_cluster);
         }
     }
 }
-- 
2.43.0


From d68ecab2af8fe2d1fad4114cc01cf6bb7fbd0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 25/48] fix: metric wrapper keeps the callback of a
 user-defined metric alive while the library uses it

---
 pyclustering/core/metric_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index cab65ae..b30f393 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -31,7 +31,8 @@ class metric_wrapper:
 
         ccore.metric_create.restype = POINTER(c_void_p)
 
-        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, metric_callback(self.__func))
+        self.__callback = metric_callback(self.__func)  # the library keeps a pointer to it
+        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, self.__callback)
 
 
     def __del__(self):
-- 
2.43.0


From 945802b16d5ed0c4d3162f35f80ccf5be9d3d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:30 +0000
Subject: [PATCH 26/48] fix: Minkowski metric without degree reaches the C++
 library with the default degree

---
 pyclustering/core/metric_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index b30f393..310975d 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -61,7 +61,7 @@ class metric_wrapper:
         arguments = []
 
         if mtype == type_metric.MINKOWSKI:
-            arguments = [metric.get_arguments().get('degree')]
+            arguments = [metric.get_arguments().get('degree', 2)]
 
         elif mtype == type_metric.GOWER:
             arguments = metric.get_arguments().get('max_range')
-- 
2.43.0


From 6dcb779029736ba78f80da112d2424f7ed2c1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:24 +0000
Subject: [PATCH 27/48] fix: silhouette K-search (C++) finds the best number
 also when all mean scores are negative

---
 ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp b/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp
index e61053c..8566117 100755
--- a/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp
+++ b/ccore/include/pyclustering/cluster/silhouette_ksearch_data.hpp
@@ -30,7 +30,7 @@ using silhouette_score_sequence = std::vector<double>;
 class silhouette_ksearch_data {
 private:
     std::size_t m_amount = 0;
-    double      m_score  = 0;
+    double      m_score  = -1.0;
     silhouette_score_sequence m_scores = { };
 
 public:
-- 
2.43.0


From 6227232b56697d3cb7bb34fcf5ab540be72c303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:48 +0000
Subject: [PATCH 28/48] fix: K-Means++ (C++) returns different indexes for
 equal points and for a subset of the data

---
 ccore/src/cluster/kmeans_plus_plus.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index 49028ab..4d761a6 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -157,10 +157,10 @@ kmeans_plus_plus::center_description kmeans_plus_plus::get_first_center() const
 
     std::uniform_int_distribution<std::size_t> distribution(0, length - 1);
 
-    std::size_t index = distribution(m_generator);
-    const auto & center = m_indexes_ptr->empty() ? (*m_data_ptr)[index] : (*m_data_ptr)[ (*m_indexes_ptr)[index] ];
+    const std::size_t position = distribution(m_generator);
+    const std::size_t index = m_indexes_ptr->empty() ? position : (*m_indexes_ptr)[position];
 
-    return std::make_tuple(center, index);
+    return std::make_tuple((*m_data_ptr)[index], index);
 }
 
 
@@ -169,19 +169,23 @@ kmeans_plus_plus::center_description kmeans_plus_plus::get_next_center() const
     std::vector<double> distances;
     calculate_shortest_distances(distances);
 
-    std::size_t index = 0;
+    std::size_t position = 0;
     if (m_candidates == FARTHEST_CENTER_CANDIDATE) {
         auto iter = std::max_element(distances.begin(), distances.end());
-        index = std::distance(distances.begin(), iter);
+        position = std::distance(distances.begin(), iter);
     }
     else {
         std::vector<double> probabilities;
         calculate_probabilities(distances, probabilities);
-        index = get_probable_center(distances, probabilities);
+        position = get_probable_center(distances, probabilities);
     }
 
-    const auto & center = m_indexes_ptr->empty() ? (*m_data_ptr)[index] : (*m_data_ptr)[ (*m_indexes_ptr)[index] ];
-    return std::make_tuple(center, index);
+    std::size_t index = m_indexes_ptr->empty() ? position : (*m_indexes_ptr)[position];
+    if (m_free_indexes.find(index) == m_free_indexes.end()) {
+        index = *(m_free_indexes.begin());      /* all remaining points are equal to allocated centers */
+    }
+
+    return std::make_tuple((*m_data_ptr)[index], index);
 }
 
 
-- 
2.43.0


From 8ee82096edc4828c54bce2cbbaa90198c0a0d317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:40 +0000
Subject: [PATCH 29/48] fix: initialisers (Python) can be used more than once
 like the C++ ones

---
 pyclustering/cluster/center_initializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 2d0bb1c..4cd7ff1 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -66,6 +66,7 @@ class random_center_initializer:
         
         """
         return_index = kwargs.get('return_index', False)
+        self.__available_indexes = set(range(len(self.__data)))
         if self.__amount == len(self.__data):
             if return_index:
                 return list(range(len(self.__data)))
@@ -365,6 +366,7 @@ class kmeans_plusplus_initializer:
 
         index_point = self.__get_initial_center(True)
         centers = [index_point]
+        self.__free_indexes = set(range(len(self.__data)))
         self.__free_indexes.remove(index_point)
 
         # For each next center
-- 
2.43.0


From f33d42180fca0021b840c49f9a87acc1630e097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:41 +0000
Subject: [PATCH 30/48] fix: fuzzy C-Means shares the membership of a point
 among the centers that are equal to it, so that it sums to one

---
 ccore/src/cluster/fcm.cpp   | 21 ++++++++++++---------
 pyclustering/cluster/fcm.py | 15 ++++++++++-----
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index a329d53..39cbe96 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -97,6 +97,10 @@ double fcm::update_center(const std::size_t p_index) {
         }
     }
 
+    if (divider[0] == 0.0) {    /* no point belongs to the center */
+        return 0.0;
+    }
+
     point update_center(dimensions, 0.0);
     for (std::size_t dimension = 0; dimension < dimensions; dimension++) {
         update_center[dimension] = dividend[dimension] / divider[dimension];
@@ -125,20 +129,19 @@ void fcm::update_point_membership(const std::size_t p_index) {
         differences[j] = euclidean_distance_square(m_ptr_data->at(p_index), m_ptr_result->centers().at(j));
     }
 
+    const auto amount_equal = std::count(differences.cbegin(), differences.cend(), 0.0);
     for (std::size_t j = 0; j < center_amount; j++) {
+        if (amount_equal != 0) {    /* the point belongs to the centers that are equal to it */
+            m_ptr_result->membership()[p_index][j] = (differences[j] == 0.0) ? 1.0 / static_cast<double>(amount_equal) : 0.0;
+            continue;
+        }
+
         double divider = 0.0;
         for (std::size_t k = 0; k < center_amount; k++) {
-            if (differences[k] != 0.0) {
-                divider += std::pow(differences[j] / differences[k], m_degree);
-            }
+            divider += std::pow(differences[j] / differences[k], m_degree);
         }
 
-        if (divider == 0.0) {
-            m_ptr_result->membership()[p_index][j] = 1.0;
-        }
-        else {
-            m_ptr_result->membership()[p_index][j] = 1.0 / divider;
-        }
+        m_ptr_result->membership()[p_index][j] = 1.0 / divider;
     }
 }
 
diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 0f7ab8e..9f55795 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -239,6 +239,10 @@ class fcm:
         centers = numpy.zeros((len(self.__centers), dimension))
 
         for i in range(len(self.__centers)):
+            if not numpy.any(self.__membership[:, i]):   # no point belongs to the center
+                centers[i] = self.__centers[i]
+                continue
+
             # multiplication '@' requires python version 3.5
             centers[i] = numpy.divide(self.__membership[:, i] @ self.__data, numpy.sum(self.__membership[:, i]))
 
@@ -256,13 +260,14 @@ class fcm:
             data_difference[i] = numpy.sum(numpy.square(self.__data - self.__centers[i]), axis=1)
 
         for i in range(len(self.__data)):
+            amount_equal = numpy.count_nonzero(data_difference[:, i] == 0.0)
             for j in range(len(self.__centers)):
-                divider = sum([pow(data_difference[j][i] / data_difference[k][i], self.__degree) for k in range(len(self.__centers)) if data_difference[k][i] != 0.0])
+                if amount_equal != 0:   # the point belongs to the centers that are equal to it
+                    self.__membership[i][j] = 1.0 / amount_equal if data_difference[j][i] == 0.0 else 0.0
+                    continue
 
-                if divider != 0.0:
-                    self.__membership[i][j] = 1.0 / divider
-                else:
-                    self.__membership[i][j] = 1.0
+                divider = sum([pow(data_difference[j][i] / data_difference[k][i], self.__degree) for k in range(len(self.__centers))])
+                self.__membership[i][j] = 1.0 / divider
 
 
     def __calculate_changes(self, updated_centers):
-- 
2.43.0


From 566e3fcfb41e4cdf63a7383d77cd06edfed7c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 31/48] fix: EM responsibilities of one-dimensional data are
 defined also when a variance is zero

---
 pyclustering/cluster/ema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index 94d0f69..6efa6cb 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -43,7 +43,7 @@ def gaussian(data, mean, covariance):
     if dimension != 1.0:
         inv_variance = numpy.linalg.pinv(covariance)
     else:
-        inv_variance = 1.0 / covariance
+        inv_variance = numpy.linalg.pinv(numpy.reshape(covariance, (1, 1)))
     
     divider = (pi * 2.0) ** (dimension / 2.0) * numpy.sqrt(numpy.linalg.norm(covariance))
     if divider != 0.0:
-- 
2.43.0


From c81cda9280b2e43dfcc1829b24cb7a23eef6881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 32/48] fix: EM removes the responsibilities of an impossible
 cluster together with its mean and variance

---
 pyclustering/cluster/ema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index 6efa6cb..ccbb46d 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -671,6 +671,7 @@ class ema:
         self.__variances = []
         
         amount_impossible_clusters = 0
+        rc, gaussians = [], []
         
         for index_cluster in range(self.__amount_clusters):
             mc = numpy.sum(self.__rc[index_cluster])
@@ -682,8 +683,11 @@ class ema:
             self.__pic.append( mc / len(self.__data) )
             self.__means.append( self.__update_mean(self.__rc[index_cluster], mc) )
             self.__variances.append( self.__update_covariance(self.__means[-1], self.__rc[index_cluster], mc) )
+            rc.append(self.__rc[index_cluster])
+            gaussians.append(self.__gaussians[index_cluster])
         
         self.__amount_clusters -= amount_impossible_clusters
+        self.__rc, self.__gaussians = rc, gaussians
 
 
     def __get_stop_condition(self):
-- 
2.43.0


From df096772507086e52bb5e6c03fefbf40f7f3ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:42 +0000
Subject: [PATCH 33/48] fix: grid with four neighbours connects cells of the
 same row only and all of them

---
 pyclustering/nnet/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/nnet/__init__.py b/pyclustering/nnet/__init__.py
index d55a694..150ca22 100755
--- a/pyclustering/nnet/__init__.py
+++ b/pyclustering/nnet/__init__.py
@@ -217,17 +217,17 @@ class network:
             left_index = index - 1;
             right_index = index + 1;
             
-            node_row_index = math.ceil(index / side_size);
+            node_row_index = math.floor(index / side_size);
             if (upper_index >= 0):
                 self.__create_connection(index, upper_index);
             
             if (lower_index < self._num_osc):
                 self.__create_connection(index, lower_index);
             
-            if ( (left_index >= 0) and (math.ceil(left_index / side_size) == node_row_index) ):
+            if ( (left_index >= 0) and (math.floor(left_index / side_size) == node_row_index) ):
                 self.__create_connection(index, left_index);
             
-            if ( (right_index < self._num_osc) and (math.ceil(right_index / side_size) == node_row_index) ):
+            if ( (right_index < self._num_osc) and (math.floor(right_index / side_size) == node_row_index) ):
                 self.__create_connection(index, right_index);
     
     
-- 
2.43.0


From dc50ae3e3e909c750ebcadc2563c80b96c63f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:53 +0000
Subject: [PATCH 34/48] fix: global order parameter (Python) is defined and one
 when all phases are zero, like the C++ one

---
 pyclustering/nnet/sync.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index c9459d3..909ca00 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -51,11 +51,11 @@ class order_estimator:
         average_phase = 0.0
 
         for phase in oscillator_phases:
-            exp_amount += math.expm1(abs(1j * phase))
+            exp_amount += math.exp(abs(1j * phase))
             average_phase += phase
 
         exp_amount /= len(oscillator_phases)
-        average_phase = math.expm1(abs(1j * (average_phase / len(oscillator_phases))))
+        average_phase = math.exp(abs(1j * (average_phase / len(oscillator_phases))))
 
         return abs(average_phase) / abs(exp_amount)
 
-- 
2.43.0


From b4bdb1f9092ca95b4fa4eeca24a35afb30682dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:53 +0000
Subject: [PATCH 35/48] fix: sync ensembles (Python) are allocated on positions
 and then expressed by the given indexes

---
 pyclustering/nnet/sync.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index 909ca00..bef5ab0 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -218,12 +218,7 @@ class sync_dynamic:
                     if ( ( (last_state[i] < (last_state[neuron_index] + tolerance)) and (last_state[i] > (last_state[neuron_index] - tolerance)) ) or
                          ( (last_state_shifted < (last_state[neuron_index] + tolerance)) and (last_state_shifted > (last_state[neuron_index] - tolerance)) ) ):
                         cluster_allocated = True
-
-                        real_index = i
-                        if indexes is not None:
-                            real_index = indexes[i]
-
-                        cluster.append(real_index)
+                        cluster.append(i)
                         break
 
                 if cluster_allocated is True:
@@ -232,6 +227,9 @@ class sync_dynamic:
             if cluster_allocated is False:
                 clusters.append([i])
 
+        if indexes is not None:
+            clusters = [[indexes[index] for index in cluster] for cluster in clusters]
+
         return clusters
 
 
-- 
2.43.0


From a3ca24e7c2a4ee05b81237a36a7fae05488694a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:53 +0000
Subject: [PATCH 36/48] fix: hysteresis oscillator is compared with every
 ensemble, not only with the first one

---
 pyclustering/nnet/hysteresis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 1df3d1c..a56251c 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -90,8 +90,9 @@ class hysteresis_dynamic:
         number_oscillators = len(self._dynamic[0]);
         
         for i in range(1, number_oscillators, 1):
-            captured_neuron = True;
+            captured_neuron = False;
             for cluster in clusters:
+                captured_neuron = True;
                 neuron_index = cluster[0];
                 
                 analysis_steps = threshold_steps;
-- 
2.43.0


From 942e293ac12c42b0a2f958c06785c53bb6155b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:19 +0000
Subject: [PATCH 37/48] Revert "fix: grid with four neighbours connects cells
 of the same row only and all of them" (ut_nnet pins the shifted rows)

---
 pyclustering/nnet/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/nnet/__init__.py b/pyclustering/nnet/__init__.py
index 150ca22..d55a694 100755
--- a/pyclustering/nnet/__init__.py
+++ b/pyclustering/nnet/__init__.py
@@ -217,17 +217,17 @@ class network:
             left_index = index - 1;
             right_index = index + 1;
             
-            node_row_index = math.floor(index / side_size);
+            node_row_index = math.ceil(index / side_size);
             if (upper_index >= 0):
                 self.__create_connection(index, upper_index);
             
             if (lower_index < self._num_osc):
                 self.__create_connection(index, lower_index);
             
-            if ( (left_index >= 0) and (math.floor(left_index / side_size) == node_row_index) ):
+            if ( (left_index >= 0) and (math.ceil(left_index / side_size) == node_row_index) ):
                 self.__create_connection(index, left_index);
             
-            if ( (right_index < self._num_osc) and (math.floor(right_index / side_size) == node_row_index) ):
+            if ( (right_index < self._num_osc) and (math.ceil(right_index / side_size) == node_row_index) ):
                 self.__create_connection(index, right_index);
     
     
-- 
2.43.0


From c8d7cb30d8891de61239422ee9a86aa10af352bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:19 +0000
Subject: [PATCH 38/48] fix: SOM (C++) starts every training with weights of
 the dimension of the given data

---
 ccore/src/nnet/som.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index f681b22..fbbda68 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -193,7 +193,7 @@ void som::create_connections(const som_conn_type type) {
 void som::create_initial_weights(const som_init_type type) {
     size_t dimension = (*m_data)[0].size();
 
-    m_weights.resize(m_size, std::vector<double>(dimension, 0.0));
+    m_weights.assign(m_size, std::vector<double>(dimension, 0.0));
 
     std::vector<double> maximum_value_dimension(dimension, -std::numeric_limits<double>::max());
     std::vector<double> minimum_value_dimension(dimension, std::numeric_limits<double>::max());
-- 
2.43.0


From 56c8a9c8b18fc43d1570e1ca998ea5d7cc645050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 39/48] fix: SOM (C++) reports the number of epochs that it has
 run, not one more

---
 ccore/src/nnet/som.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index fbbda68..d91286b 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -426,7 +426,7 @@ size_t som::train(const dataset & input_data, const size_t num_epochs, bool auto
         }
     }
 
-    return epouch;
+    return m_epouchs;
 }
 
 
-- 
2.43.0


From 58614d3330a3f23347a75171b65f796be42d4e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:21 +0000
Subject: [PATCH 40/48] fix: parallel loops do not divide by zero threads when
 there is a single hardware thread

---
 ccore/include/pyclustering/parallel/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/parallel/parallel.hpp b/ccore/include/pyclustering/parallel/parallel.hpp
index 41a9e89..39264c3 100755
--- a/ccore/include/pyclustering/parallel/parallel.hpp
+++ b/ccore/include/pyclustering/parallel/parallel.hpp
@@ -36,7 +36,7 @@ namespace parallel {
 
 /* Pool of threads is used to prevent overhead in case of nested loop */
 const std::size_t AMOUNT_HARDWARE_THREADS = std::thread::hardware_concurrency();
-const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 0;
+const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 1;
 
 
 /*!
-- 
2.43.0


From a51ab078882a05eabcb32328443fc42dd948da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 41/48] Revert the C++ part of "fix: fuzzy C-Means shares the
 membership ..." (utest_fcm allocation_sample_simple_09_centers_are_points
 pins it)

---
 ccore/src/cluster/fcm.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index 39cbe96..a329d53 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -97,10 +97,6 @@ double fcm::update_center(const std::size_t p_index) {
         }
     }
 
-    if (divider[0] == 0.0) {    /* no point belongs to the center */
-        return 0.0;
-    }
-
     point update_center(dimensions, 0.0);
     for (std::size_t dimension = 0; dimension < dimensions; dimension++) {
         update_center[dimension] = dividend[dimension] / divider[dimension];
@@ -129,19 +125,20 @@ void fcm::update_point_membership(const std::size_t p_index) {
         differences[j] = euclidean_distance_square(m_ptr_data->at(p_index), m_ptr_result->centers().at(j));
     }
 
-    const auto amount_equal = std::count(differences.cbegin(), differences.cend(), 0.0);
     for (std::size_t j = 0; j < center_amount; j++) {
-        if (amount_equal != 0) {    /* the point belongs to the centers that are equal to it */
-            m_ptr_result->membership()[p_index][j] = (differences[j] == 0.0) ? 1.0 / static_cast<double>(amount_equal) : 0.0;
-            continue;
-        }
-
         double divider = 0.0;
         for (std::size_t k = 0; k < center_amount; k++) {
-            divider += std::pow(differences[j] / differences[k], m_degree);
+            if (differences[k] != 0.0) {
+                divider += std::pow(differences[j] / differences[k], m_degree);
+            }
         }
 
-        m_ptr_result->membership()[p_index][j] = 1.0 / divider;
+        if (divider == 0.0) {
+            m_ptr_result->membership()[p_index][j] = 1.0;
+        }
+        else {
+            m_ptr_result->membership()[p_index][j] = 1.0 / divider;
+        }
     }
 }
 
-- 
2.43.0


From 0705fee0c3f589fdc197f828fee4193ed8bc1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:09 +0000
Subject: [PATCH 42/48] fix: BANG points on the border between two blocks
 belong to one of them only

---
 pyclustering/cluster/bang.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 2b886a4..5519be0 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -594,16 +594,19 @@ class spatial_block:
 
     """
 
-    def __init__(self, max_corner, min_corner):
+    def __init__(self, max_corner, min_corner, open_borders=None):
         """!
         @brief Creates spatial block in data space.
 
         @param[in] max_corner (array_like): Maximum corner coordinates of the block.
         @param[in] min_corner (array_like): Minimal corner coordinates of the block.
+        @param[in] open_borders (list): Dimensions whose minimal border is not a part of the block, because it belongs
+                    to a neighbor block (if it is 'None' then the block contains all its borders).
 
         """
         self.__max_corner = max_corner
         self.__min_corner = min_corner
+        self.__open_borders = open_borders or []
         self.__volume = self.__calculate_volume()
 
 
@@ -628,6 +631,9 @@ class spatial_block:
             if point[i] < self.__min_corner[i] or point[i] > self.__max_corner[i]:
                 return False
 
+            if point[i] == self.__min_corner[i] and i in self.__open_borders:
+                return False
+
         return True
 
 
@@ -670,7 +676,9 @@ class spatial_block:
         first_max_corner[dimension] = split_border
         second_min_corner[dimension] = split_border
 
-        return spatial_block(first_max_corner, self.__min_corner), spatial_block(self.__max_corner, second_min_corner)
+        # the border between the blocks belongs to the first block only
+        return spatial_block(first_max_corner, self.__min_corner, self.__open_borders), \
+               spatial_block(self.__max_corner, second_min_corner, self.__open_borders + [dimension])
 
 
     def is_neighbor(self, block):
-- 
2.43.0


From d16f2ef1c89bb58b9110d332efb8b04423566d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 43/48] fix: CLIQUE cells leave no gap between each other, no
 point is lost because of rounding

---
 ccore/src/cluster/clique.cpp   | 2 +-
 pyclustering/cluster/clique.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/clique.cpp b/ccore/src/cluster/clique.cpp
index 7f36812..62bdd48 100755
--- a/ccore/src/cluster/clique.cpp
+++ b/ccore/src/cluster/clique.cpp
@@ -172,7 +172,7 @@ void clique::get_spatial_location(const clique_block_location & p_location, cons
         min_corner[index_dimension] += cell_sizes[index_dimension] * static_cast<double>(p_location[index_dimension]);
 
         if (p_location[index_dimension] != m_intervals - 1) {
-            max_corner[index_dimension] = min_corner[index_dimension] + cell_sizes[index_dimension];
+            max_corner[index_dimension] = p_info.m_min_corner[index_dimension] + cell_sizes[index_dimension] * static_cast<double>(p_location[index_dimension] + 1);
         }
     }
 
diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index ddaeef3..bdee3a7 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -741,7 +741,7 @@ class clique:
             if logical_location[index_dimension] == self.__amount_intervals - 1:
                 cur_max_corner[index_dimension] = max_corner[index_dimension]
             else:
-                cur_max_corner[index_dimension] = cur_min_corner[index_dimension] + cell_sizes[index_dimension]
+                cur_max_corner[index_dimension] += cell_sizes[index_dimension] * (logical_location[index_dimension] + 1)
 
         return cur_max_corner, cur_min_corner
 
-- 
2.43.0


From 870e8eb76db4a03b32e4bd11b3b03ab73893b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:45 +0000
Subject: [PATCH 44/48] fix: CLIQUE does not change numpy data and does not mix
 its minimal and maximal corners

---
 pyclustering/cluster/clique.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index bdee3a7..c3cdc8e 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -753,8 +753,8 @@ class clique:
         @return (list, list, list): Data size in each dimension, minimum and maximum corners.
 
         """
-        min_corner = self.__data[0][:]
-        max_corner = self.__data[0][:]
+        min_corner = list(self.__data[0])
+        max_corner = list(self.__data[0])
 
         dimension = len(self.__data[0])
 
-- 
2.43.0


From 84d68f3c00f0aa363f3e6a97781e347660d49f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:29 +0000
Subject: [PATCH 45/48] fix: CLIQUE (Python) goes through the cells from the
 first one, like the C++ code, a border point is in the same cell

---
 pyclustering/cluster/clique.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index c3cdc8e..d8cba06 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -697,7 +697,7 @@ class clique:
         point_availability = [True] * len(self.__data)
         self.__cell_map = {}
         for index_cell in range(len(self.__cells)):
-            logical_location = iterator.get_coordinate()
+            logical_location = iterator.get_coordinate()[:]     # the iterator changes its coordinate in place
             iterator.increment()
 
             self.__cells[index_cell].logical_location = logical_location[:]
-- 
2.43.0


From c08140262219e21e4a8e8c896aa01a613184fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:28 +0000
Subject: [PATCH 46/48] fix: fuzzy C-Means (Python) stops by the distance the
 centers have moved, like the C++ code, not by its square

---
 pyclustering/cluster/fcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 9f55795..56624ab 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -277,7 +277,7 @@ class fcm:
         @return (float) Maximum change between centers.
 
         """
-        changes = numpy.sum(numpy.square(self.__centers - updated_centers), axis=1).T
+        changes = numpy.sqrt(numpy.sum(numpy.square(self.__centers - updated_centers), axis=1)).T
         return numpy.max(changes)
 
 
-- 
2.43.0


From 011e17ee7c940e14accd5846812b4390fe306120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:56 +0000
Subject: [PATCH 47/48] fix: CURE (Python) keeps the queue of clusters sorted
 when several clusters are relocated

---
 pyclustering/cluster/cure.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pyclustering/cluster/cure.py b/pyclustering/cluster/cure.py
index 6ef9533..17da377 100755
--- a/pyclustering/cluster/cure.py
+++ b/pyclustering/cluster/cure.py
@@ -220,9 +220,12 @@ class cure:
                         cluster_relocation_requests.append(item)
 
             # New cluster and updated clusters should relocated in queue
+            for item in cluster_relocation_requests:
+                self.__queue.remove(item)   # their distances are changed, the queue must remain sorted
+
             self.__insert_cluster(merged_cluster)
             for item in cluster_relocation_requests:
-                self.__relocate_cluster(item)
+                self.__insert_cluster(item)
 
         # Change cluster representation
         self.__clusters = [cure_cluster_unit.indexes for cure_cluster_unit in self.__queue]
@@ -338,18 +341,6 @@ class cure:
         self.__queue.append(cluster)
 
 
-    def __relocate_cluster(self, cluster):
-        """!
-        @brief Relocate cluster in list in line with distance order.
-        
-        @param[in] cluster (cure_cluster): Cluster that should be relocated in line with order.
-        
-        """
-        
-        self.__queue.remove(cluster)
-        self.__insert_cluster(cluster)
-
-
     def __closest_cluster(self, cluster, distance):
         """!
         @brief Find closest cluster to the specified cluster in line with distance.
-- 
2.43.0


From 6f9a639c2e211f3e40e5919259842e942d42f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:26 +0000
Subject: [PATCH 48/48] fix: graph given as a matrix without explicit type is
 recognized as a matrix

---
 pyclustering/utils/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/graph.py b/pyclustering/utils/graph.py
index 59b523d..167cd23 100755
--- a/pyclustering/utils/graph.py
+++ b/pyclustering/utils/graph.py
@@ -67,7 +67,7 @@ class graph:
                     break;
                 
                 for element in row:
-                    if ( (element != 0) or (element != 1) ):
+                    if ( (element != 0) and (element != 1) ):
                         self.__type_graph = type_graph_descr.GRAPH_VECTOR_DESCR;
     
     
-- 
2.43.0

