From 49fe84ac6a90c7d068374b3512702be749bb6695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 1/8] fix: allocate enough kd-tree nodes for max_leaf_size < 3

---
 include/small_gicp/ann/kdtree.hpp     | 3 ++-
 include/small_gicp/ann/kdtree_omp.hpp | 3 ++-
 include/small_gicp/ann/kdtree_tbb.hpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index b0d7b34..f9d0d06 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -82,7 +82,8 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     size_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    // Leaf nodes may hold a single point when max_leaf_size < 3 (i.e., up to 2N-1 nodes).
+    kdtree.nodes.resize(max_leaf_size < 3 ? 2 * traits::size(points) : traits::size(points));
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
diff --git a/include/small_gicp/ann/kdtree_omp.hpp b/include/small_gicp/ann/kdtree_omp.hpp
index 2968a5e..72cd554 100644
--- a/include/small_gicp/ann/kdtree_omp.hpp
+++ b/include/small_gicp/ann/kdtree_omp.hpp
@@ -26,7 +26,8 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    // Leaf nodes may hold a single point when max_leaf_size < 3 (i.e., up to 2N-1 nodes).
+    kdtree.nodes.resize(max_leaf_size < 3 ? 2 * traits::size(points) : traits::size(points));
 
 #ifndef _MSC_VER
 #pragma omp parallel num_threads(num_threads)
diff --git a/include/small_gicp/ann/kdtree_tbb.hpp b/include/small_gicp/ann/kdtree_tbb.hpp
index 890fbb8..669529a 100644
--- a/include/small_gicp/ann/kdtree_tbb.hpp
+++ b/include/small_gicp/ann/kdtree_tbb.hpp
@@ -18,7 +18,8 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    // Leaf nodes may hold a single point when max_leaf_size < 3 (i.e., up to 2N-1 nodes).
+    kdtree.nodes.resize(max_leaf_size < 3 ? 2 * traits::size(points) : traits::size(points));
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
-- 
2.43.0


From 64096a327316c8add81d277e3a00e87be38213ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 2/8] fix: do not output out-of-range points in voxel grid
 sampling

---
 include/small_gicp/util/downsampling.hpp     | 3 +++
 include/small_gicp/util/downsampling_omp.hpp | 4 ++++
 include/small_gicp/util/downsampling_tbb.hpp | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 97aab23..669fa6b 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -52,6 +52,9 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   // Sort by voxel coord
   const auto compare = [](const auto& lhs, const auto& rhs) { return lhs.first < rhs.first; };
   std::sort(coord_pt.begin(), coord_pt.end(), compare);
+  if (coord_pt.front().first == invalid_coord) {
+    return std::make_shared<OutputPointCloud>();  // No point in the valid range
+  }
 
   auto downsampled = std::make_shared<OutputPointCloud>();
   traits::resize(*downsampled, traits::size(points));
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index b616fe7..18b4afb 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -64,6 +64,10 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 4)
   for (std::int64_t block_begin = 0; block_begin < traits::size(points); block_begin += block_size) {
+    if (coord_pt[block_begin].first == invalid_coord) {
+      continue;  // No point in the valid range remains
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index 8d5746e..3e389d4 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -64,6 +64,10 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   const int block_size = 2048;
   std::atomic_uint64_t num_points = 0;
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), block_size), [&](const tbb::blocked_range<size_t>& range) {
+    if (coord_pt[range.begin()].first == invalid_coord) {
+      return;  // No point in the valid range remains
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
-- 
2.43.0


From 09bf17b4a618d0c50f3583a3946f2181055e0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 3/8] fix: exclude the homogeneous coordinate from the voxel
 range check

---
 include/small_gicp/util/downsampling.hpp     | 2 +-
 include/small_gicp/util/downsampling_omp.hpp | 2 +-
 include/small_gicp/util/downsampling_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 669fa6b..3d842c0 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -35,7 +35,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   std::vector<std::pair<std::uint64_t, size_t>> coord_pt(traits::size(points));
   for (size_t i = 0; i < traits::size(points); i++) {
     const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-    if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+    if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
       continue;
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index 18b4afb..f22c655 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -39,7 +39,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 32)
   for (std::int64_t i = 0; i < traits::size(points); i++) {
     const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-    if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+    if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
       continue;
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index 3e389d4..688717d 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -39,7 +39,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), 64), [&](const tbb::blocked_range<size_t>& range) {
     for (size_t i = range.begin(); i != range.end(); i++) {
       const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-      if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+      if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
         std::cerr << "warning: voxel coord is out of range!!" << std::endl;
         coord_pt[i] = {invalid_coord, i};
         continue;
-- 
2.43.0


From 2927707fef3b56443f90b5b6680e286c24dc199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 4/8] fix: replace the search offsets when the 27-voxel pattern
 is selected

---
 include/small_gicp/ann/incremental_voxelmap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index faa74f0..6ca65ef 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -173,6 +173,7 @@ public:
           Eigen::Vector3i(0, 0, -1)};
         break;
       case 27:
+        search_offsets.clear();
         for (int i = -1; i <= 1; i++) {
           for (int j = -1; j <= 1; j++) {
             for (int k = -1; k <= 1; k++) {
-- 
2.43.0


From 1cc2a7beaed68176d5d6723e9c1bda549e89e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 5/8] fix: add the general factor error to the trial error in
 LM

---
 include/small_gicp/registration/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/registration/optimizer.hpp b/include/small_gicp/registration/optimizer.hpp
index cfbf52f..430c5fa 100644
--- a/include/small_gicp/registration/optimizer.hpp
+++ b/include/small_gicp/registration/optimizer.hpp
@@ -111,7 +111,7 @@ struct LevenbergMarquardtOptimizer {
         // Validte new solution
         const Eigen::Isometry3d new_T = result.T_target_source * se3_exp(delta);
         double new_e = reduction.error(target, source, new_T, factors);
-        general_factor.update_error(target, source, new_T, &e);
+        general_factor.update_error(target, source, new_T, &new_e);
 
         if (verbose) {
           std::cout << "iter=" << i << " inner=" << j << " e=" << e << " new_e=" << new_e << " lambda=" << lambda << " dt=" << delta.tail<3>().norm()
-- 
2.43.0


From 8ec4194fd429a79de29ffcc7d1ade31fbfde15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 6/8] fix: validate the given voxel resolution and drop
 outdated voxel maps in RegistrationPCL

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 315ff67..d90277d 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -74,6 +74,7 @@ void RegistrationPCL<PointSource, PointTarget>::setSourceCovariances(const std::
   }
 
   source_covs_ = covs;
+  source_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -89,6 +90,7 @@ void RegistrationPCL<PointSource, PointTarget>::setTargetCovariances(const std::
   }
 
   target_covs_ = covs;
+  target_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -159,12 +161,14 @@ void RegistrationPCL<PointSource, PointTarget>::setNumNeighborsForCovariance(int
 
 template <typename PointSource, typename PointTarget>
 void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
-  if (voxel_resolution_ <= 0) {
+  if (r <= 0) {
     PCL_ERROR("[RegistrationPCL::setVoxelResolution] Invalid voxel resolution: %f\n", r);
     r = 1.0;
   }
 
   voxel_resolution_ = r;
+  source_voxelmap_.reset();
+  target_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From d6931190c5e8da48fe6b2dfbbe84cdb37ae671a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 7/8] fix: honour max_correspondence_distance in VGICP
 alignment

---
 src/small_gicp/registration/registration_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 73b01bd..2168d9c 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -129,6 +129,7 @@ RegistrationResult align(const GaussianVoxelMap& target, const PointCloud& sourc
 
   Registration<GICPFactor, ParallelReductionOMP> registration;
   registration.reduction.num_threads = setting.num_threads;
+  registration.rejector.max_dist_sq = setting.max_correspondence_distance * setting.max_correspondence_distance;
   registration.criteria.rotation_eps = setting.rotation_eps;
   registration.criteria.translation_eps = setting.translation_eps;
   registration.optimizer.max_iterations = setting.max_iterations;
-- 
2.43.0


From 6330b2caecd2d03c0356c4b61597f88b8a8c69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:43 +0000
Subject: [PATCH 8/8] fix: forward num_threads to the downsampling in
 preprocess_points

---
 src/small_gicp/registration/registration_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 2168d9c..d1209ba 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -26,7 +26,7 @@ std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> preprocess_point
     estimate_normals_covariances(*downsampled, *kdtree, num_neighbors);
     return {downsampled, kdtree};
   } else {
-    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution);
+    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution, num_threads);
     auto kdtree = std::make_shared<KdTree<PointCloud>>(downsampled);
     estimate_normals_covariances_omp(*downsampled, *kdtree, num_neighbors, num_threads);
     return {downsampled, kdtree};
-- 
2.43.0

