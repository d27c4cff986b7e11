From 4904a175723271c839e4c499a76a22ccaedd7046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 01/21] fix: accept cells exactly at the threshold distance in
 the type 2 sanity assertion

For non-touching cells the smallest possible distance to the power d may equal
the largest possible weight term (e.g. unit weights, n = 16, d = 1), which is
harmless because both bounds are never attained. The strict assertion aborted
on such inputs.
---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 90579ce..361a892 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -242,7 +242,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
     const auto cell_distance = CoordinateHelper::dist(cellA, cellB, level);
     const auto dist_lower_bound = pow_to_the<D>(cell_distance);
     const auto max_connection_prob = std::min(std::pow(w_upper_bound/dist_lower_bound, m_alpha), 1.0);
-    assert(dist_lower_bound > w_upper_bound); // in threshold model we would not sample anything
+    assert(dist_lower_bound >= w_upper_bound); // in threshold model we would not sample anything
     const auto num_pairs = sizeV_i_A * sizeV_j_B;
     const auto expected_samples = num_pairs * max_connection_prob;
 
-- 
2.43.0


From fc8171c17f7f6e65f918097a5e3d2cfbb58c9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 02/21] fix: compute floor(log2(W/w0^2)) exactly, std::log2
 rounds values just below an integer up and trips the level assertions

---
 source/girgs/include/girgs/SpatialTree.h   |  3 +++
 source/girgs/include/girgs/SpatialTree.inl | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/girgs/include/girgs/SpatialTree.h b/source/girgs/include/girgs/SpatialTree.h
index 714c9d0..6c5ad52 100644
--- a/source/girgs/include/girgs/SpatialTree.h
+++ b/source/girgs/include/girgs/SpatialTree.h
@@ -127,6 +127,9 @@ protected:
      */
     void sampleTypeII(unsigned int cellA, unsigned int cellB, unsigned int level, unsigned int i, unsigned int j);
 
+    /// largest integer k with \f$w_0^2/W \leq 2^{-k}\f$, i.e. \f$\lfloor\log_2(W/w_0^2)\rfloor\f$
+    static int computeBaseLevelConstant(double w0, double W);
+
     /**
      * @brief
      *  The insertion level for all nodes in specified weight layer.
diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 361a892..616f827 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -15,7 +15,7 @@ SpatialTree<D, EdgeCallback>::SpatialTree(const std::vector<double>& weights, co
 , m_w0(*std::min_element(weights.begin(), weights.end()))
 , m_wn(*std::max_element(weights.begin(), weights.end()))
 , m_W(std::accumulate(weights.begin(), weights.end(), 0.0))
-, m_baseLevelConstant(static_cast<int>(std::log2(m_W/m_w0/m_w0))) // log2(W/w0^2)
+, m_baseLevelConstant(computeBaseLevelConstant(m_w0, m_W)) // log2(W/w0^2)
 , m_layers(static_cast<unsigned int>(floor(std::log2(m_wn/m_w0)))+1)
 , m_levels(partitioningBaseLevel(0,0) + 1) // (log2(W/w0^2) - 2) / d
 {
@@ -296,6 +296,15 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
 }
 
 
+template<unsigned int D, typename EdgeCallback>
+int SpatialTree<D, EdgeCallback>::computeBaseLevelConstant(double w0, double W) {
+    // largest k with w0^2/W <= 2^-k; std::log2 would round a value slightly below an integer up to it
+    int exponent;
+    const auto mantissa = std::frexp(w0*w0/W, &exponent); // in [0.5, 1)
+    return mantissa == 0.5 ? 1 - exponent : -exponent;
+}
+
+
 template<unsigned int D, typename EdgeCallback>
 unsigned int SpatialTree<D, EdgeCallback>::weightLayerTargetLevel(int layer) const {
     // -1 coz w0 is the upper bound for layer 0 in paper and our layers are shifted by -1
-- 
2.43.0


From 662f137b48d3e6d1a50bcbba9ac67c805a00b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 03/21] fix: HyperbolicTree::generate deadlocks if there are no
 tasks or fewer threads than requested; read tasks_generated under the lock
 only

---
 .../include/hypergirgs/HyperbolicTree.inl     | 38 ++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index ebd2770..caeb646 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -95,23 +95,27 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
     #pragma omp parallel num_threads(num_threads)
     {
 
+        // the runtime may provide less threads than requested (e.g., in nested regions)
         const auto tid = omp_get_thread_num();
+        const auto team_size = omp_get_num_threads();
 
     // 1. Phase
         // one thread will generate the task list
-        if (tid + 1 == num_threads && first_parallel_level < m_levels) {
-            ScopedTimer timer("Gen Tasks", m_profile);
-            tasks.reserve(num_tasks);
+        if (tid + 1 == team_size) {
+            if (first_parallel_level < m_levels) {
+                ScopedTimer timer("Gen Tasks", m_profile);
+                tasks.reserve(num_tasks);
 
-            visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
+                visitCellPairCreateTasks(0, 0, 0, first_parallel_level, tasks);
 
-            // In spirit of the LPT scheduling, we place expensive tasks to be processed first
-            std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
-                return t.cellA == t.cellB;});
+                // In spirit of the LPT scheduling, we place expensive tasks to be processed first
+                std::partition(tasks.begin(), tasks.end(), [] (const TaskDescription& t) {
+                    return t.cellA == t.cellB;});
 
-            assert(num_tasks == tasks.size());
+                assert(num_tasks == tasks.size());
+            }
 
-            // inform consumers that tasks are ready
+            // inform consumers that tasks are ready; also if there are none
             {
                 std::lock_guard<std::mutex> lock(mutex);
                 tasks_generated = true;
@@ -119,15 +123,15 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
             cv.notify_all();
         }
 
-        // all others will sample the cells in the first levels of the recursion tree
-        if (tid + 1 < num_threads) {
-            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, tid, gens[tid]);
+        // all others will sample the cells in the first levels of the recursion tree;
+        // shares of threads we did not get are processed by the threads that exist
+        for (auto share = tid; share + 1 < num_threads; share += team_size)
+            visitCellPairSample(0, 0, 0, first_parallel_level, num_threads - 1, share, gens[share]);
 
-            // wait until tasks are ready
-            if (!tasks_generated) {
-                std::unique_lock<std::mutex> lock(mutex);
-                cv.wait(lock, [&] {return tasks_generated;});
-            }
+        // wait until tasks are ready
+        {
+            std::unique_lock<std::mutex> lock(mutex);
+            cv.wait(lock, [&] {return tasks_generated;});
         }
 
     // 2. Phase
-- 
2.43.0


From 554baf97dcb6d96352063febe2b96118738b6b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 04/21] fix: assign points next to a layer border to the radius
 layer whose bounds contain them

---
 source/hypergirgs/source/RadiusLayer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index c2eb30c..2dbe503 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -45,11 +45,17 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
     const auto n = radii.size();
 
     // translate radius <-> layer
-    auto radius_to_layer = [R, layer_height] (double radius) {return static_cast<unsigned int>( (R - radius) / layer_height );};
     auto layer_rad_max   = [R, layer_height] (int l) {return R - l * layer_height;};
     auto layer_rad_min   = [R, layer_height] (int l) {return R - l * layer_height - layer_height;};
     const auto r_min_outer = R - layer_height;
     auto num_layers = static_cast<unsigned int>(std::ceil( R / layer_height));
+    auto radius_to_layer = [&] (double radius) {
+        auto layer = static_cast<unsigned int>( (R - radius) / layer_height );
+        // rounding may have moved points next to a border into the neighboring layer
+        if (layer > 0 && radius > layer_rad_max(layer)) --layer;
+        else if (layer + 1 < num_layers && radius <= layer_rad_min(layer)) ++layer;
+        return layer;
+    };
 
     // generate look-up to get the level of a layer
     const auto level_of_layer = [&] {
-- 
2.43.0


From 0d3a3ae35fdc81b72a2a2cc6c95c66c0560c97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 05/21] fix: assertion on connected pairs has to tolerate
 rounding, it aborts for pairs at distance R

---
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index caeb646..8a9c453 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -317,7 +317,8 @@ void HyperbolicTree<EdgeCallback>::sampleTypeI(unsigned int cellA, unsigned int
             assert(nodeInA != nodeInB);
             if(inThresholdMode) {
                 if (nodeInA.isDistanceBelowR(nodeInB, m_coshR)) {
-                    assert(hyperbolicDistance(nodeInA.radius, nodeInA.angle, nodeInB.radius, nodeInB.angle) < m_R);
+                    // both ways to compute the distance are only exact up to rounding
+                    assert(hyperbolicDistance(nodeInA.radius, nodeInA.angle, nodeInB.radius, nodeInB.angle) < m_R + 1e-14 * m_coshR);
                     m_edgeCallback(nodeInA.id, nodeInB.id, threadId);
                 }
             } else {
-- 
2.43.0


From 244dd7eddcb20a707fd387c77e2e88bf1b36a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 06/21] fix: lower radius bound of the innermost layer must not
 be negative, levels beyond the deepest one are accessed for R < 4/3

---
 source/hypergirgs/source/RadiusLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index 2dbe503..a76396e 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -46,7 +46,7 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
 
     // translate radius <-> layer
     auto layer_rad_max   = [R, layer_height] (int l) {return R - l * layer_height;};
-    auto layer_rad_min   = [R, layer_height] (int l) {return R - l * layer_height - layer_height;};
+    auto layer_rad_min   = [R, layer_height] (int l) {return std::max(0.0, R - l * layer_height - layer_height);}; // radii are not negative
     const auto r_min_outer = R - layer_height;
     auto num_layers = static_cast<unsigned int>(std::ceil( R / layer_height));
     auto radius_to_layer = [&] (double radius) {
-- 
2.43.0


From deca37c82fe6763567e41036f6358ea398ac0287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 07/21] fix: distance filter misjudges pairs if no distance has
 the requested probability (small R, high T)

---
 source/hypergirgs/include/hypergirgs/DistanceFilter.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/DistanceFilter.h b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
index b0e830b..e605d79 100644
--- a/source/hypergirgs/include/hypergirgs/DistanceFilter.h
+++ b/source/hypergirgs/include/hypergirgs/DistanceFilter.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <limits>
@@ -60,9 +61,9 @@ public:
 private:
 
     /// inverse of the edge probability function
-    /// invConnectionProb(p_uv) = dist_uv
+    /// invConnectionProb(p_uv) = dist_uv; 0 if no distance has such a high probability
     double invConnectionProb(double p, double R, double T) const {
-        return R + 2*T*std::log(1.0 / p - 1);
+        return std::max(0.0, R + 2*T*std::log(1.0 / p - 1));
     }
 
     std::array<double, stages+1> filter_stages; ///< pos i holds the cosh(distance) at which to points would have a connection prob of (i/stages)
-- 
2.43.0


From f516a3f0a0cce7225dc588f658bbeb6734378a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 08/21] fix: sequential parts of the edge generation use the
 thread id of the caller's parallel region, out of bounds if called from one

---
 source/girgs/include/girgs/SpatialTree.inl              | 4 +++-
 source/hypergirgs/include/hypergirgs/HyperbolicTree.inl | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 616f827..e89e4ed 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -56,7 +56,8 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
 
     // sample all edges
 	if (num_threads == 1) { 
-        // sequential
+        // sequential; in a team of its own, since the caller may be any thread of an outer parallel region
+        #pragma omp parallel num_threads(1)
 		visitCellPair(0, 0, 0);
 		assert(m_type1_checks + m_type2_checks == m_n*(m_n - 1ll));
 		return;
@@ -69,6 +70,7 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
 
     // saw off recursion before "first_parallel_level" and save all calls that would be made
     auto parallel_calls = std::vector<std::vector<unsigned int>>(parallel_cells);
+    #pragma omp parallel num_threads(1)
     visitCellPair_sequentialStart(0, 0, 0, first_parallel_level, parallel_calls);
 
     // do the collected calls in parallel
diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 8a9c453..62a5caa 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -62,6 +62,8 @@ void HyperbolicTree<EdgeCallback>::generate(int seed) const {
     const auto num_threads = omp_get_max_threads();
     if(num_threads == 1) {
         default_random_engine master_gen(seed >= 0 ? seed : std::random_device{}());
+        // in a team of its own, since the caller may be any thread of an outer parallel region
+        #pragma omp parallel num_threads(1)
         visitCellPair(0,0,0, master_gen);
         assert(m_type1_checks + m_type2_checks == static_cast<long long>(m_n-1) * m_n);
         return;
-- 
2.43.0


From db114ae7aac61449a9be85f1c8dcce7150ec9f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 09/21] fix: integer sort accesses memory out of bounds if the
 largest key is a power of two, fails for 64 bit keys

---
 source/girgs/include/girgs/IntSort.h          | 22 ++++++-------------
 .../hypergirgs/include/hypergirgs/IntSort.h   | 22 ++++++-------------
 2 files changed, 14 insertions(+), 30 deletions(-)

diff --git a/source/girgs/include/girgs/IntSort.h b/source/girgs/include/girgs/IntSort.h
index c0df6f0..d6ca858 100644
--- a/source/girgs/include/girgs/IntSort.h
+++ b/source/girgs/include/girgs/IntSort.h
@@ -21,21 +21,13 @@
 namespace intsort {
 namespace IntSortInternal {
 
+/// number of bits needed to represent all values in [0, ..., x]
 template<typename T>
-uint32_t ilog2(T x) {
-    if (!x) return 0;
-
-    const typename std::make_unsigned<T>::type input = x;
-
-    int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
-
-    return i;
+uint32_t bit_length(T x) {
+    uint32_t bits = 0;
+    for (typename std::make_unsigned<T>::type rest = x; rest; rest >>= 1)
+        ++bits;
+    return bits;
 }
 
 template <typename T1, typename T2>
@@ -57,7 +49,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{bit_length(max_key)},
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
diff --git a/source/hypergirgs/include/hypergirgs/IntSort.h b/source/hypergirgs/include/hypergirgs/IntSort.h
index c0df6f0..d6ca858 100644
--- a/source/hypergirgs/include/hypergirgs/IntSort.h
+++ b/source/hypergirgs/include/hypergirgs/IntSort.h
@@ -21,21 +21,13 @@
 namespace intsort {
 namespace IntSortInternal {
 
+/// number of bits needed to represent all values in [0, ..., x]
 template<typename T>
-uint32_t ilog2(T x) {
-    if (!x) return 0;
-
-    const typename std::make_unsigned<T>::type input = x;
-
-    int i = 0;
-    while (x >>= 1) i++;
-
-    i += (input > (1llu << i));
-
-    assert((1llu << i) >= input);
-    assert((1llu << i) / 2 < input);
-
-    return i;
+uint32_t bit_length(T x) {
+    uint32_t bits = 0;
+    for (typename std::make_unsigned<T>::type rest = x; rest; rest >>= 1)
+        ++bits;
+    return bits;
 }
 
 template <typename T1, typename T2>
@@ -57,7 +49,7 @@ public:
     IntSortImpl(KeyExtract key_extract, const Key max_key) :
         key_extract{key_extract},
         max_key{max_key},
-        max_bits{ilog2(max_key)},
+        max_bits{bit_length(max_key)},
         msb_radix_width{std::min(max_bits, RADIX_WIDTH)},
         msb_radix{Key{1} << msb_radix_width},
         msb_shift{max_bits - msb_radix_width},
-- 
2.43.0


From f84453e5c45eb63329836faee8b09188eb003ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 10/21] fix: genhrg must not accept alpha = 0.5, the radius is
 infinite and edge generation crashes

---
 README.md                  | 2 +-
 source/cli/genhrg/main.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 5bc9c6b..29ce914 100644
--- a/README.md
+++ b/README.md
@@ -107,7 +107,7 @@ The HRG generator features the following input parameters.
 ./genhrg --help
 usage: ./genhrg
 		[-n anInt]          // number of nodes                          default 10000
-		[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75
+		[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75
 		[-t aFloat]         // temperature parameter    range [0,1)     default 0
 		[-deg aFloat]       // average degree           range [1,n)     default 10
 		[-rseed anInt]      // radii seed                               default 12
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index d0eedcb..996c491 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -55,7 +55,7 @@ int main(int argc, char* argv[]) {
     if (argc < 2 || 0 == strcmp(argv[1], "--help") || 0 == strcmp(argv[1], "-help")) {
         clog << "usage: ./genhrg\n"
             << "\t\t[-n anInt]          // number of nodes                          default 10000\n"
-            << "\t\t[-alpha aFloat]     // model parameter          range [0.5,1]   default 0.75\n"
+            << "\t\t[-alpha aFloat]     // model parameter          range (0.5,1]   default 0.75\n"
             << "\t\t[-t aFloat]         // temperature parameter    range [0,1)     default 0\n"
             << "\t\t[-deg aFloat]       // average degree           range [1,n)     default 10\n"
             << "\t\t[-rseed anInt]      // radii seed                               default 12\n"
@@ -98,7 +98,7 @@ int main(int argc, char* argv[]) {
     // log params and range checks
     cout << "using:\n";
     logParam(n, "n");
-    rangeCheck(alpha, 0.5, 1.0, "alpha");
+    rangeCheck(alpha, 0.5, 1.0, "alpha", true);
     rangeCheck(T, 0.0, 1.0, "t", false, true);
     rangeCheck(deg, 1.0, n-1.0, "deg");
     logParam(rseed, "rseed");
-- 
2.43.0


From 8af6d581141e277294961d0c3ca472699d62de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 11/21] fix: reject parameters that are not a number

---
 source/cli/gengirg/main.cpp | 2 +-
 source/cli/genhrg/main.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cli/gengirg/main.cpp b/source/cli/gengirg/main.cpp
index 8dfc6b9..299649e 100644
--- a/source/cli/gengirg/main.cpp
+++ b/source/cli/gengirg/main.cpp
@@ -40,7 +40,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
diff --git a/source/cli/genhrg/main.cpp b/source/cli/genhrg/main.cpp
index 996c491..f698a69 100644
--- a/source/cli/genhrg/main.cpp
+++ b/source/cli/genhrg/main.cpp
@@ -39,7 +39,7 @@ void logParam(T value, const string& name) {
 
 template<typename T>
 void rangeCheck(T value, T min, T max, string name, bool lex = false, bool hex = false) {
-    if (value < min || value > max || (value == min && lex) || (value == max && hex)) {
+    if (!(value >= min && value <= max) || (value == min && lex) || (value == max && hex)) {
         cerr << "ERROR: parameter " << name << " = " << value << " is not in range "
             << (lex ? "(" : "[") << min << "," << max << (hex ? ")" : "]") << '\n';
         exit(1);
-- 
2.43.0


From abad4f2b841a8b3228f5f381e6e2311ef1a7b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 12/21] fix: NetworKit radius search aborts or never ends if
 its bracket misses the solution, none exists or doubles cannot reach the
 accuracy

---
 source/hypergirgs/source/Generator.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index ddf488d..c7ac9e9 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -5,6 +5,7 @@
 #include <fstream>
 #include <cmath>
 #include <mutex>
+#include <stdexcept>
 
 #include <omp.h>
 
@@ -36,10 +37,26 @@ static double searchTargetRadiusForColdGraphs(double n, double k, double alpha,
     double currentR = 2*log(n / v);
     double lowerBound = currentR/2;
     double upperBound = currentR*2;
-    assert(getExpectedDegree(n, alpha, lowerBound) > k);
+    if (getExpectedDegree(n, alpha, lowerBound) < k) {
+        // lowerBound is too large, or too small already since the degree decreases again for small radii;
+        // the largest possible degree is a valid bound in both cases
+        auto left = 0.0, right = upperBound;
+        while (right - left > 1e-9) {
+            const auto a = left + (right - left) / 3, b = right - (right - left) / 3;
+            if (getExpectedDegree(n, alpha, a) < getExpectedDegree(n, alpha, b))
+                left = a;
+            else
+                right = b;
+        }
+        lowerBound = (left + right) / 2;
+        if (!(getExpectedDegree(n, alpha, lowerBound) + epsilon > k))
+            throw std::runtime_error("Error: there is no radius for the desired average degree");
+    }
     assert(getExpectedDegree(n, alpha, upperBound) < k);
     do {
         currentR = (lowerBound + upperBound)/2;
+        if (currentR <= lowerBound || currentR >= upperBound)
+            break; // limit of double precision
         double currentK = getExpectedDegree(n, alpha, currentR);
         // std::cout << "n: " << n << " k: " << k << " alpha: " << alpha << " curK: " << currentK << " R: " << currentR << std::endl;
         if (currentK < k) {
-- 
2.43.0


From de1c83625174d734e0677851be9689a62113905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 13/21] fix: weight scaling subtracts the self-pair of vertices
 that are not part of their own rich club

---
 source/girgs/source/WeightScaling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 6147096..9473877 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -136,7 +136,7 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
 
             error += w2sum * pow2c * fac - (std::distance(sweights.cbegin(), w2));
 
-            if (w2 >= w1) {
+            if (w2 > w1) {
                 // we have to subtract the self-contribution of x == y
                 error -= pow2c * fac * (*w1) - 1.0;
             }
@@ -251,7 +251,7 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
             w_terms       += sweights[i1]    * w2_sum       / W;
             w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
 
-            if (i2 >= i1) {
+            if (i2 > i1) {
                 num_terms--;
                 w_terms       -= sweights[i1]    * sweights[i1]    / W;
                 w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
-- 
2.43.0


From 7403173e87bd3a6c005ae6c5a8f2d615968c6017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 14/21] fix: weight scaling for finite alpha misses the degree
 or never ends, differences of sums dominated by the heaviest pairs cancel
 catastrophically

---
 source/girgs/source/WeightScaling.cpp | 119 +++++++++-----------------
 1 file changed, 42 insertions(+), 77 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index 9473877..bcea894 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -167,103 +167,68 @@ double estimateWeightScaling(const std::vector<double> &weights, double desiredA
 
     // compute some constant stuff
     auto W = std::accumulate(weights.begin(), weights.end(), 0.0);
-    auto sum_sq_w = 0.0; // sum_{v\in V} (w_v^2/W)
-    auto sum_w_a = 0.0; // sum_{v\in V} (w_v  /W)^\alpha
-    auto sum_sq_w_a = 0.0; // sum_{v\in V} (w_v^2/W)^\alpha
-
-    //   sum_{u\in V} sum_{v\in V} (wu*wv/W)^\alpha
-    // = sum_{u\in V} sum_{v\in V} wu^\alpha * (wv/W)^\alpha
-    // = sum_{u\in V} wu^\alpha sum_{v\in V} (wv/W)^\alpha
-    auto sum_wwW_a = 0.0;
-    auto max_w = 0.;
     const auto n = static_cast<int>(weights.size());
 
-    // this loop causes >= 70% of runtime
-    std::vector<double> sweights(n);
-    LazySorter lazy_sorter(sweights);
-    {
-#ifndef _MSC_VER
-        #pragma omp parallel for reduction(+:sum_sq_w, sum_w_a, sum_sq_w_a, sum_wwW_a), reduction(max:max_w)
-#endif
-        for (int i = 0; i < n; ++i) {
-            const auto each = weights[i];
-            sweights[i] = each; // copy in parallel
-
-            const auto each_W = each / W;
-            const auto pow_each = pow(each, alpha);
-            const auto pow_each_W = pow(each / W, alpha);
-
-            sum_sq_w += each * each_W;
-            sum_wwW_a += pow_each;
-            sum_w_a += pow_each_W;
-            sum_sq_w_a += pow_each * pow_each_W;
-            max_w = std::max(each, max_w);
-        }
+    // weights in descending order
+    auto sweights = weights;
+    std::sort(sweights.begin(), sweights.end(), std::greater<double>());
+
+    // pow_weights[i] = (w_i / sqrt(W))^\alpha, such that (wi*wj/W)^\alpha = pow_weights[i] * pow_weights[j]
+    std::vector<double> pow_weights(n);
+    const auto sqrt_W = std::sqrt(W);
+    #pragma omp parallel for
+    for (int i = 0; i < n; ++i)
+        pow_weights[i] = std::pow(sweights[i] / sqrt_W, alpha);
+    const auto max_w_W = sweights.front() / W;
+
+    // suffix sums. They are not obtained as differences of prefix sums: the few pairs with very large weights
+    // dominate those by so many orders of magnitude that the other pairs drown in rounding errors.
+    std::vector<double> suffix_w(n + 1, 0.0), suffix_sq_w(n + 1, 0.0); // w_i and w_i^2
+    std::vector<double> suffix_w_a(n + 1, 0.0), suffix_sq_w_a(n + 1, 0.0); // pow_weights[i] and pow_weights[i]^2
+    for (auto i = n; i-- > 0; ) {
+        suffix_w[i] = suffix_w[i + 1] + sweights[i];
+        suffix_sq_w[i] = suffix_sq_w[i + 1] + sweights[i] * sweights[i];
+        suffix_w_a[i] = suffix_w_a[i + 1] + pow_weights[i];
+        suffix_sq_w_a[i] = suffix_sq_w_a[i + 1] + pow_weights[i] * pow_weights[i];
     }
-    sum_wwW_a *= sum_w_a;
-    const auto max_w_W = max_w / W;
-
-    const auto factor1 = (W - sum_sq_w) * (1 + 1 / (alpha - 1)) * (1 << dimension);
-    const auto factor2 = pow(2, alpha * dimension) / (alpha - 1) * (sum_wwW_a - sum_sq_w_a);
 
-    const auto W_alpha = std::pow(W, alpha);
-
-    // pow_weights[i] = std::pow(sweights[i], alpha) for all elements of the rich club
-    std::vector<double> pow_weights;
+    const auto factor1 = (1 + 1 / (alpha - 1)) * (1 << dimension);
+    const auto factor2 = pow(2, alpha * dimension) / (alpha - 1);
 
     auto f = [&] (double c) {
-        const auto long_and_short_with_error = pow(c, 1 / alpha) * factor1 - c * factor2;
-
+        // vertices that are surely connected to the vertex of largest weight
         const auto rich_thresh = std::exp(dimension * std::log(0.5 / std::pow(c, 1.0 / alpha / dimension)) - log(max_w_W));
-        const auto richclub_end = lazy_sorter.sort_downto(rich_thresh);
-        const auto num_richclub = static_cast<int>(std::distance(sweights.begin(), richclub_end));
-
-        if (!num_richclub)
-            return long_and_short_with_error / n;
+        const auto num_richclub = static_cast<int>(std::distance(sweights.begin(),
+            std::lower_bound(sweights.begin(), sweights.end(), rich_thresh, std::greater_equal<double>())));
 
-        assert(num_richclub <= n);
-
-        // precompute new pows in case the richclub grew
-        pow_weights.reserve(n / num_richclub > 2 ? num_richclub : n);
-        while(pow_weights.size() < num_richclub) {
-            pow_weights.push_back(std::pow(sweights[pow_weights.size()], alpha));
-        }
+        // sum up (wi*wj/W) and (wi*wj/W)^\alpha of pairs that may be at a distance where they are not surely connected and
+        // count the other ones. First the pairs with a vertex outside of the rich club.
+        auto w_terms = (suffix_w[num_richclub] * suffix_w[0] - suffix_sq_w[num_richclub]) / W;
+        auto w_alpha_terms = suffix_w_a[num_richclub] * suffix_w_a[0] - suffix_sq_w_a[num_richclub];
+        size_t num_certain = 0;
 
-        // get error for long and short edges
         const auto thresh = std::exp( (std::log(0.5) * dimension - std::log(c) / alpha) );
 
         int i2 = 0;
-        auto w2_sum       = 0.0;
-        long double w2_alpha_sum = 0.0;
-
-        auto w_terms = 0.0;
-        auto w_alpha_terms = 0.0;
-        size_t num_terms = 0;
-
         for(auto i1 = num_richclub; i1-- > 0; ) {
             const auto my_thres = thresh * W / sweights[i1];
-            for (; i2 < num_richclub && sweights[i2] >= my_thres; ++i2) {
-                w2_sum       += sweights[i2];
-                w2_alpha_sum += pow_weights[i2];
-            }
+            while (i2 < num_richclub && sweights[i2] >= my_thres)
+                ++i2;
 
-            num_terms     += i2;
-            w_terms       += sweights[i1]    * w2_sum       / W;
-            w_alpha_terms += pow_weights[i1] * w2_alpha_sum / W_alpha;
+            num_certain   += i2;
+            w_terms       += sweights[i1]    * suffix_w[i2] / W;
+            w_alpha_terms += pow_weights[i1] * suffix_w_a[i2];
 
+            // we have to subtract the self-pair
             if (i2 > i1) {
-                num_terms--;
-                w_terms       -= sweights[i1]    * sweights[i1]    / W;
-                w_alpha_terms -= pow_weights[i1] * pow_weights[i1] / W_alpha;
+                num_certain--;
+            } else {
+                w_terms       -= sweights[i1]    * sweights[i1] / W;
+                w_alpha_terms -= pow_weights[i1] * pow_weights[i1];
             }
         }
 
-        auto short_error = (1 << dimension) * pow(c, 1 / alpha) * w_terms - num_terms;
-        auto long_error = c * dimension * (1 << dimension) / (dimension - alpha * dimension) *
-            (std::pow(0.5, dimension - alpha * dimension) * w_alpha_terms -
-                std::pow(c, 1.0 / alpha - 1.0) * w_terms);
-
-        return (long_and_short_with_error - short_error - long_error) / n;
+        return (num_certain + pow(c, 1 / alpha) * factor1 * w_terms - c * factor2 * w_alpha_terms) / n;
     };
 
     // do exponential search on avg_degree function
-- 
2.43.0


From d495c5a1b8b74934ea18b4e1e7a3968cbf3edd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 15/21] fix: assertions on type II pairs of hyperbolic cells
 have to tolerate rounding, their bounds are tight

---
 .../include/hypergirgs/HyperbolicTree.inl           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
index 62a5caa..de12b8f 100644
--- a/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
+++ b/source/hypergirgs/include/hypergirgs/HyperbolicTree.inl
@@ -424,10 +424,15 @@ void HyperbolicTree<EdgeCallback>::sampleTypeII(unsigned int cellA, unsigned int
 
         // get actual connection probability
         const auto real_dist_cosh = nodeInA.hyperbolicDistanceCosh(nodeInB);
-        assert(angular_distance_lower_bound <= std::abs(nodeInA.angle - nodeInB.angle));
-        assert(angular_distance_lower_bound <= std::abs(nodeInB.angle - nodeInA.angle));
-        assert(std::acosh(real_dist_cosh) >= dist_lower_bound);
-        assert(std::acosh(real_dist_cosh) > m_R);
+#ifndef NDEBUG
+        {
+            // the bounds are tight, so they are only satisfied up to rounding
+            const auto dist_upper_bound = std::acosh(real_dist_cosh + 1e-14 * std::cosh(nodeInA.radius) * std::cosh(nodeInB.radius));
+            assert(angular_distance_lower_bound <= std::abs(nodeInA.angle - nodeInB.angle) + 1e-14);
+            assert(dist_upper_bound >= dist_lower_bound);
+            assert(dist_upper_bound > m_R);
+        }
+#endif // NDEBUG
 
         // check if we wouldn't make it even if rnd was a little smaller
         if (real_dist_cosh > filter.coshDistForProb_upperBound(rnd)) {
-- 
2.43.0


From c10151b537ef586df66c9e12cc6d1d07d7e8cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 16/21] fix: weight bound of type II pairs may be met exactly
 after rounding, the strict assertion aborts

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index e89e4ed..f5f3f2b 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -288,7 +288,7 @@ void SpatialTree<D, EdgeCallback>::sampleTypeII(
         const auto w_term = nodeInA.weight*nodeInB.weight/m_W;
         const auto d_term = pow_to_the<D>(distance);
         const auto connection_prob = std::pow(w_term/d_term, m_alpha); // we don't need min with 1.0 here
-        assert(w_term < w_upper_bound);
+        assert(w_term <= w_upper_bound); // rounding may make them equal
         assert(d_term >= dist_lower_bound);
 
         if(rnd < connection_prob) {
-- 
2.43.0


From 8467f3ff7da7cfe878cd6e70b5b2a2f352158cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 17/21] fix: adding the thread id to a seed close to INT_MAX
 must not overflow a signed integer

---
 source/girgs/include/girgs/SpatialTree.inl | 2 +-
 source/girgs/source/Generator.cpp          | 4 ++--
 source/hypergirgs/source/Generator.cpp     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index f5f3f2b..2aaffb8 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -45,7 +45,7 @@ void SpatialTree<D, EdgeCallback>::generateEdges(int seed) {
     const auto num_threads = omp_get_max_threads();
     m_gens.resize(num_threads);
     for (int thread = 0; thread < num_threads; thread++) {
-        m_gens[thread].seed(seed >= 0 ? seed+thread : std::random_device()());
+        m_gens[thread].seed(seed >= 0 ? static_cast<unsigned int>(seed)+thread : std::random_device()());
     } 
 
 #ifndef NDEBUG
diff --git a/source/girgs/source/Generator.cpp b/source/girgs/source/Generator.cpp
index f0bc66c..75c9f00 100644
--- a/source/girgs/source/Generator.cpp
+++ b/source/girgs/source/Generator.cpp
@@ -22,7 +22,7 @@ std::vector<double> generateWeights(int n, double ple, int weightSeed, bool para
     #pragma omp parallel num_threads(threads)
     {
         const auto tid = omp_get_thread_num();
-        auto gen = default_random_engine{weightSeed >= 0 ? (weightSeed+tid) : std::random_device()()};
+        auto gen = default_random_engine{weightSeed >= 0 ? static_cast<unsigned int>(weightSeed)+tid : std::random_device()()};
         auto dist = std::uniform_real_distribution<>{};
 
         #pragma omp for schedule(static)
@@ -41,7 +41,7 @@ std::vector<std::vector<double>> generatePositions(int n, int dimension, int pos
     #pragma omp parallel num_threads(threads)
     {
         const auto tid = omp_get_thread_num();
-        auto gen = default_random_engine{positionSeed >= 0 ? (positionSeed+tid) : std::random_device()()};
+        auto gen = default_random_engine{positionSeed >= 0 ? static_cast<unsigned int>(positionSeed)+tid : std::random_device()()};
         auto dist = std::uniform_real_distribution<>{};
 
         #pragma omp for schedule(static)
diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index c7ac9e9..50c544d 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -111,7 +111,7 @@ static std::pair<std::vector<double>, std::vector<double>> sampleRadiiAndAnglesH
     const auto invalpha = 1.0 / alpha;
     #pragma omp parallel num_threads(threads)
     {
-        auto gen = hypergirgs::default_random_engine(seed >= 0 ? seed + omp_get_thread_num() : std::random_device()());
+        auto gen = hypergirgs::default_random_engine(seed >= 0 ? static_cast<unsigned int>(seed) + omp_get_thread_num() : std::random_device()());
         auto adist = std::uniform_real_distribution<>(0, 2*PI);
         auto rdist = std::uniform_real_distribution<>(std::nextafter(1.0, 2.0), std::cosh(alpha * R));
 
-- 
2.43.0


From 717603caee4141938bb166b4fda75b994e2defbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:10 +0000
Subject: [PATCH 18/21] fix: weight scaling for threshold graphs never ends or
 misses degrees close to n-1, the overestimation cancels catastrophically

---
 source/girgs/source/WeightScaling.cpp | 56 ++++++++++++---------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/source/girgs/source/WeightScaling.cpp b/source/girgs/source/WeightScaling.cpp
index bcea894..e052c57 100644
--- a/source/girgs/source/WeightScaling.cpp
+++ b/source/girgs/source/WeightScaling.cpp
@@ -89,17 +89,16 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
     // compute some constant stuff
     const auto n = weights.size();
     auto max_weight = 0.0;
-    auto W = 0.0, sq_W = 0.0;
+    auto W = 0.0;
     {
 #ifndef _MSC_VER
-        #pragma omp parallel for reduction(+:W, sq_W), reduction(max: max_weight)
+        #pragma omp parallel for reduction(+:W), reduction(max: max_weight)
 #endif
         for (int i = 0; i < n; ++i) {
             const auto each = weights[i];
             sweights[i] = each; // copy to sweights
 
             W += each;
-            sq_W += each * each;
             max_weight = std::max(max_weight, each);
         }
     }
@@ -107,42 +106,35 @@ double estimateWeightScalingThreshold(const std::vector<double> &weights, double
     // my function to do the exponential search on
     auto f = [=, &sweights, &lazy_sorter](double c) {
         
-        // compute overestimation
         const auto pow2c = std::pow(2.0 * c, dimension);
-		const auto overestimation = pow2c * (W - sq_W / W);
 
-		// compute rich club
-		const auto richclub_end = lazy_sorter.sort_downto(W / pow2c / max_weight);
-		assert(richclub_end <= sweights.end());
+        // compute rich club
+        const auto richclub_end = lazy_sorter.sort_downto(W / pow2c / max_weight);
+        assert(richclub_end <= sweights.end());
 
-        // subtract error
-        auto error = 0.0;
+        // Sum up min(1, pow2c * (w1*w2/W)) over all pairs. It is not obtained by correcting an overestimation: the few pairs
+        // with very large weights dominate that by so many orders of magnitude that the result drowns in rounding errors.
 
+        // pairs with a vertex outside of the rich club are below 1
+        auto rich_W = 0.0, poor_W = 0.0, poor_sq_W = 0.0;
+        for (auto w = sweights.begin(); w != richclub_end; ++w)
+            rich_W += *w;
+        for (auto w = richclub_end; w != sweights.end(); ++w) {
+            poor_W += *w;
+            poor_sq_W += *w * *w;
+        }
+        auto degrees = pow2c * (poor_W * (poor_W + 2 * rich_W) - poor_sq_W) / W;
+
+        // pairs in the rich club; w2 is the first partner that is not surely connected to w1
+        auto w2 = richclub_end;
         auto w2sum = 0.0;
-        auto w2 = sweights.cbegin();
-        for(auto w1 = richclub_end; w1 > sweights.begin(); ) {
-			--w1; // msvc throws when decrementing beyond begin iterator
-            const auto fac = *w1 / W;
-            const auto my_thres = 1.0 / fac / pow2c;
-
-            for(; w2 < richclub_end && *w2 >= my_thres; w2sum += *(w2++));
-
-            /**
-              * sum_{k < j, k != i}{ std::pow(2*c,dimension)*(w1*w_k/W)-1.0 }
-              * = sum_{k < j, k != i}{ std::pow(2*c,dimension)*(w1*w_k/W) } - j
-              * = sum_{k < j}{ std::pow(2*c,dimension)*(w1*w_k/W) } - j - (0 if j < i else std::pow(2*c,dimension)*(w1*w_i/W) - 1)
-              * = pow2c * w1/W * (sum_j{w_j}) - j - (0 if j < i else pow2c*(w1/W)*w_i - 1)
-              */
-
-            error += w2sum * pow2c * fac - (std::distance(sweights.cbegin(), w2));
-
-            if (w2 > w1) {
-                // we have to subtract the self-contribution of x == y
-                error -= pow2c * fac * (*w1) - 1.0;
-            }
+        for (auto w1 = sweights.begin(); w1 != richclub_end; ++w1) {
+            const auto fac = pow2c * (*w1 / W);
+            for (; w2 != sweights.begin() && *(w2 - 1) * fac < 1.0; w2sum += *(--w2));
+            degrees += std::distance(sweights.begin(), w2) + w2sum * fac - std::min(1.0, *w1 * fac); // without the self-pair
         }
 
-        return (overestimation - error) / n;
+        return degrees / n;
     };
 
     // do exponential search on expected average degree function
-- 
2.43.0


From f84087406fb733c7b66055edc0d94377e0f6c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 19/21] fix: radius of graphs with more than 2^30 vertices must
 not overflow an integer

---
 source/hypergirgs/source/Generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/Generator.cpp b/source/hypergirgs/source/Generator.cpp
index 50c544d..17678b7 100644
--- a/source/hypergirgs/source/Generator.cpp
+++ b/source/hypergirgs/source/Generator.cpp
@@ -16,7 +16,7 @@ namespace hypergirgs {
 
 
 double calculateRadius(int n, double alpha, double T, double deg) {
-    return 2 * log(n * 2 * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
+    return 2 * log(2.0 * n * alpha * alpha * (T == 0 ? 1 / PI : T / sin(PI * T)) /
                    (deg * (alpha - 0.5) * (alpha - 0.5)));
 }
 
-- 
2.43.0


From cf9655eecb79be191fde6106784d200e9fe06179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 20/21] fix: radius layers of heights other than 1 must leave
 no gap between their bounds, points in it belong to no layer

---
 source/hypergirgs/source/RadiusLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index a76396e..6b359c6 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -46,7 +46,7 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
 
     // translate radius <-> layer
     auto layer_rad_max   = [R, layer_height] (int l) {return R - l * layer_height;};
-    auto layer_rad_min   = [R, layer_height] (int l) {return std::max(0.0, R - l * layer_height - layer_height);}; // radii are not negative
+    auto layer_rad_min   = [layer_rad_max] (int l) {return std::max(0.0, layer_rad_max(l + 1));}; // no gap to the next layer; radii are not negative
     const auto r_min_outer = R - layer_height;
     auto num_layers = static_cast<unsigned int>(std::ceil( R / layer_height));
     auto radius_to_layer = [&] (double radius) {
-- 
2.43.0


From d3a64972911d3dd57810bb3da87957fc586fdad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 21/21] fix: data race in the gap repair of the parallel
 partition

Each thread's right-most entry is final after the single block. Revisiting it reads the first
entry of the next thread's chunk while that thread may be writing it.
---
 source/girgs/include/girgs/SpatialTree.inl | 1 +
 source/hypergirgs/source/RadiusLayer.cpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/girgs/include/girgs/SpatialTree.inl b/source/girgs/include/girgs/SpatialTree.inl
index 2aaffb8..09a22b8 100644
--- a/source/girgs/include/girgs/SpatialTree.inl
+++ b/source/girgs/include/girgs/SpatialTree.inl
@@ -444,6 +444,7 @@ std::vector<WeightLayer<D>> SpatialTree<D, EdgeCallback>::buildPartition(const s
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
             auto i = std::min(max_cell_id, begin + chunk_size);
+            if (i > begin) --i; // the right-most element is final, its successor belongs to the next thread
             while (i-- > begin) {
                 m_first_in_cell[i] = std::min(
                     m_first_in_cell[i],
diff --git a/source/hypergirgs/source/RadiusLayer.cpp b/source/hypergirgs/source/RadiusLayer.cpp
index 6b359c6..6742803 100644
--- a/source/hypergirgs/source/RadiusLayer.cpp
+++ b/source/hypergirgs/source/RadiusLayer.cpp
@@ -162,6 +162,7 @@ std::vector<RadiusLayer> RadiusLayer::buildPartition(const std::vector<double>&
             const auto begin = std::min(max_cell_id, chunk_size * rank);
 
             auto i = std::min(max_cell_id, begin + chunk_size);
+            if (i > begin) --i; // the right-most element is final, its successor belongs to the next thread
             while (i-- > begin) {
                 first_in_cell[i] = std::min(
                     first_in_cell[i],
-- 
2.43.0

