From 11c2599a3b644627d6fc45e2000f5e9060b4fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:21 +0000
Subject: [PATCH 01/51] fix: neighbour search over unsigned data no longer
 prunes wrongly

The axiswise distance to the cutting plane wrapped around when the query was
beyond the pivot, and the sibling subtree holding nearer samples was skipped.
---
 include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
index e20740b..339015b 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDNodeView.hpp
@@ -228,15 +228,18 @@ auto KDNodeView<IndicesIterator, Bound>::select_sibling_node(
         // get the value of the query according to the split dimension
         const auto query_split_value = query_buffer.centroid_begin()[parent_node->cut_axis_feature_index_];
 
+        // absolute difference that doesn't wrap around for unsigned types
+        const auto axiswise_distance = pivot_split_value < query_split_value ? query_split_value - pivot_split_value
+                                                                             : pivot_split_value - query_split_value;
+
         const bool is_left_child_ret = is_left_child();
         // if the axiswise distance is equal to the current furthest nearest neighbor distance, there could be a
         // nearest neighbor to the other side of the hyperrectangle since the values that are equal to the pivot are
         // put to the right
         auto visit_sibling = [&]() {
-            return is_left_child_ret ? common::abs(pivot_split_value - query_split_value) <=
-                                           query_buffer.furthest_distance(parent_node->cut_axis_feature_index_)
-                                     : common::abs(pivot_split_value - query_split_value) <
-                                           query_buffer.furthest_distance(parent_node->cut_axis_feature_index_);
+            return is_left_child_ret
+                       ? axiswise_distance <= query_buffer.furthest_distance(parent_node->cut_axis_feature_index_)
+                       : axiswise_distance < query_buffer.furthest_distance(parent_node->cut_axis_feature_index_);
         };
         return query_buffer.remaining_capacity() || visit_sibling()
                    ? (is_left_child_ret ? parent_node->right_ : parent_node->left_)
-- 
2.43.0


From d3c1d032d582ef2745212d7598d411484b4a8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:34 +0000
Subject: [PATCH 02/51] fix: search buffers without a capacity are unlimited
 from the start

The default capacity common::infinity<std::size_t>() is 0: an empty buffer had
no remaining capacity, and range queries over integer data skipped subtrees.
---
 include/ffcl/search/buffer/StaticBuffer.hpp  |  3 ++-
 include/ffcl/search/buffer/Unsorted.hpp      |  5 +++--
 include/ffcl/search/buffer/WithMemory.hpp    | 17 +++++++++--------
 include/ffcl/search/buffer/WithUnionFind.hpp |  5 +++--
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/ffcl/search/buffer/StaticBuffer.hpp b/include/ffcl/search/buffer/StaticBuffer.hpp
index 205fd86..3c5b6b9 100644
--- a/include/ffcl/search/buffer/StaticBuffer.hpp
+++ b/include/ffcl/search/buffer/StaticBuffer.hpp
@@ -8,6 +8,7 @@
 #include "ffcl/datastruct/bounds/UnboundedBall.hpp"  // default bound
 
 #include <cstddef>
+#include <limits>
 #include <tuple>
 #include <vector>
 
@@ -40,7 +41,7 @@ class StaticBuffer {
     static_assert(common::is_iterator<IndicesIteratorType>::value, "IndicesIteratorType is not an iterator");
     static_assert(common::is_iterator<DistancesIteratorType>::value, "DistancesIteratorType is not an iterator");
 
-    explicit StaticBuffer(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
+    explicit StaticBuffer(BoundType&& bound, const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : bound_{std::forward<BoundType>(bound)}
       , indices_{}
       , distances_{}
diff --git a/include/ffcl/search/buffer/Unsorted.hpp b/include/ffcl/search/buffer/Unsorted.hpp
index 7a40f53..8e576f6 100644
--- a/include/ffcl/search/buffer/Unsorted.hpp
+++ b/include/ffcl/search/buffer/Unsorted.hpp
@@ -8,6 +8,7 @@
 
 #include "ffcl/common/Utils.hpp"
 
+#include <limits>
 #include <vector>
 
 namespace ffcl::search::buffer {
@@ -26,12 +27,12 @@ class Unsorted : public StaticBuffer<Unsorted<DistancesIterator, Bound>> {
     using IndicesIteratorType   = typename IndicesType::iterator;
     using DistancesIteratorType = DistancesIterator;
 
-    explicit Unsorted(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
+    explicit Unsorted(BoundType&& bound, const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<Unsorted<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity) {}
 
     explicit Unsorted(const DistancesIteratorType& centroid_features_query_first,
                       const DistancesIteratorType& centroid_features_query_last,
-                      const IndexType&             max_capacity = common::infinity<IndexType>())
+                      const IndexType&             max_capacity = std::numeric_limits<IndexType>::max())
       : Unsorted{BoundType{centroid_features_query_first, centroid_features_query_last}, max_capacity} {}
 
     void update_impl(const IndexType& index_candidate, const DistanceType& distance_candidate) {
diff --git a/include/ffcl/search/buffer/WithMemory.hpp b/include/ffcl/search/buffer/WithMemory.hpp
index 8f84c03..b5ddbd0 100644
--- a/include/ffcl/search/buffer/WithMemory.hpp
+++ b/include/ffcl/search/buffer/WithMemory.hpp
@@ -8,6 +8,7 @@
 
 #include "ffcl/common/Utils.hpp"
 
+#include <limits>
 #include <unordered_set>
 #include <vector>
 
@@ -31,21 +32,21 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
 
     using VisitedIndicesIteratorType = typename VisitedIndices::iterator;
 
-    explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = common::infinity<IndexType>())
+    explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
       , visited_indices_const_reference_{visited_indices_} {}
 
     WithMemory(BoundType&&           bound,
                const VisitedIndices& visited_indices_reference,
-               const IndexType&      max_capacity = common::infinity<IndexType>())
+               const IndexType&      max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
       , visited_indices_const_reference_{visited_indices_reference} {}
 
     WithMemory(BoundType&&      bound,
                VisitedIndices&& visited_indices,
-               const IndexType& max_capacity = common::infinity<IndexType>())
+               const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{std::move(visited_indices)}
       , visited_indices_const_reference_{visited_indices_} {}
@@ -53,18 +54,18 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     WithMemory(BoundType&&                       bound,
                const VisitedIndicesIteratorType& visited_indices_first,
                const VisitedIndicesIteratorType& visited_indices_last,
-               const IndexType&                  max_capacity = common::infinity<IndexType>())
+               const IndexType&                  max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(std::move(bound), VisitedIndices(visited_indices_first, visited_indices_last), max_capacity) {}
 
     WithMemory(const DistancesIteratorType& centroid_features_query_first,
                const DistancesIteratorType& centroid_features_query_last,
-               const IndexType&             max_capacity = common::infinity<IndexType>())
+               const IndexType&             max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(BoundType{centroid_features_query_first, centroid_features_query_last}, max_capacity) {}
 
     WithMemory(const DistancesIteratorType& centroid_features_query_first,
                const DistancesIteratorType& centroid_features_query_last,
                const VisitedIndices&        visited_indices_reference,
-               const IndexType&             max_capacity = common::infinity<IndexType>())
+               const IndexType&             max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(BoundType{centroid_features_query_first, centroid_features_query_last},
                    visited_indices_reference,
                    max_capacity) {}
@@ -72,7 +73,7 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     WithMemory(const DistancesIteratorType& centroid_features_query_first,
                const DistancesIteratorType& centroid_features_query_last,
                VisitedIndices&&             visited_indices,
-               const IndexType&             max_capacity = common::infinity<IndexType>())
+               const IndexType&             max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(BoundType{centroid_features_query_first, centroid_features_query_last},
                    std::move(visited_indices),
                    max_capacity) {}
@@ -81,7 +82,7 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
                const DistancesIteratorType&      centroid_features_query_last,
                const VisitedIndicesIteratorType& visited_indices_first,
                const VisitedIndicesIteratorType& visited_indices_last,
-               const IndexType&                  max_capacity = common::infinity<IndexType>())
+               const IndexType&                  max_capacity = std::numeric_limits<IndexType>::max())
       : WithMemory(BoundType{centroid_features_query_first, centroid_features_query_last},
                    visited_indices_first,
                    visited_indices_last,
diff --git a/include/ffcl/search/buffer/WithUnionFind.hpp b/include/ffcl/search/buffer/WithUnionFind.hpp
index ea59ec0..7a80f8b 100644
--- a/include/ffcl/search/buffer/WithUnionFind.hpp
+++ b/include/ffcl/search/buffer/WithUnionFind.hpp
@@ -6,6 +6,7 @@
 
 #include "ffcl/datastruct/UnionFind.hpp"
 
+#include <limits>
 #include <vector>
 
 namespace ffcl::search::buffer {
@@ -29,7 +30,7 @@ class WithUnionFind : public StaticBuffer<WithUnionFind<DistancesIterator, Bound
     WithUnionFind(BoundType&&             bound,
                   UnionFindConstReference union_find_const_reference,
                   const IndexType&        query_representative,
-                  const IndexType&        max_capacity = common::infinity<IndexType>())
+                  const IndexType&        max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithUnionFind<DistancesIterator, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , union_find_const_reference_{union_find_const_reference}
       , query_representative_{query_representative} {}
@@ -38,7 +39,7 @@ class WithUnionFind : public StaticBuffer<WithUnionFind<DistancesIterator, Bound
                   const DistancesIterator& centroid_features_query_last,
                   UnionFindConstReference  union_find_const_reference,
                   const IndexType&         query_representative,
-                  const IndexType&         max_capacity = common::infinity<IndexType>())
+                  const IndexType&         max_capacity = std::numeric_limits<IndexType>::max())
       : WithUnionFind(BoundType(centroid_features_query_first, centroid_features_query_last),
                       union_find_const_reference,
                       query_representative,
-- 
2.43.0


From 07bdb2e362d9a681900440e8e76301dc82960c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:18 +0000
Subject: [PATCH 03/51] fix: a search buffer that owns its visited samples
 survives copies and moves

The reference to its own member dangled once the buffer was moved into the
searcher, and visited samples were returned.
---
 include/ffcl/search/buffer/WithMemory.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/search/buffer/WithMemory.hpp b/include/ffcl/search/buffer/WithMemory.hpp
index b5ddbd0..ba15b4c 100644
--- a/include/ffcl/search/buffer/WithMemory.hpp
+++ b/include/ffcl/search/buffer/WithMemory.hpp
@@ -35,21 +35,21 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     explicit WithMemory(BoundType&& bound, const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , external_visited_indices_{nullptr} {}
 
     WithMemory(BoundType&&           bound,
                const VisitedIndices& visited_indices_reference,
                const IndexType&      max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{}
-      , visited_indices_const_reference_{visited_indices_reference} {}
+      , external_visited_indices_{&visited_indices_reference} {}
 
     WithMemory(BoundType&&      bound,
                VisitedIndices&& visited_indices,
                const IndexType& max_capacity = std::numeric_limits<IndexType>::max())
       : StaticBuffer<WithMemory<DistancesIteratorType, BoundType>>(std::forward<BoundType>(bound), max_capacity)
       , visited_indices_{std::move(visited_indices)}
-      , visited_indices_const_reference_{visited_indices_} {}
+      , external_visited_indices_{nullptr} {}
 
     WithMemory(BoundType&&                       bound,
                const VisitedIndicesIteratorType& visited_indices_first,
@@ -90,8 +90,8 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
 
     void update_impl(const IndexType& index_candidate, const DistanceType& distance_candidate) {
         // consider an update only if the candidate hasnt been visited
-        const bool is_candidate_valid =
-            visited_indices_const_reference_.find(index_candidate) == visited_indices_const_reference_.end();
+        const auto& visited_indices    = external_visited_indices_ ? *external_visited_indices_ : visited_indices_;
+        const bool  is_candidate_valid = visited_indices.find(index_candidate) == visited_indices.end();
 
         if (is_candidate_valid) {
             this->update_static_buffers(index_candidate, distance_candidate);
@@ -121,8 +121,10 @@ class WithMemory : public StaticBuffer<WithMemory<DistancesIterator, Bound>> {
     }
 
   private:
-    VisitedIndices        visited_indices_;
-    const VisitedIndices& visited_indices_const_reference_;
+    VisitedIndices visited_indices_;
+    // points to the visited indices when the buffer doesn't own them. It is nullptr otherwise so that a buffer that owns
+    // its visited indices can be copied or moved
+    const VisitedIndices* external_visited_indices_;
 };
 
 // Declare and define a static_base_traits specialization for WithMemory:
-- 
2.43.0


From 0038f6666334f4d48037f08c319314c2580efbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:57 +0000
Subject: [PATCH 04/51] fix: partitioning compares samples exactly instead of
 within an absolute epsilon

Values closer than the machine epsilon were handled as equal while the loops
compared them exactly, so that small-scale data ended up on the wrong side of
the pivot.
---
 include/ffcl/common/algorithms/Sorting.hpp               | 7 +++----
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index e70a5fe..92a472b 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -107,8 +107,7 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // left_index (!= || ==) pivot_index && pivot_index (!= || ==) right_index
 
         // pivot_value > right_value
-        if (inequality(pivot_value,
-                       samples_range_first[indices_range_first[right_index] * n_features + feature_index])) {
+        if (samples_range_first[indices_range_first[right_index] * n_features + feature_index] < pivot_value) {
             // swap left_value and right_value
             std::iter_swap(indices_range_first + left_index, indices_range_first + right_index);
             // if the pivot was swapped because left index was equal to pivot index, update it to the index it was
@@ -123,8 +122,8 @@ std::size_t partition_around_pivot_index(const IndicesIterator& indices_range_fi
         // else if pivot_value == right_value
         else {
             // if left_value == pivot_value
-            if (equality(samples_range_first[indices_range_first[left_index] * n_features + feature_index],
-                         pivot_value)) {
+            if (!(pivot_value <
+                  samples_range_first[indices_range_first[left_index] * n_features + feature_index])) {
                 // dont swap if the left_index == pivot_index
                 if (static_cast<std::size_t>(left_index) != pivot_index) {
                     // swap the ranges so that the range of the left index is put at the right of the pivot
diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 487673b..5841428 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -206,7 +206,7 @@ auto shift_median_to_leftmost_equal_value(std::size_t                    median_
         // Decrement the iterators while the left range isn't empty and the neighbor value at the left of the median is
         // still equal to the cut value at the corresponding feature index
         while (left_neighbor_it >= left_indices_range.first &&
-               common::equality(samples_range_first[left_neighbor_it[0] * n_features + feature_index], cut_value)) {
+               !(samples_range_first[left_neighbor_it[0] * n_features + feature_index] < cut_value)) {
             --left_neighbor_it;
         }
         // Update the ranges accordingly
-- 
2.43.0


From 4655dbb86c0cc5f244279431b2bf560c5419cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:57 +0000
Subject: [PATCH 05/51] fix: moving a kdtree keeps its number of samples

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 23b2ad7..520980a 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -244,6 +244,7 @@ KDTree<IndicesIterator, SamplesIterator>::KDTree(KDTree&& other) noexcept
   : options_{std::move(other.options_)}
   , samples_range_first_{std::move(other.samples_range_first_)}
   , samples_range_last_{std::move(other.samples_range_last_)}
+  , n_samples_{std::move(other.n_samples_)}
   , n_features_{std::move(other.n_features_)}
   , bound_{std::move(other.bound_)}
   , root_{std::move(other.root_)} {}
-- 
2.43.0


From d36dd690a2831ee33978ad400101f36c5c1ab228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 06/51] fix: the longest axis of a box over unsigned values
 doesn't wrap around

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 5841428..02c2385 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -17,7 +17,7 @@ namespace ffcl::datastruct::kdtree::algorithms {
 template <typename Bound>
 std::size_t select_longest_axis(const Bound& bound) {
     const auto comparison = [](const auto& lhs, const auto& rhs) {
-        return common::abs(lhs.lower_bound() - lhs.upper_bound()) < common::abs(rhs.lower_bound() - rhs.upper_bound());
+        return lhs.upper_bound() - lhs.lower_bound() < rhs.upper_bound() - rhs.lower_bound();
     };
     const auto it = std::max_element(bound.segments_begin(), bound.segments_end(), comparison);
     return std::distance(bound.segments_begin(), it);
-- 
2.43.0


From bc1a7e6ef9cbfaab7fa226dd1bb066558dc2ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:54 +0000
Subject: [PATCH 07/51] fix: the queue of shortest edges keeps candidates as
 long as it has room

---
 include/ffcl/search/buffer/IndicesToBuffersMap.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
index 93917d6..3b45938 100644
--- a/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
+++ b/include/ffcl/search/buffer/IndicesToBuffersMap.hpp
@@ -428,19 +428,16 @@ void IndicesToBuffersMap<Buffer, QueryIndexer, ReferenceIndexer>::update_priorit
     // be to find the nth_elemnts from the buffer and emplace only those to the priority queue. The first method's
     // drawback is that it requires management of the emplace/pop-ed elements. The second method's drawback is that
     // it would require a deep copy of the indices and distances of buffer.
-    if (buffer.closest_distance() < (kth_closest_edge_priority_queue_.empty()
-                                         ? common::infinity<DistanceType>()
-                                         : std::get<2>(kth_closest_edge_priority_queue_.top()))) {
+    if (kth_closest_edge_priority_queue_.size() < buffer.max_capacity() ||
+        buffer.closest_distance() < std::get<2>(kth_closest_edge_priority_queue_.top())) {
         // Iterate over all the buffer indices as we dont know which elements could be valid candidates.
         for (std::size_t buffer_index = 0; buffer_index < buffer.size(); ++buffer_index) {
             const auto candidate_index    = buffer_indices[buffer_index];
             const auto candidate_distance = buffer_distances[buffer_index];
 
-            const auto pq_furthest_distance = kth_closest_edge_priority_queue_.empty()
-                                                  ? common::infinity<DistanceType>()
-                                                  : std::get<2>(kth_closest_edge_priority_queue_.top());
-
-            if (candidate_distance < pq_furthest_distance) {
+            // A candidate is always welcome as long as the priority queue isn't full.
+            if (kth_closest_edge_priority_queue_.size() < buffer.max_capacity() ||
+                candidate_distance < std::get<2>(kth_closest_edge_priority_queue_.top())) {
                 // Insert the combination and check if it was newly inserted.
                 if (priority_queue_visited_combinations_set_.insert({query_index, candidate_index}).second) {
                     kth_closest_edge_priority_queue_.emplace(query_index, candidate_index, candidate_distance);
-- 
2.43.0


From a7ff295c3b56ccccb6f78b988a35d40b90194ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:38 +0000
Subject: [PATCH 08/51] fix: the spanning tree is minimal under the mutual
 reachability distance

---
 .../graph/spanning_tree/BoruvkasAlgorithm.hpp | 84 ++++++++++++++-----
 1 file changed, 63 insertions(+), 21 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
index 007c037..be30f35 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/BoruvkasAlgorithm.hpp
@@ -215,6 +215,15 @@ class BoruvkasAlgorithm {
                                         const CoreDistancesArrayType&    core_distances,
                                         Forest&                          forest) const;
 
+    // updates the closest edge of a component with the edge of smallest k mutual reachability distance that starts at the
+    // query of the edge between a query and its nearest neighbor from another component
+    void update_k_mutual_reachability_edge(const search::Searcher<Indexer>& searcher,
+                                           const CoreDistancesArrayType&    core_distances,
+                                           const Forest&                    forest,
+                                           const IndexType&                 component_representative,
+                                           const EdgeType&                  nearest_neighbor_edge,
+                                           EdgeType&                        closest_edge) const;
+
     void step_dual_tree_sequential(const search::Searcher<Indexer>& searcher,
                                    const CoreDistancesArrayType&    core_distances,
                                    Forest&                          forest) const;
@@ -277,6 +286,48 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
     }
 }
 
+template <typename Indexer>
+void BoruvkasAlgorithm<Indexer>::update_k_mutual_reachability_edge(const search::Searcher<Indexer>& searcher,
+                                                                   const CoreDistancesArrayType&    core_distances,
+                                                                   const Forest&                    forest,
+                                                                   const IndexType& component_representative,
+                                                                   const EdgeType&  nearest_neighbor_edge,
+                                                                   EdgeType&        closest_edge) const {
+    const auto query_index               = std::get<0>(nearest_neighbor_edge);
+    const auto nearest_neighbor_index    = std::get<1>(nearest_neighbor_edge);
+    const auto nearest_neighbor_distance = std::get<2>(nearest_neighbor_edge);
+
+    // none of the edges that start at the query can be shorter than this
+    const auto lower_bound = std::max(core_distances[query_index], nearest_neighbor_distance);
+
+    const auto update_closest_edge = [&](const auto& neighbor_index, const auto& neighbor_distance) {
+        const auto k_mutual_reachability_distance =
+            std::max({core_distances[query_index], core_distances[neighbor_index], neighbor_distance});
+
+        // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the current
+        // shortest edge distance
+        if (k_mutual_reachability_distance < std::get<2>(closest_edge)) {
+            closest_edge = EdgeType{query_index, neighbor_index, k_mutual_reachability_distance};
+        }
+    };
+    update_closest_edge(nearest_neighbor_index, nearest_neighbor_distance);
+
+    // a sample that is further than the nearest neighbor but with a smaller core distance might give a shorter edge
+    if (lower_bound < std::get<2>(closest_edge)) {
+        const auto neighbors_buffer = searcher(
+            search::buffer::WithUnionFind(datastruct::bounds::BallView(searcher.features_range_first(query_index),
+                                                                       searcher.features_range_last(query_index),
+                                                                       std::get<2>(closest_edge)),
+                                          forest.get_union_find_const_reference(),
+                                          component_representative));
+
+        for (std::size_t buffer_index = 0; buffer_index < neighbors_buffer.size(); ++buffer_index) {
+            update_closest_edge(neighbors_buffer.indices_const_ref()[buffer_index],
+                                neighbors_buffer.distances_const_ref()[buffer_index]);
+        }
+    }
+}
+
 template <typename Indexer>
 void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>& searcher,
                                                  const CoreDistancesArrayType&    core_distances,
@@ -302,17 +353,12 @@ void BoruvkasAlgorithm<Indexer>::step_sequential(const search::Searcher<Indexer>
             const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
             const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
 
-            const auto current_closest_edge_distance = std::get<2>(components_closest_edge[component_representative]);
-
-            const auto k_mutual_reachability_distance = std::max(
-                {core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
-
-            // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the
-            // current shortest edge distance
-            if (k_mutual_reachability_distance < current_closest_edge_distance) {
-                components_closest_edge[component_representative] =
-                    EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
-            }
+            update_k_mutual_reachability_edge(searcher,
+                                              core_distances,
+                                              forest,
+                                              component_representative,
+                                              EdgeType{query_index, nearest_neighbor_index, nearest_neighbor_distance},
+                                              components_closest_edge[component_representative]);
         }
     }
     // merge components based on the best edges found in each component so far
@@ -402,16 +448,12 @@ void BoruvkasAlgorithm<Indexer>::dual_component_step_sequential(const search::Se
         const auto nearest_neighbor_index    = nn_buffer_query.furthest_index();
         const auto nearest_neighbor_distance = nn_buffer_query.furthest_distance();
 
-        const auto current_closest_edge_distance = std::get<2>(closest_edge);
-
-        const auto k_mutual_reachability_distance =
-            std::max({core_distances[query_index], core_distances[nearest_neighbor_index], nearest_neighbor_distance});
-
-        // update the current shortest edge if the k_mutual_reachability_distance is indeed shortest than the current
-        // shortest edge distance
-        if (k_mutual_reachability_distance < current_closest_edge_distance) {
-            closest_edge = EdgeType{query_index, nearest_neighbor_index, k_mutual_reachability_distance};
-        }
+        update_k_mutual_reachability_edge(searcher,
+                                          core_distances,
+                                          forest,
+                                          smallest_component_representative,
+                                          EdgeType{query_index, nearest_neighbor_index, nearest_neighbor_distance},
+                                          closest_edge);
     }
     // merge components based on the best edge found
     forest.merge_components(closest_edge);
-- 
2.43.0


From c914a790713db770f6a56d6e4dfedfeb657eeba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:38 +0000
Subject: [PATCH 09/51] fix: the size of the core distances array isn't
 initialised with itself

---
 include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
index 736198c..5a48c84 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
@@ -24,7 +24,7 @@ class CoreDistancesArray {
 template <typename Value>
 CoreDistancesArray<Value>::CoreDistancesArray(std::size_t size) noexcept
   : data_{std::make_unique<Value[]>(size)}
-  , size_{size_} {}
+  , size_{size} {}
 
 template <typename Value>
 Value& CoreDistancesArray<Value>::operator[](std::size_t index) {
-- 
2.43.0


From 64e16d25abc9c20853a4cb289be5ce58ef666056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:59 +0000
Subject: [PATCH 10/51] fix: cutting a single linkage tree separates what
 merges at or above the cut level

---
 .../SingleLinkageClusterTree.hpp                           | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index de72049..b0e18b0 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -153,9 +153,10 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // consider updating the cluster label for the descendant nodes only if we are above or at the desired cut level
-    // else the same cluster label will be used for all the descendant nodes from the current node
-    if (single_linkage_cluster_node->level_ >= options_.cut_level_) {
+    // a node that hangs from the root or from a node above or at the desired cut level is the top of a flat cluster, else
+    // the cluster label of its parent is used for all the descendant nodes from the current node
+    if (!single_linkage_cluster_node->has_parent() ||
+        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
         // else set the cluster label as the one at the current level
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-- 
2.43.0


From 2aef3b5ce1479e2976009902756db59424b3c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:31 +0000
Subject: [PATCH 11/51] fix: the noise label of a flat cut no longer collides
 with a cluster

---
 .../SingleLinkageClusterTree.hpp                            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index b0e18b0..6cab844 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -153,15 +153,15 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // a node that hangs from the root or from a node above or at the desired cut level is the top of a flat cluster, else
+    // the root, or a node that hangs from a node above or at the desired cut level, is the top of a flat cluster, else
     // the cluster label of its parent is used for all the descendant nodes from the current node
     if (!single_linkage_cluster_node->has_parent() ||
         single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
-        // else set the cluster label as the one at the current level
+        // else set the cluster label as the one at the current level. It's shifted by one since 0 is reserved to noise
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
                             ? 0
-                            : single_linkage_cluster_node->representative_;
+                            : single_linkage_cluster_node->representative_ + 1;
     }
     // continue to traverse the tree if the current node is not leaf
     // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
-- 
2.43.0


From 974968a4df00de53a292cbc1f8bc607e9e8e2bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:46 +0000
Subject: [PATCH 12/51] fix: the nodes of cluster trees no longer own their
 parent and are released

---
 .../CondensedClusterNode.hpp                  |  8 +++--
 .../SingleLinkageClusterNode.hpp              | 32 +++++++++++++++++--
 .../SingleLinkageClusterTree.hpp              |  2 +-
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index ee2593e..90fe845 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -45,8 +45,10 @@ struct CondensedClusterNode {
     // whether this node is marked as selected. Used for flat cluster extraction algorithm and might not be the actual
     // selected cluster if marked as true if shallower cluster nodes are also marked as selected.
     bool is_selected_;
-    // parent pointer used to parse from the leaves to the root and the left/right ones for the opposite direction
-    NodePtr parent_, left_, right_;
+    // parent pointer used to parse from the leaves to the root. It doesn't own the parent, which owns its children
+    std::weak_ptr<NodeType> parent_;
+    // left/right pointers for the opposite direction
+    NodePtr left_, right_;
 };
 
 template <typename IndexType, typename ValueType>
@@ -54,7 +56,7 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
     SingleLinkageClusterNodePtr single_linkage_cluster_node)
   : single_linkage_cluster_node_root_{single_linkage_cluster_node}
   , lambda_min_{single_linkage_cluster_node_root_->has_parent()
-                    ? common::division(1, single_linkage_cluster_node_root_->parent_->level_)
+                    ? common::division(1, single_linkage_cluster_node_root_->parent_.lock()->level_)
                     : 0}
   , stability_{0}
   , is_selected_{false} {}
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
index fe44a12..d48b4d3 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
@@ -5,6 +5,7 @@
 #include <cstdio>
 #include <memory>
 #include <numeric>
+#include <vector>
 
 #include "rapidjson/writer.h"
 
@@ -23,6 +24,8 @@ struct SingleLinkageClusterNode {
 
     SingleLinkageClusterNode(const IndexType& representative, const ValueType& level = 0, std::size_t cluster_size = 1);
 
+    ~SingleLinkageClusterNode();
+
     bool is_leaf() const;
 
     std::size_t size() const;
@@ -37,8 +40,10 @@ struct SingleLinkageClusterNode {
     ValueType level_;
     // the number of nodes that this node is an ancestor of (counting itself)
     std::size_t cluster_size_;
-    // parent pointer used to parse from the leaves to the root and the left/right ones for the opposite direction
-    NodePtr parent_, left_, right_;
+    // parent pointer used to parse from the leaves to the root. It doesn't own the parent, which owns its children
+    std::weak_ptr<NodeType> parent_;
+    // left/right pointers for the opposite direction
+    NodePtr left_, right_;
 };
 
 template <typename IndexType, typename ValueType>
@@ -49,6 +54,27 @@ SingleLinkageClusterNode<IndexType, ValueType>::SingleLinkageClusterNode(const I
   , level_{level}
   , cluster_size_{cluster_size} {}
 
+template <typename IndexType, typename ValueType>
+SingleLinkageClusterNode<IndexType, ValueType>::~SingleLinkageClusterNode() {
+    if (is_leaf()) {
+        return;
+    }
+    // the descendants are released iteratively since the tree can be as deep as the number of samples
+    std::vector<NodePtr> nodes_to_release;
+    nodes_to_release.emplace_back(std::move(left_));
+    nodes_to_release.emplace_back(std::move(right_));
+
+    while (!nodes_to_release.empty()) {
+        const auto node = std::move(nodes_to_release.back());
+        nodes_to_release.pop_back();
+
+        if (node.use_count() == 1 && !node->is_leaf()) {
+            nodes_to_release.emplace_back(std::move(node->left_));
+            nodes_to_release.emplace_back(std::move(node->right_));
+        }
+    }
+}
+
 template <typename IndexType, typename ValueType>
 bool SingleLinkageClusterNode<IndexType, ValueType>::is_leaf() const {
     // could do level_ == 0 but that might require performing float equality
@@ -62,7 +88,7 @@ std::size_t SingleLinkageClusterNode<IndexType, ValueType>::size() const {
 
 template <typename IndexType, typename ValueType>
 bool SingleLinkageClusterNode<IndexType, ValueType>::has_parent() const {
-    return parent_ != nullptr;
+    return !parent_.expired();
 }
 
 template <typename IndexType, typename ValueType>
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 6cab844..741081c 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -156,7 +156,7 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     // the root, or a node that hangs from a node above or at the desired cut level, is the top of a flat cluster, else
     // the cluster label of its parent is used for all the descendant nodes from the current node
     if (!single_linkage_cluster_node->has_parent() ||
-        single_linkage_cluster_node->parent_->level_ >= options_.cut_level_) {
+        single_linkage_cluster_node->parent_.lock()->level_ >= options_.cut_level_) {
         // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
         // else set the cluster label as the one at the current level. It's shifted by one since 0 is reserved to noise
         cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-- 
2.43.0


From d317b95701fdbae75ebba89afd091fb9eb8cddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:00 +0000
Subject: [PATCH 13/51] fix: coincident samples are the densest ones in the
 condensed tree

---
 .../CondensedClusterNode.hpp                       | 14 +++++++++++++-
 .../CondensedClusterTree.hpp                       |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index 90fe845..e304142 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -4,6 +4,8 @@
 
 #include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp"
 
+#include <algorithm>
+#include <limits>
 #include <memory>
 
 namespace ffcl::datastruct {
@@ -32,6 +34,9 @@ struct CondensedClusterNode {
 
     std::size_t size() const;
 
+    // the density at which samples merge, 1 / distance: the largest finite value for samples that merge at a distance of 0
+    static ValueType compute_lambda(const ValueType& level);
+
     void add_excess_of_mass(const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
                             const ValueType&                   lambda_value);
 
@@ -56,7 +61,7 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
     SingleLinkageClusterNodePtr single_linkage_cluster_node)
   : single_linkage_cluster_node_root_{single_linkage_cluster_node}
   , lambda_min_{single_linkage_cluster_node_root_->has_parent()
-                    ? common::division(1, single_linkage_cluster_node_root_->parent_.lock()->level_)
+                    ? compute_lambda(single_linkage_cluster_node_root_->parent_.lock()->level_)
                     : 0}
   , stability_{0}
   , is_selected_{false} {}
@@ -82,6 +87,13 @@ std::size_t CondensedClusterNode<IndexType, ValueType>::size() const {
     return single_linkage_cluster_node_root_->size();
 }
 
+template <typename IndexType, typename ValueType>
+ValueType CondensedClusterNode<IndexType, ValueType>::compute_lambda(const ValueType& level) {
+    constexpr auto max_lambda = std::numeric_limits<ValueType>::max();
+
+    return level > 1 / max_lambda ? std::min(1 / level, max_lambda) : max_lambda;
+}
+
 template <typename IndexType, typename ValueType>
 void CondensedClusterNode<IndexType, ValueType>::add_excess_of_mass(
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
index fd6628a..87615fd 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
@@ -152,7 +152,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
             single_linkage_cluster_node->right_->size() >= options_.min_cluster_size_;
 
         // the lambda value needs to be computed for any of the if/else branches
-        const auto lambda_value = common::division(1, single_linkage_cluster_node->level_);
+        const auto lambda_value = CondensedClusterNodeType::compute_lambda(single_linkage_cluster_node->level_);
 
         // if both children are split candidates (they hold enough samples to be considered as their own cluster), we
         // consider the event as a true split and split the condensed cluster node in two new condensed cluster nodes
-- 
2.43.0


From ee24c7d7cad4dbc7a523b08d5226e7785f30c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:52 +0000
Subject: [PATCH 14/51] fix: a sample first seen as noise becomes the border of
 any cluster that reaches it

---
 include/ffcl/dbscan/DBSCAN.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/dbscan/DBSCAN.hpp b/include/ffcl/dbscan/DBSCAN.hpp
index b8baa24..b5a6f9d 100644
--- a/include/ffcl/dbscan/DBSCAN.hpp
+++ b/include/ffcl/dbscan/DBSCAN.hpp
@@ -174,12 +174,15 @@ void DBSCAN<Indexer>::predict_inner(NeighborsIndices&                neighbors_i
                 auto inner_neighbors_indices = std::move(inner_neighbors_buffer).indices();
 
                 // iterate over each neighbor's neighbors and add them to the neighbors to visit only if
-                // they havent been visited already
+                // they havent been visited already or if they were considered as noise, since they now are within reach
+                // of a cluster
                 std::copy_if(std::make_move_iterator(inner_neighbors_indices.begin()),
                              std::make_move_iterator(inner_neighbors_indices.end()),
                              std::back_inserter(neighbors_indices),
-                             [&visited_indices](const auto& inner_neighbor_index) {
-                                 return !visited_indices[inner_neighbor_index];
+                             [&visited_indices, &predictions](const auto& inner_neighbor_index) {
+                                 return !visited_indices[inner_neighbor_index] ||
+                                        predictions[inner_neighbor_index] ==
+                                            static_cast<LabelType>(SampleStatus::noise);
                              });
             }
         }
-- 
2.43.0


From e9d2c01e058b4dd332b3f1c92f00622cb84a45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 15/51] fix: a centroid without samples keeps its position
 instead of jumping to the origin

---
 include/ffcl/kmeans/Lloyd.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmeans/Lloyd.hpp b/include/ffcl/kmeans/Lloyd.hpp
index d1ca740..127a340 100644
--- a/include/ffcl/kmeans/Lloyd.hpp
+++ b/include/ffcl/kmeans/Lloyd.hpp
@@ -111,12 +111,8 @@ void Lloyd<SamplesIterator>::update_centroids() {
         const auto feature_index_start = centroid_index * n_features;
         const auto feature_index_end   = feature_index_start + n_features;
 
-        if (cluster_sizes[centroid_index] == 0) {
-            // For centroids with only 1 associated sample, the new position is the same as the previous one
-            std::copy(cluster_position_sums.begin() + feature_index_start,
-                      cluster_position_sums.begin() + feature_index_end,
-                      centroids_.begin() + feature_index_start);
-        } else {
+        // the centroids that have no associated samples keep their position
+        if (cluster_sizes[centroid_index]) {
             // Compute the new centroid position for the centroid that has more than 1 associated sample
             std::transform(cluster_position_sums.begin() + feature_index_start,
                            cluster_position_sums.begin() + feature_index_end,
-- 
2.43.0


From 0b9c9ecc94afc5c966c16661c7eeb6fa94fef725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 16/51] fix: a centroid as close as the nearest one is the
 second nearest centroid

---
 include/ffcl/kmeans/KMeansUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ffcl/kmeans/KMeansUtils.hpp b/include/ffcl/kmeans/KMeansUtils.hpp
index ef5d56c..108dafa 100644
--- a/include/ffcl/kmeans/KMeansUtils.hpp
+++ b/include/ffcl/kmeans/KMeansUtils.hpp
@@ -104,8 +104,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
-- 
2.43.0


From e9f297bcdcf307497d13b7a4e734ed1a2bed7275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:16 +0000
Subject: [PATCH 17/51] fix: the total deviation of Hamerly's algorithm is the
 one of its current centroids

---
 include/ffcl/kmeans/Hamerly.hpp | 48 +++++++++++----------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/include/ffcl/kmeans/Hamerly.hpp b/include/ffcl/kmeans/Hamerly.hpp
index 244daf3..40203e3 100644
--- a/include/ffcl/kmeans/Hamerly.hpp
+++ b/include/ffcl/kmeans/Hamerly.hpp
@@ -24,10 +24,6 @@ class Hamerly {
 
     Hamerly(const DatasetDescriptorType& dataset_descriptor, const std::vector<DataType>& centroids);
 
-    Hamerly(const DatasetDescriptorType& dataset_descriptor,
-            const std::vector<DataType>& centroids,
-            const DataType&              loss);
-
     Hamerly(const Hamerly&) = delete;
 
     auto total_deviation() const;
@@ -62,37 +58,33 @@ class Hamerly {
 
     void update_centroids_velocities(const std::vector<DataType>& previous_centroids);
 
-    auto update_bounds();
+    void update_bounds();
 
     DatasetDescriptorType    dataset_descriptor_;
     std::vector<DataType>    centroids_;
     std::unique_ptr<Buffers> buffers_ptr_;
-    DataType                 loss_;
 };
 
 template <typename SamplesIterator>
 Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descriptor,
                                   const std::vector<DataType>& centroids)
-  : Hamerly<SamplesIterator>::Hamerly(dataset_descriptor, centroids, common::infinity<DataType>()) {
-    // compute initial loss
-    loss_ = std::reduce(buffers_ptr_->samples_to_nearest_centroid_distances_.begin(),
-                        buffers_ptr_->samples_to_nearest_centroid_distances_.end(),
-                        static_cast<DataType>(0),
-                        std::plus<>());
-}
-
-template <typename SamplesIterator>
-Hamerly<SamplesIterator>::Hamerly(const DatasetDescriptorType& dataset_descriptor,
-                                  const std::vector<DataType>& centroids,
-                                  const DataType&              loss)
   : dataset_descriptor_{dataset_descriptor}
   , centroids_{centroids}
-  , buffers_ptr_{std::make_unique<Buffers>(dataset_descriptor, centroids_)}
-  , loss_{loss} {}
+  , buffers_ptr_{std::make_unique<Buffers>(dataset_descriptor, centroids_)} {}
 
 template <typename SamplesIterator>
 auto Hamerly<SamplesIterator>::total_deviation() const {
-    return loss_;
+    // the distances kept in the buffers are bounds, so the distances to the current centroids have to be computed
+    const auto samples_to_nearest_centroid_distances =
+        kmeans::utils::samples_to_nearest_centroid_distances(std::get<0>(dataset_descriptor_),
+                                                             std::get<1>(dataset_descriptor_),
+                                                             std::get<2>(dataset_descriptor_),
+                                                             centroids_);
+
+    return std::reduce(samples_to_nearest_centroid_distances.begin(),
+                       samples_to_nearest_centroid_distances.end(),
+                       static_cast<DataType>(0),
+                       std::plus<>());
 }
 
 template <typename SamplesIterator>
@@ -109,8 +101,8 @@ auto Hamerly<SamplesIterator>::step() {
     // upate the centroids velocities based on the previous centroids and the updated centroids
     update_centroids_velocities(previous_centroids);
 
-    // recompute the loss w.r.t. the updated buffers
-    loss_ = update_bounds();
+    // update the bounds w.r.t. the centroids velocities
+    update_bounds();
 
     return centroids_;
 }
@@ -146,8 +138,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                 centroids_.begin() + assigned_centroid_index * n_features,
                 centroids_.begin() + assigned_centroid_index * n_features + n_features);
 
-            const auto previous_assigned_centroid_distance = samples_to_nearest_centroid_distances[sample_index];
-
             samples_to_nearest_centroid_distances[sample_index] = upper_bound;
 
             // second bound test
@@ -205,10 +195,6 @@ void Hamerly<SamplesIterator>::swap_bounds() {
                                    samples_range_first + sample_index * n_features,
                                    cluster_position_sums.begin() + assigned_centroid_index * n_features,
                                    std::plus<>());
-
-                    // update the loss by removing its previous contribution and adding the new one
-                    loss_ -= previous_assigned_centroid_distance;
-                    loss_ += upper_bound;
                 }
             }
         }
@@ -258,7 +244,7 @@ void Hamerly<SamplesIterator>::update_centroids_velocities(const std::vector<Dat
 }
 
 template <typename SamplesIterator>
-auto Hamerly<SamplesIterator>::update_bounds() {
+void Hamerly<SamplesIterator>::update_bounds() {
     const auto [furthest_moving_centroid_index, furthest_moving_centroid_distance] =
         common::math::statistics::get_max_index_value_pair(buffers_ptr_->centroid_velocities_.begin(),
                                                            buffers_ptr_->centroid_velocities_.end());
@@ -287,8 +273,6 @@ auto Hamerly<SamplesIterator>::update_bounds() {
     }
     buffers_ptr_->centroid_to_nearest_centroid_distances_ = kmeans::utils::nearest_neighbor_distances(
         centroids_.begin(), centroids_.end(), std::get<2>(dataset_descriptor_));
-
-    return loss_;
 }
 
 template <typename SamplesIterator>
-- 
2.43.0


From 17c7a9473fb21bbcad078004cbc84014a2a8ebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 18/51] fix: random selection draws from all the elements, not
 only from the first ones

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 08c13f9..cc90804 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -17,7 +17,7 @@ auto select_n_elements(const Iterator& first, const Iterator& last, std::size_t
     // Perform a partial shuffle of the first n_elements elements
     for (std::size_t element_index = 0; element_index < n_elements; ++element_index) {
         std::swap(selected_elements[element_index],
-                  selected_elements[uniform_distribution{element_index, n_elements - 1}()]);
+                  selected_elements[uniform_distribution{element_index, selected_elements.size() - 1}()]);
     }
     // Resize the vector to keep only the first n_elements elements
     selected_elements.resize(n_elements);
-- 
2.43.0


From 8e0bd0cd6b586d7ab819961918ec619a83879f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 19/51] fix: spatial initialisation stays within the samples
 when all their values are negative

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index cc90804..098f967 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -125,7 +125,7 @@ auto init_spatial_uniform(const SamplesIterator& samples_range_first,
 
     // row vector buffers to keep track of min-max values
     auto min_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::max());
-    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::min());
+    auto max_buffer = std::vector<DataType>(n_features, std::numeric_limits<DataType>::lowest());
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         for (std::size_t feature_index = 0; feature_index < n_features; ++feature_index) {
-- 
2.43.0


From 28e3821fad5601cf3941c39ed8b0aa62497fc666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:56 +0000
Subject: [PATCH 20/51] fix: random samples can be selected from a range of
 indices

---
 include/ffcl/common/math/random/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/random/Sampling.hpp b/include/ffcl/common/math/random/Sampling.hpp
index 098f967..c386be4 100644
--- a/include/ffcl/common/math/random/Sampling.hpp
+++ b/include/ffcl/common/math/random/Sampling.hpp
@@ -99,7 +99,7 @@ auto select_n_random_samples_from_indices(const IndicesIterator& index_first,
     // clip n_choices to prevent overflows
     n_choices = std::min(n_choices, n_samples);
     // return n_choices distinctive indices from the pool of indices defined by the desired indices range
-    const auto random_distinct_indices = select_n_elements(index_first, index_last);
+    const auto random_distinct_indices = select_n_elements(index_first, index_last, n_choices);
 
     auto random_samples = std::vector<DataType>(n_choices * n_features);
 
-- 
2.43.0


From 6894336e19d683b1523a5f2b1031679c398d0f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:36 +0000
Subject: [PATCH 21/51] fix: the mean of signed integers with a negative sum
 doesn't wrap around

---
 include/ffcl/common/math/statistics/Statistics.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index c6cbf31..ba82fae 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -154,7 +154,7 @@ auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
     return mean_per_feature;
 }
 
@@ -180,7 +180,7 @@ auto compute_mean_per_feature(const IndicesIterator& indices_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / n_samples; });
+                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
     return mean_per_feature;
 }
 
@@ -209,7 +209,7 @@ auto compute_mean_per_feature(const IndicesIterator&          indices_range_firs
         /**/ mean_per_feature.begin(),
         /**/ mean_per_feature.end(),
         /**/ mean_per_feature.begin(),
-        [n_samples](const auto& feature) { return feature / n_samples; });
+        [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
     return mean_per_feature;
 }
 
-- 
2.43.0


From 4a847d39f98e429ab032aa927f8070ea8541dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:36 +0000
Subject: [PATCH 22/51] fix: the variance of masked features is computed over
 all the samples

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index ba82fae..cdde5cf 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -315,7 +315,7 @@ auto compute_variance_per_feature(const IndicesIterator&          indices_range_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
@@ -417,7 +417,7 @@ std::size_t argmax_variance_per_feature(const IndicesIterator&          indices_
         auto features_accumulator = std::vector<DataType>(feature_mask.size());
 
         for (std::size_t mask_index = 0; mask_index < feature_mask.size(); ++mask_index) {
-            const auto temp = samples_range_first[*indices_range_first * n_features + feature_mask[mask_index]] -
+            const auto temp = samples_range_first[indices_range_first[sample_index] * n_features + feature_mask[mask_index]] -
                               mean_per_feature[mask_index];
             variance_per_feature[mask_index] += temp * temp;
         }
-- 
2.43.0


From 0ef80e5c71816001ec558175b7bcdc8751359205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:36 +0000
Subject: [PATCH 23/51] fix: argmin and argmax return an index instead of a
 value of the type of the elements

---
 include/ffcl/common/math/statistics/Statistics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index cdde5cf..7d687b3 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -49,13 +49,13 @@ void min_container_inplace_left(Container& left_container, const Container& righ
 }
 
 template <typename Iterator>
-auto argmin(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmin(const Iterator& first, const Iterator& last) {
     auto min_it = std::min_element(first, last);
     return std::distance(first, min_it);
 }
 
 template <typename Iterator>
-auto argmax(const Iterator& first, const Iterator& last) -> typename std::iterator_traits<Iterator>::value_type {
+std::size_t argmax(const Iterator& first, const Iterator& last) {
     auto max_it = std::max_element(first, last);
     return std::distance(first, max_it);
 }
-- 
2.43.0


From f0ba572fdd570e5b793805aafc263e45b890c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:36 +0000
Subject: [PATCH 24/51] fix: the longest axis among masked features is one of
 them even if they are all flat

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index 02c2385..a219b6d 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -30,7 +30,7 @@ std::size_t select_longest_axis(const Bound& bound, const std::vector<std::size_
     static_assert(std::is_trivial_v<DataType>, "DataType must be trivial.");
 
     // feature index of the greatest range dimension in the kd bounding box at the indices of the feature_mask
-    std::size_t current_max_range_feature_index = 0;
+    std::size_t current_max_range_feature_index = feature_mask.empty() ? 0 : feature_mask.front();
     DataType    current_max_range               = 0;
 
     // "feature_index"s are only the ones specified in the feature_mask
-- 
2.43.0


From 6d134949db7bd61106562917e70cd89fb5c4c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:36 +0000
Subject: [PATCH 25/51] fix: the axis of largest variance of two samples or
 fewer is theirs and within the mask

---
 include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
index a219b6d..378b49d 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTreeAlgorithms.hpp
@@ -88,7 +88,8 @@ std::size_t select_largest_variance_axis(const IndicesIterator& indices_range_fi
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound);
     }
@@ -147,12 +148,13 @@ std::size_t select_largest_variance_axis(const IndicesIterator&          indices
     // select the axis according to the dimension with the most spread between 2 points
     if (n_samples == 2) {
         // otherwise apply the bounding box method
-        auto bound = make_tight_bound<SamplesIterator, Bound>(samples_range_first, samples_range_last, n_features);
+        auto bound = make_tight_bound<IndicesIterator, SamplesIterator, Bound>(
+            indices_range_first, indices_range_last, samples_range_first, samples_range_last, n_features);
 
         return select_longest_axis(bound, feature_mask);
     }
     // return a random axis if theres only one sample left
-    return common::math::random::uniform_distribution<std::size_t>(0, n_features - 1)();
+    return feature_mask[common::math::random::uniform_distribution<std::size_t>(0, feature_mask.size() - 1)()];
 }
 template <typename ForwardedIndicesIteratorPair, typename SamplesIterator>
 auto shift_median_to_leftmost_equal_value(std::size_t                    median_index,
-- 
2.43.0


From fa6ee904360c633a9623fec1d0899526c017f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:57 +0000
Subject: [PATCH 26/51] fix: the index of the second maximum is right when its
 value is the lowest possible one

---
 include/ffcl/common/math/statistics/Statistics.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index 7d687b3..f743e55 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -97,17 +97,15 @@ auto get_second_max_index_value_pair(const Iterator& first, const Iterator& last
     if (std::distance(first, last) < 2) {
         return {max_idx, max_value};
     }
-    // Replace the maximum element with the lowest possible value
-    *max_it = std::numeric_limits<DataType>::lowest();
+    // Get the maximum elements of what is before and after the maximum element
+    const auto before_it = std::max_element(first, max_it);
+    const auto after_it  = std::max_element(std::next(max_it), last);
 
     // Get the index of the second maximum element
-    const auto     second_max_it    = std::max_element(first, last);
+    const auto second_max_it = before_it == max_it || (after_it != last && *before_it < *after_it) ? after_it : before_it;
     std::size_t    second_max_idx   = std::distance(first, second_max_it);
     const DataType second_max_value = *second_max_it;
 
-    // Restore the original maximum value
-    *max_it = max_value;
-
     return {second_max_idx, second_max_value};
 }
 
-- 
2.43.0


From 3ea8e3a358ac660723e586e662839cd2a4c23186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:44 +0000
Subject: [PATCH 27/51] fix: medoids at the same distance of a sample are
 ranked one after the other

---
 include/ffcl/kmedoids/PAMUtils.hpp | 40 +++++++++---------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/ffcl/kmedoids/PAMUtils.hpp b/include/ffcl/kmedoids/PAMUtils.hpp
index be5c117..2926ac7 100644
--- a/include/ffcl/kmedoids/PAMUtils.hpp
+++ b/include/ffcl/kmedoids/PAMUtils.hpp
@@ -127,8 +127,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(const SamplesI
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -169,8 +168,7 @@ std::vector<std::size_t> samples_to_second_nearest_medoid_indices(
                 first_min_distance  = second_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
                 second_min_index    = idx;
             }
@@ -222,16 +220,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(const SamplesIt
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -276,16 +271,13 @@ std::vector<std::size_t> samples_to_third_nearest_medoid_indices(
                 first_min_distance  = third_nearest_candidate;
                 first_min_index     = idx;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 third_min_index     = second_min_index;
                 second_min_distance = third_nearest_candidate;
                 second_min_index    = idx;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
                 third_min_index    = idx;
             }
@@ -453,8 +445,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -490,8 +481,7 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = second_nearest_candidate;
 
-            } else if (second_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(second_nearest_candidate, first_min_distance)) {
+            } else if (second_nearest_candidate < second_min_distance) {
                 second_min_distance = second_nearest_candidate;
             }
         }
@@ -537,14 +527,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
@@ -582,14 +569,11 @@ std::vector<typename std::iterator_traits<SamplesIterator>::value_type> samples_
                 second_min_distance = first_min_distance;
                 first_min_distance  = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < second_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance)) {
+            } else if (third_nearest_candidate < second_min_distance) {
                 third_min_distance  = second_min_distance;
                 second_min_distance = third_nearest_candidate;
 
-            } else if (third_nearest_candidate < third_min_distance &&
-                       ffcl::common::inequality(third_nearest_candidate, first_min_distance) &&
-                       ffcl::common::inequality(third_nearest_candidate, second_min_distance)) {
+            } else if (third_nearest_candidate < third_min_distance) {
                 third_min_distance = third_nearest_candidate;
             }
         }
-- 
2.43.0


From e5f8c1273247a61a01f5a98231124658a49f5bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:01 +0000
Subject: [PATCH 28/51] fix: every sample that isn't a medoid is a swap
 candidate of FasterPAM, and no medoid is

---
 include/ffcl/kmedoids/FasterPAM.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterPAM.hpp b/include/ffcl/kmedoids/FasterPAM.hpp
index 191bd33..ead8bc1 100644
--- a/include/ffcl/kmedoids/FasterPAM.hpp
+++ b/include/ffcl/kmedoids/FasterPAM.hpp
@@ -136,11 +136,9 @@ auto FasterPAM<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterPAM<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // the total deviation change for the best swap candidate and its index in the dataset
             const auto [best_swap_delta_td, best_swap_index] = find_best_swap(medoid_candidate_index);
 
-- 
2.43.0


From 51f25932274fb03626ffff1febbecf8d03f8087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:01 +0000
Subject: [PATCH 29/51] fix: every sample that isn't a medoid is a swap
 candidate of FasterMSC, and no medoid is

---
 include/ffcl/kmedoids/FasterMSC.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 4af7854..7935298 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -146,11 +146,9 @@ auto FasterMSC<SamplesIterator>::total_deviation() const {
 
 template <typename SamplesIterator>
 auto FasterMSC<SamplesIterator>::step() {
-    const auto& samples_to_nearest_medoid_indices = buffers_ptr_->samples_to_nearest_medoid_indices_;
-
     for (std::size_t medoid_candidate_index = 0; medoid_candidate_index < n_samples_; ++medoid_candidate_index) {
         // execute only if the current candidate is not already selected as a medoid
-        if (medoid_candidate_index != samples_to_nearest_medoid_indices[medoid_candidate_index]) {
+        if (common::is_element_not_in(medoids_.begin(), medoids_.end(), medoid_candidate_index)) {
             // handle the case chen the number of medoids is 2
             if (medoids_.size() == 2) {
                 // the total deviation change for the best medoid index 0 or 1
-- 
2.43.0


From fec7787f9b9c91fd97500211d88d1f0ebbbd98ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:01 +0000
Subject: [PATCH 30/51] fix: FasterMSC doesn't mistake the first medoid for a
 missing third nearest one

---
 include/ffcl/kmedoids/FasterMSC.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 7935298..24d36d4 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -333,7 +333,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_1    = index_2;
                 distance_1 = distance_2;
                 index_2    = best_swap_index;
@@ -373,7 +373,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_1    = best_swap_index;
                 distance_1 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
@@ -417,7 +417,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
                 index_2    = best_swap_index;
                 distance_2 = distance_oc;
 
-            } else if (distance_oc < distance_3 || index_3 == common::infinity<std::size_t>()) {
+            } else if (distance_oc < distance_3) {
                 index_3    = best_swap_index;
                 distance_3 = distance_oc;
 
-- 
2.43.0


From 2cb4e4acd8a320f8390347be2409687aeeeb8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:01 +0000
Subject: [PATCH 31/51] fix: a division by a small number isn't a division by
 zero

---
 include/ffcl/common/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 51d5707..be00704 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -430,7 +430,7 @@ constexpr bool inequality(const T& a, const U& b) noexcept {
 template <typename T, typename U>
 constexpr auto division(const T& numerator, const U& denominator, const U& default_return_value = 0)
     -> std::common_type_t<T, U> {
-    if (equality(denominator, static_cast<U>(0))) {
+    if (denominator == static_cast<U>(0)) {
 #if defined(VERBOSE) && VERBOSE == true
         printf("[WARN] attempted division by zero: returning default_return_value.\n");
 #endif
-- 
2.43.0


From 193b88afaa5f74412bfe16e74b9a6081a177a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:27 +0000
Subject: [PATCH 32/51] fix: the initial loss of FasterMSC is the one that its
 steps reduce

---
 include/ffcl/kmedoids/FasterMSC.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 24d36d4..e530034 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -75,6 +75,8 @@ class FasterMSC {
 
         void update_losses_with_closest_medoid_removal(std::size_t n_medoids);
 
+        DataType compute_loss() const;
+
         std::vector<std::size_t> samples_to_nearest_medoid_indices_;
         std::vector<std::size_t> samples_to_second_nearest_medoid_indices_;
         std::vector<std::size_t> samples_to_third_nearest_medoid_indices_;
@@ -104,9 +106,7 @@ FasterMSC<SamplesIterator>::FasterMSC(const DatasetDescriptorType&    dataset_de
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(dataset_descriptor, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = buffers_ptr_->compute_loss();
 }
 
 template <typename SamplesIterator>
@@ -124,9 +124,7 @@ FasterMSC<SamplesIterator>::FasterMSC(const SecondVariantType&        pairwise_d
                                       const std::vector<std::size_t>& medoids)
   : FasterMSC<SamplesIterator>::FasterMSC(pairwise_distance_matrix, medoids, common::infinity<DataType>()) {
     // compute initial loss
-    loss_ = std::accumulate(buffers_ptr_->samples_to_nearest_medoid_distances_.begin(),
-                            buffers_ptr_->samples_to_nearest_medoid_distances_.end(),
-                            static_cast<DataType>(0));
+    loss_ = buffers_ptr_->compute_loss();
 }
 
 template <typename SamplesIterator>
@@ -621,4 +619,17 @@ void FasterMSC<SamplesIterator>::Buffers::update_losses_with_closest_medoid_remo
                                                                             n_medoids);
 }
 
+template <typename SamplesIterator>
+typename FasterMSC<SamplesIterator>::DataType FasterMSC<SamplesIterator>::Buffers::compute_loss() const {
+    DataType loss = 0;
+
+    for (std::size_t sample_index = 0; sample_index < samples_to_nearest_medoid_distances_.size(); ++sample_index) {
+        const auto [distance_1, distance_2] = std::minmax(samples_to_nearest_medoid_distances_[sample_index],
+                                                          samples_to_second_nearest_medoid_distances_[sample_index]);
+
+        loss += common::division(distance_1, distance_2);
+    }
+    return loss;
+}
+
 }  // namespace ffcl
\ No newline at end of file
-- 
2.43.0


From b4fcf0e316188261ecef5ce96d8f47f1db69b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:27 +0000
Subject: [PATCH 33/51] fix: FasterMSC stores the distances to its two medoids
 by medoid position

---
 include/ffcl/kmedoids/FasterMSC.hpp | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index e530034..73657f0 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -77,6 +77,9 @@ class FasterMSC {
 
         DataType compute_loss() const;
 
+        // the distances are stored by medoid position instead of closeness when there are two medoids
+        void order_distances_by_medoid_position();
+
         std::vector<std::size_t> samples_to_nearest_medoid_indices_;
         std::vector<std::size_t> samples_to_second_nearest_medoid_indices_;
         std::vector<std::size_t> samples_to_third_nearest_medoid_indices_;
@@ -468,8 +471,9 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
         auto& distance_2 = samples_to_second_nearest_medoid_distances[other_sample_index];
 
         if (other_sample_index == medoid_candidate_index) {
-            index_1    = best_swap_index;
-            distance_1 = distance_2 = 0;
+            index_1 = best_swap_index;
+            // the distance to the medoid that stays remains the same
+            (best_swap_index == 0 ? distance_1 : distance_2) = 0;
             continue;
         }
         // candidate_to_other_distance
@@ -555,7 +559,11 @@ FasterMSC<SamplesIterator>::Buffers::Buffers(const SamplesIterator&          sam
                                                 samples_to_second_nearest_medoid_distances_,
                                                 samples_to_third_nearest_medoid_distances_,
                                                 medoids.size())
-                                          : std::vector<DataType>({})} {}
+                                          : std::vector<DataType>({})} {
+    if (medoids.size() == 2) {
+        order_distances_by_medoid_position();
+    }
+}
 
 template <typename SamplesIterator>
 FasterMSC<SamplesIterator>::Buffers::Buffers(const DatasetDescriptorType&    dataset_descriptor,
@@ -606,7 +614,11 @@ FasterMSC<SamplesIterator>::Buffers::Buffers(const SecondVariantType&        pai
                                                 samples_to_second_nearest_medoid_distances_,
                                                 samples_to_third_nearest_medoid_distances_,
                                                 medoids.size())
-                                          : std::vector<DataType>({})} {}
+                                          : std::vector<DataType>({})} {
+    if (medoids.size() == 2) {
+        order_distances_by_medoid_position();
+    }
+}
 
 template <typename SamplesIterator>
 void FasterMSC<SamplesIterator>::Buffers::update_losses_with_closest_medoid_removal(std::size_t n_medoids) {
@@ -632,4 +644,14 @@ typename FasterMSC<SamplesIterator>::DataType FasterMSC<SamplesIterator>::Buffer
     return loss;
 }
 
+template <typename SamplesIterator>
+void FasterMSC<SamplesIterator>::Buffers::order_distances_by_medoid_position() {
+    for (std::size_t sample_index = 0; sample_index < samples_to_nearest_medoid_indices_.size(); ++sample_index) {
+        if (samples_to_nearest_medoid_indices_[sample_index] == 1) {
+            std::swap(samples_to_nearest_medoid_distances_[sample_index],
+                      samples_to_second_nearest_medoid_distances_[sample_index]);
+        }
+    }
+}
+
 }  // namespace ffcl
\ No newline at end of file
-- 
2.43.0


From b2f3f468772714d923daf7c5730fcfedfda4aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:27 +0000
Subject: [PATCH 34/51] fix: FasterMSC assigns samples to the nearest of two
 close medoids

---
 include/ffcl/kmedoids/FasterMSC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/kmedoids/FasterMSC.hpp b/include/ffcl/kmedoids/FasterMSC.hpp
index 73657f0..438c231 100644
--- a/include/ffcl/kmedoids/FasterMSC.hpp
+++ b/include/ffcl/kmedoids/FasterMSC.hpp
@@ -484,7 +484,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
 
         if (best_swap_index == 0) {
             distance_1 = distance_oc;
-            if (distance_oc < distance_2 || (common::equality(distance_oc, distance_2) && index_1 == 0)) {
+            if (distance_oc < distance_2 || (distance_oc == distance_2 && index_1 == 0)) {
                 index_1 = 0;
                 loss += common::division(distance_oc, distance_2);
             } else {
@@ -493,7 +493,7 @@ typename std::iterator_traits<SamplesIterator>::value_type FasterMSC<SamplesIter
             }
         } else {
             distance_2 = distance_oc;
-            if (distance_oc < distance_1 || (common::equality(distance_oc, distance_1) && index_1 == 1)) {
+            if (distance_oc < distance_1 || (distance_oc == distance_1 && index_1 == 1)) {
                 index_1 = 1;
                 loss += common::division(distance_oc, distance_1);
             } else {
-- 
2.43.0


From 8cdca421cf3116b97fb229caaa4e396404f7934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 35/51] fix: manhattan distances from the origin don't return a
 reference to a temporary

---
 include/ffcl/common/math/heuristics/Distances.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index 827c173..2318d46 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -78,11 +78,13 @@ auto euclidean_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                     const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
     static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
                   "Input must be signed.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
@@ -119,11 +121,13 @@ auto manhattan_distance(const LeftFeaturesIterator&  left_features_range_first,
 template <typename FeaturesIterator>
 auto unsigned_manhattan_distance_from_origin(const FeaturesIterator& features_range_first,
                                              const FeaturesIterator& features_range_last)
-    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
+    -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
     static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
                   "Input must be signed.");
 
-    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
+    using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
+                                std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
 
     return std::transform_reduce(features_range_first,
                                  features_range_last,
-- 
2.43.0


From 23e952486bfbccc8c5379c6ac4015ddd76239e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 36/51] fix: the unsigned distance from the origin accepts
 unsigned values

---
 include/ffcl/common/math/heuristics/Distances.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/common/math/heuristics/Distances.hpp b/include/ffcl/common/math/heuristics/Distances.hpp
index 2318d46..c6c362d 100644
--- a/include/ffcl/common/math/heuristics/Distances.hpp
+++ b/include/ffcl/common/math/heuristics/Distances.hpp
@@ -123,8 +123,8 @@ auto unsigned_manhattan_distance_from_origin(const FeaturesIterator& features_ra
                                              const FeaturesIterator& features_range_last)
     -> decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
                 std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>()) {
-    static_assert(std::is_signed<typename std::iterator_traits<FeaturesIterator>::value_type>::value,
-                  "Input must be signed.");
+    static_assert(std::is_unsigned_v<typename std::iterator_traits<FeaturesIterator>::value_type>,
+                  "Input must be unsigned integer.");
 
     using ResultType = decltype(std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>() +
                                 std::declval<typename std::iterator_traits<FeaturesIterator>::value_type>());
-- 
2.43.0


From a11015b167a9776612a1fa8e51c1326b06be0582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 37/51] fix: cluster sizes don't wrap around when the labels
 have a narrow type

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 395c49b..1a6ac6a 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -39,7 +39,7 @@ auto get_cluster_sizes(const ClusterLabelsIterator& cluster_labels_range_first,
     // n_centroids = 1 + greatest_centroid_index
     const auto n_centroids = 1 + *std::max_element(cluster_labels_range_first, cluster_labels_range_last);
     // n_labels = 1 + largest_label_index
-    auto labels_histogram = std::vector<ClusterLabelType>(n_centroids);
+    auto labels_histogram = std::vector<std::size_t>(n_centroids);
 
     auto cluster_labels_range_it = cluster_labels_range_first;
 
-- 
2.43.0


From d47fcd978d961ed0dcb64a63d503c0b4576e12f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:46 +0000
Subject: [PATCH 38/51] fix: the silhouette of a sample alone in its cluster is
 zero as documented

---
 include/ffcl/common/math/heuristics/SilhouetteMethod.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
index 1a6ac6a..9b5ab8e 100644
--- a/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
+++ b/include/ffcl/common/math/heuristics/SilhouetteMethod.hpp
@@ -238,13 +238,18 @@ auto silhouette(const SamplesIterator&       samples_range_first,
                                               /**/ cluster_labels_range_first,
                                               /**/ cluster_labels_range_last);
 
+    const auto cluster_sizes = get_cluster_sizes(cluster_labels_range_first, cluster_labels_range_last);
+
     auto samples_silhouette_scores = std::vector<ElementType>(n_samples);
 
     for (std::size_t sample_index = 0; sample_index < n_samples; ++sample_index) {
         const auto coh = cohesion_values[sample_index];
         const auto sep = separation_values[sample_index];
 
-        if (coh < sep) {
+        if (cluster_sizes[cluster_labels_range_first[sample_index]] == 1) {
+            samples_silhouette_scores[sample_index] = 0;
+
+        } else if (coh < sep) {
             samples_silhouette_scores[sample_index] = static_cast<ElementType>(1) - coh / sep;
 
         } else if (coh > sep) {
-- 
2.43.0


From 532082e57183cc84db51b58aeae1610bcab039a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 39/51] fix: boxes with a fixed number of features derive from
 their own bound

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index b21ec72..d88af90 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -11,7 +11,7 @@
 namespace ffcl::datastruct::bounds {
 
 template <typename Segment, std::size_t NFeatures = 0>
-class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment>> {
+class AABBWithCentroid : public StaticBoundWithCentroid<AABBWithCentroid<Segment, NFeatures>> {
     static_assert(common::is_crtp_of<Segment, segment::StaticSegment>::value,
                   "Provided a Segment that does not inherit from segment::StaticSegment<Derived>");
 
-- 
2.43.0


From 1ab690b210f96e6e602800d9a10208a0d197c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 40/51] fix: the distance to the furthest bound of a box isn't
 truncated to an integer

---
 include/ffcl/datastruct/bounds/AABBWithCentroid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
index d88af90..8090dba 100644
--- a/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
+++ b/include/ffcl/datastruct/bounds/AABBWithCentroid.hpp
@@ -161,7 +161,7 @@ constexpr auto AABBWithCentroid<Segment, NFeatures>::compute_distance_to_centroi
 
 template <typename Segment, std::size_t NFeatures>
 constexpr auto AABBWithCentroid<Segment, NFeatures>::centroid_to_furthest_bound_distance_impl() const {
-    auto furthest_distance = 0;
+    ValueType furthest_distance = 0;
 
     for (const auto& segment : segments_) {
         const auto candidate_furthest_distance = segment.centroid_to_bound_distance();
-- 
2.43.0


From b9953335e4a96d3cec6b7bfcf886cf05178b56b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 41/51] fix: moving the lower bound of a segment leaves its
 upper bound where it is

---
 include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
index 989ec1d..b16cd55 100644
--- a/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
+++ b/include/ffcl/datastruct/bounds/segment/LowerBoundAndLength.hpp
@@ -47,6 +47,8 @@ constexpr auto LowerBoundAndLength<Value>::lower_bound_impl() const {
 
 template <typename Value>
 void LowerBoundAndLength<Value>::update_lower_bound_impl(const ValueType& new_lower_bound) {
+    // the length changes so that the upper bound remains where it is
+    segment_representation_.second += segment_representation_.first - new_lower_bound;
     segment_representation_.first = new_lower_bound;
 }
 
-- 
2.43.0


From 295012babf607158ae40c3040a8296bb199d158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 42/51] fix: the center of a range of negative integers is only
 rounded when it has to be

---
 include/ffcl/common/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index be00704..0ba692d 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -447,7 +447,7 @@ constexpr auto compute_center_with_left_rounding(const T& lower, const U& upper)
     const auto lower_plus_upper = lower + upper;
 
     if constexpr (std::is_integral_v<std::common_type_t<T, U>>) {
-        return lower_plus_upper < 0 ? lower_plus_upper / 2 - 1 : lower_plus_upper / 2;
+        return lower_plus_upper < 0 && lower_plus_upper % 2 != 0 ? lower_plus_upper / 2 - 1 : lower_plus_upper / 2;
 
     } else {
         // For floating point, regular calculation suffices
-- 
2.43.0


From c5eb03caec00818cf8a6bbfbe03ce1d2f88bcdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:07 +0000
Subject: [PATCH 43/51] fix: building an index over no integer samples does not
 overflow measuring its empty box

---
 include/ffcl/datastruct/tree/kdtree/KDTree.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
index 520980a..b0ba77e 100644
--- a/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
+++ b/include/ffcl/datastruct/tree/kdtree/KDTree.hpp
@@ -219,13 +219,7 @@ KDTree<IndicesIterator, SamplesIterator>::KDTree(IndicesIterator indices_range_f
                                                                                  n_features_)}
   , root_{build(indices_range_first,
                 indices_range_last,
-                (*options_.axis_selection_policy_ptr_)(indices_range_first,
-                                                       indices_range_last,
-                                                       samples_range_first_,
-                                                       samples_range_last_,
-                                                       n_features_,
-                                                       0,
-                                                       bound_),
+                0,
                 0,
                 bound_)} {}
 
-- 
2.43.0


From f2d62b598753a71b3a9da8fdc2d9bede0e62b70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:14 +0000
Subject: [PATCH 44/51] fix: sorting many equal values does not exhaust the
 stack

---
 include/ffcl/common/algorithms/Sorting.hpp | 113 ++++++++++++---------
 1 file changed, 65 insertions(+), 48 deletions(-)

diff --git a/include/ffcl/common/algorithms/Sorting.hpp b/include/ffcl/common/algorithms/Sorting.hpp
index 92a472b..298ce2a 100644
--- a/include/ffcl/common/algorithms/Sorting.hpp
+++ b/include/ffcl/common/algorithms/Sorting.hpp
@@ -201,56 +201,73 @@ std::size_t quicksort(const IndicesIterator& indices_range_first,
                       std::size_t            n_features,
                       std::size_t            initial_pivot_index,
                       std::size_t            feature_index) {
-    const std::size_t n_samples = std::distance(indices_range_first, indices_range_last);
+    auto subrange_first = indices_range_first;
+    auto subrange_last  = indices_range_last;
+
+    std::size_t pivot_index       = initial_pivot_index;
+    std::size_t first_pivot_index = initial_pivot_index;
+
+    // nothing left to sort if the number of samples is 0 or 1
+    while (std::distance(subrange_first, subrange_last) > 1) {
+        const bool is_whole_range = subrange_first == indices_range_first && subrange_last == indices_range_last;
+
+        // partial sort ranges around new pivot index
+        const std::size_t new_pivot_index = partition_around_pivot_index(subrange_first,
+                                                                         subrange_last,
+                                                                         samples_range_first,
+                                                                         samples_range_last,
+                                                                         n_features,
+                                                                         pivot_index,
+                                                                         feature_index);
+
+        if (is_whole_range) {
+            first_pivot_index = new_pivot_index;
+        }
+
+        // compute the median of the subranges
+
+        const std::size_t pivot_index_of_left_subrange = median_index_of_three(subrange_first,
+                                                                               subrange_first + new_pivot_index,
+                                                                               samples_range_first,
+                                                                               samples_range_last,
+                                                                               n_features,
+                                                                               feature_index);
+
+        const std::size_t pivot_index_of_right_subrange = median_index_of_three(subrange_first + new_pivot_index + 1,
+                                                                                subrange_last,
+                                                                                samples_range_first,
+                                                                                samples_range_last,
+                                                                                n_features,
+                                                                                feature_index);
+
+        // sort the smaller subrange recursively, then continue with the other one, so that the depth of the recursion
+        // stays logarithmic even if the pivots are never close to the middle (many equal values)
+        if (new_pivot_index < static_cast<std::size_t>(std::distance(subrange_first, subrange_last)) / 2) {
+            quicksort(subrange_first,
+                      subrange_first + new_pivot_index,
+                      samples_range_first,
+                      samples_range_last,
+                      n_features,
+                      pivot_index_of_left_subrange,
+                      feature_index);
+
+            subrange_first = subrange_first + new_pivot_index + 1;
+            pivot_index    = pivot_index_of_right_subrange;
 
-    // the pivot index is already correct if the number of samples is 0 or 1
-    if (n_samples < 2) {
-        return initial_pivot_index;
+        } else {
+            quicksort(subrange_first + new_pivot_index + 1,
+                      subrange_last,
+                      samples_range_first,
+                      samples_range_last,
+                      n_features,
+                      pivot_index_of_right_subrange,
+                      feature_index);
+
+            subrange_last = subrange_first + new_pivot_index;
+            pivot_index   = pivot_index_of_left_subrange;
+        }
     }
-    // partial sort ranges around new pivot index
-    const std::size_t new_pivot_index = partition_around_pivot_index(indices_range_first,
-                                                                     indices_range_last,
-                                                                     samples_range_first,
-                                                                     samples_range_last,
-                                                                     n_features,
-                                                                     initial_pivot_index,
-                                                                     feature_index);
-
-    // compute the median of the subranges
-
-    const std::size_t pivot_index_of_left_subrange = median_index_of_three(indices_range_first,
-                                                                           indices_range_first + new_pivot_index,
-                                                                           samples_range_first,
-                                                                           samples_range_last,
-                                                                           n_features,
-                                                                           feature_index);
-
-    const std::size_t pivot_index_of_right_subrange = median_index_of_three(indices_range_first + new_pivot_index + 1,
-                                                                            indices_range_last,
-                                                                            samples_range_first,
-                                                                            samples_range_last,
-                                                                            n_features,
-                                                                            feature_index);
-
-    // the pivot range is included in the left subrange
-
-    quicksort(indices_range_first,
-              indices_range_first + new_pivot_index,
-              samples_range_first,
-              samples_range_last,
-              n_features,
-              pivot_index_of_left_subrange,
-              feature_index);
-
-    quicksort(indices_range_first + new_pivot_index + 1,
-              indices_range_last,
-              samples_range_first,
-              samples_range_last,
-              n_features,
-              pivot_index_of_right_subrange,
-              feature_index);
-
-    return new_pivot_index;
+    return first_pivot_index;
 }
 
 }  // namespace ffcl::common::algorithms
\ No newline at end of file
-- 
2.43.0


From 7c10ecfef1ae17f655b12c4053bf542805889908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:43 +0000
Subject: [PATCH 45/51] fix: hierarchies as deep as the number of samples do
 not exhaust the stack

---
 .../CondensedClusterTree.hpp                  | 127 ++++++++++++------
 .../SingleLinkageClusterTree.hpp              |  44 +++---
 2 files changed, 110 insertions(+), 61 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
index 87615fd..db2bcd5 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterTree.hpp
@@ -8,6 +8,9 @@
 #include <map>
 #include <memory>
 #include <type_traits>
+#include <unordered_map>
+#include <utility>
+#include <vector>
 
 namespace ffcl::datastruct {
 
@@ -80,10 +83,14 @@ class CondensedClusterTree {
                                                       const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
                                                       std::vector<ClusterIndexType>&     flat_cluster) const;
 
+    // the nodes that remain to be built, each with the single linkage node that it continues from
+    using NodesToBuild = std::vector<std::pair<CondensedClusterNodePtr, SingleLinkageClusterNodePtr>>;
+
     void preorder_traversal_build(CondensedClusterNodePtr            condensed_cluster_node,
-                                  const SingleLinkageClusterNodePtr& single_linkage_cluster_node);
+                                  const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
+                                  NodesToBuild&                      nodes_to_build);
 
-    auto select_subtree(CondensedClusterNodePtr condensed_cluster_node);
+    void select_subtree(CondensedClusterNodePtr condensed_cluster_node);
 
     auto return_shallowest_cluster_selection() const;
 
@@ -135,15 +142,23 @@ template <typename IndexType, typename ValueType>
 auto CondensedClusterTree<IndexType, ValueType>::build(const SingleLinkageClusterNodePtr& slink_root_node) {
     auto condensed_cluster_root_node = std::make_shared<CondensedClusterNodeType>(slink_root_node);
 
-    preorder_traversal_build(condensed_cluster_root_node, slink_root_node);
+    // the depth of the hierarchy can be as large as the number of samples: it's traversed without recursion
+    NodesToBuild nodes_to_build;
+    nodes_to_build.emplace_back(condensed_cluster_root_node, slink_root_node);
 
+    while (!nodes_to_build.empty()) {
+        const auto [condensed_cluster_node, single_linkage_cluster_node] = nodes_to_build.back();
+        nodes_to_build.pop_back();
+        preorder_traversal_build(condensed_cluster_node, single_linkage_cluster_node, nodes_to_build);
+    }
     return condensed_cluster_root_node;
 }
 
 template <typename IndexType, typename ValueType>
 void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
     CondensedClusterNodePtr            condensed_cluster_node,
-    const SingleLinkageClusterNodePtr& single_linkage_cluster_node) {
+    const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
+    NodesToBuild&                      nodes_to_build) {
     if (!single_linkage_cluster_node->is_leaf()) {
         const bool is_left_child_split_candidate =
             single_linkage_cluster_node->left_->size() >= options_.min_cluster_size_;
@@ -168,7 +183,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
                 condensed_cluster_node->left_->parent_ = condensed_cluster_node;
                 // continue to traverse the tree with the new condensed_cluster_node and the left single linkage node
                 // that didn't fall out of the cluster
-                preorder_traversal_build(condensed_cluster_node->left_, single_linkage_cluster_node->left_);
+                nodes_to_build.emplace_back(condensed_cluster_node->left_, single_linkage_cluster_node->left_);
             }
             // make the new right condensed cluster node
             {
@@ -179,7 +194,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
                 condensed_cluster_node->right_->parent_ = condensed_cluster_node;
                 // continue to traverse the tree with the new condensed_cluster_node and the right single linkage node
                 // that didn't fall out of the cluster
-                preorder_traversal_build(condensed_cluster_node->right_, single_linkage_cluster_node->right_);
+                nodes_to_build.emplace_back(condensed_cluster_node->right_, single_linkage_cluster_node->right_);
             }
         }
         // if only the left child is a split candidate, it persists in the current condensed cluster node and the right
@@ -189,7 +204,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
             condensed_cluster_node->add_excess_of_mass(single_linkage_cluster_node->right_, lambda_value);
             // continue to traverse the tree with the left single linkage node that didn't fall out of the cluster
             // in the same condensed cluster node
-            preorder_traversal_build(condensed_cluster_node, single_linkage_cluster_node->left_);
+            nodes_to_build.emplace_back(condensed_cluster_node, single_linkage_cluster_node->left_);
         }
         // if only the right child is a split candidate, it persists in the current condensed cluster node and the left
         // child is simply discarded (it "falls out of the cluster")
@@ -198,7 +213,7 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_build(
             condensed_cluster_node->add_excess_of_mass(single_linkage_cluster_node->left_, lambda_value);
             // continue to traverse the tree with the right single linkage node that didn't fall out of the cluster
             // in the same condensed cluster node
-            preorder_traversal_build(condensed_cluster_node, single_linkage_cluster_node->right_);
+            nodes_to_build.emplace_back(condensed_cluster_node, single_linkage_cluster_node->right_);
         }
         // if none of the children are split candidates, then the tree branch is terminated
         else {
@@ -246,42 +261,66 @@ void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_single_linka
     const ClusterIndexType&            cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // continue to traverse the tree if the current node is not leaf
-    // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
-    if (!single_linkage_cluster_node->is_leaf()) {
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->left_, flat_cluster);
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->right_, flat_cluster);
+    // the depth of the hierarchy can be as large as the number of samples: it's traversed without recursion
+    std::vector<SingleLinkageClusterNodePtr> nodes{single_linkage_cluster_node};
+
+    while (!nodes.empty()) {
+        const auto node = nodes.back();
+        nodes.pop_back();
 
-    } else {
-        // assert that single_linkage_cluster_node is indeed a leaf  by checking if its level in the tree is zero
-        assert(common::equality(single_linkage_cluster_node->level_, 0));
+        // continue to traverse the tree if the current node is not leaf
+        // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
+        if (!node->is_leaf()) {
+            nodes.emplace_back(node->right_);
+            nodes.emplace_back(node->left_);
 
-        // assign the cluster label to the sample index (which is its own node at level 0)
-        flat_cluster[single_linkage_cluster_node->representative_] = cluster_label;
+        } else {
+            // assert that the node is indeed a leaf by checking if its level in the tree is zero
+            assert(common::equality(node->level_, 0));
+
+            // assign the cluster label to the sample index (which is its own node at level 0)
+            flat_cluster[node->representative_] = cluster_label;
+        }
     }
 }
 
 template <typename IndexType, typename ValueType>
-auto CondensedClusterTree<IndexType, ValueType>::select_subtree(CondensedClusterNodePtr condensed_cluster_node) {
-    // return the stability of the node directly if the node query is leaf
-    if (condensed_cluster_node->is_leaf()) {
-        return condensed_cluster_node->stability_;
-
-    } else {
-        // compute the stability of the children of the current node, recursively
-        const auto children_stability =
-            select_subtree(condensed_cluster_node->left_) + select_subtree(condensed_cluster_node->right_);
+void CondensedClusterTree<IndexType, ValueType>::select_subtree(CondensedClusterNodePtr condensed_cluster_node) {
+    // the nodes in an order where each node comes before its descendants
+    std::vector<CondensedClusterNodePtr> nodes{condensed_cluster_node};
+
+    for (std::size_t node_index = 0; node_index < nodes.size(); ++node_index) {
+        const auto node = nodes[node_index];
+
+        if (!node->is_leaf()) {
+            nodes.emplace_back(node->left_);
+            nodes.emplace_back(node->right_);
+        }
+    }
+    // the best stability that a selection within the subtree of each node can reach
+    std::unordered_map<const CondensedClusterNodeType*, ValueType> subtree_stability;
+
+    // from the leaves to the root, so that the children are always known before their parent
+    for (auto node_it = nodes.rbegin(); node_it != nodes.rend(); ++node_it) {
+        const auto& node = *node_it;
+
+        if (node->is_leaf()) {
+            subtree_stability[node.get()] = node->stability_;
+            continue;
+        }
+        // compute the stability of the children of the current node
+        const auto children_stability = subtree_stability[node->left_.get()] + subtree_stability[node->right_.get()];
         // If the sum of the stabilities of the child clusters is greater than the stability of the cluster, then we set
         // the cluster stability to be the sum of the child stabilities and the cluster remains unselected
-        if (children_stability > condensed_cluster_node->stability_) {
-            return children_stability;
+        if (children_stability > node->stability_) {
+            subtree_stability[node.get()] = children_stability;
 
         } else {
             // If, on the other hand, the cluster’s stability is greater than the sum of its children then we declare
             // the cluster to be a selected cluster
-            condensed_cluster_node->is_selected() = true;
-            // and we return its stability
-            return condensed_cluster_node->stability_;
+            node->is_selected() = true;
+            // and we keep its stability
+            subtree_stability[node.get()] = node->stability_;
         }
     }
 }
@@ -300,17 +339,21 @@ template <typename IndexType, typename ValueType>
 void CondensedClusterTree<IndexType, ValueType>::preorder_traversal_fill_shallowest_selected_nodes(
     const CondensedClusterNodePtr&        condensed_cluster_node,
     std::vector<CondensedClusterNodePtr>& selected_condensed_cluster_nodes) const {
-    // if condensed_cluster_node is selected, we simply add it to the array vector and exit the function
-    if (condensed_cluster_node->is_selected()) {
-        selected_condensed_cluster_nodes.emplace_back(condensed_cluster_node);
-    }
-    // else we still need to recurse the tree until we end up finding the first selected node of the branch
-    else {
-        preorder_traversal_fill_shallowest_selected_nodes(condensed_cluster_node->left_,
-                                                          selected_condensed_cluster_nodes);
+    std::vector<CondensedClusterNodePtr> nodes{condensed_cluster_node};
+
+    while (!nodes.empty()) {
+        const auto node = nodes.back();
+        nodes.pop_back();
 
-        preorder_traversal_fill_shallowest_selected_nodes(condensed_cluster_node->right_,
-                                                          selected_condensed_cluster_nodes);
+        // if the node is selected, we simply add it to the array vector and leave its descendants out
+        if (node->is_selected()) {
+            selected_condensed_cluster_nodes.emplace_back(node);
+        }
+        // else we still need to traverse the tree until we end up finding the first selected node of the branch
+        else {
+            nodes.emplace_back(node->right_);
+            nodes.emplace_back(node->left_);
+        }
     }
 }
 
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
index 741081c..b807a8d 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp
@@ -153,25 +153,31 @@ void SingleLinkageClusterTree<IndexType, ValueType>::preorder_traversal_single_l
     ClusterIndexType                   cluster_label,
     const SingleLinkageClusterNodePtr& single_linkage_cluster_node,
     std::vector<ClusterIndexType>&     flat_cluster) const {
-    // the root, or a node that hangs from a node above or at the desired cut level, is the top of a flat cluster, else
-    // the cluster label of its parent is used for all the descendant nodes from the current node
-    if (!single_linkage_cluster_node->has_parent() ||
-        single_linkage_cluster_node->parent_.lock()->level_ >= options_.cut_level_) {
-        // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes
-        // else set the cluster label as the one at the current level. It's shifted by one since 0 is reserved to noise
-        cluster_label = single_linkage_cluster_node->size() < options_.min_cluster_size_
-                            ? 0
-                            : single_linkage_cluster_node->representative_ + 1;
-    }
-    // continue to traverse the tree if the current node is not leaf
-    // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
-    if (!single_linkage_cluster_node->is_leaf()) {
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->left_, flat_cluster);
-        preorder_traversal_single_linkage_clustering(cluster_label, single_linkage_cluster_node->right_, flat_cluster);
-
-    } else {
-        // assign the cluster label to the sample index (which is its own node at level 0)
-        flat_cluster[single_linkage_cluster_node->representative_] = cluster_label;
+    // the depth of the hierarchy can be as large as the number of samples: it's traversed without recursion
+    std::vector<std::pair<ClusterIndexType, SingleLinkageClusterNodePtr>> nodes;
+    nodes.emplace_back(cluster_label, single_linkage_cluster_node);
+
+    while (!nodes.empty()) {
+        auto [node_label, node] = nodes.back();
+        nodes.pop_back();
+
+        // the root, or a node that hangs from a node above or at the desired cut level, is the top of a flat cluster,
+        // else the cluster label of its parent is used for all the descendant nodes from the current node
+        if (!node->has_parent() || node->parent_.lock()->level_ >= options_.cut_level_) {
+            // set the cluster label as noise if the current node is parent of less than 'min cluster size' nodes else
+            // set the cluster label as the one at the current level. It's shifted by one since 0 is reserved to noise
+            node_label = node->size() < options_.min_cluster_size_ ? 0 : node->representative_ + 1;
+        }
+        // continue to traverse the tree if the current node is not leaf
+        // a single linkage cluster node is guaranteed to have a left and a right child if its not leaf
+        if (!node->is_leaf()) {
+            nodes.emplace_back(node_label, node->right_);
+            nodes.emplace_back(node_label, node->left_);
+
+        } else {
+            // assign the cluster label to the sample index (which is its own node at level 0)
+            flat_cluster[node->representative_] = node_label;
+        }
     }
 }
 
-- 
2.43.0


From 4d0a900d90f6855b738170c541a6f52a554cd40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:11 +0000
Subject: [PATCH 46/51] fix: releasing a condensed hierarchy as deep as the
 number of samples does not exhaust the stack

---
 .../CondensedClusterNode.hpp                  | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index e304142..45feb0d 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -7,6 +7,8 @@
 #include <algorithm>
 #include <limits>
 #include <memory>
+#include <utility>
+#include <vector>
 
 namespace ffcl::datastruct {
 
@@ -26,6 +28,8 @@ struct CondensedClusterNode {
 
     CondensedClusterNode(SingleLinkageClusterNodePtr single_linkage_cluster_node);
 
+    ~CondensedClusterNode();
+
     bool is_leaf() const;
 
     bool& is_selected();
@@ -66,6 +70,27 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
   , stability_{0}
   , is_selected_{false} {}
 
+template <typename IndexType, typename ValueType>
+CondensedClusterNode<IndexType, ValueType>::~CondensedClusterNode() {
+    if (is_leaf()) {
+        return;
+    }
+    // the descendants are released iteratively since the tree can be as deep as the number of samples
+    std::vector<NodePtr> nodes_to_release;
+    nodes_to_release.emplace_back(std::move(left_));
+    nodes_to_release.emplace_back(std::move(right_));
+
+    while (!nodes_to_release.empty()) {
+        const auto node = std::move(nodes_to_release.back());
+        nodes_to_release.pop_back();
+
+        if (node.use_count() == 1 && !node->is_leaf()) {
+            nodes_to_release.emplace_back(std::move(node->left_));
+            nodes_to_release.emplace_back(std::move(node->right_));
+        }
+    }
+}
+
 template <typename IndexType, typename ValueType>
 bool CondensedClusterNode<IndexType, ValueType>::is_leaf() const {
     return left_ == nullptr && right_ == nullptr;
-- 
2.43.0


From a7f843f647adc334034c6c10356439faf980e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:05 +0000
Subject: [PATCH 47/51] fix: the centre of an integer segment near the ends of
 its type does not overflow

---
 include/ffcl/common/Utils.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/ffcl/common/Utils.hpp b/include/ffcl/common/Utils.hpp
index 0ba692d..ca63c6b 100644
--- a/include/ffcl/common/Utils.hpp
+++ b/include/ffcl/common/Utils.hpp
@@ -444,14 +444,15 @@ constexpr auto compute_center_with_left_rounding(const T& lower, const U& upper)
     static_assert(std::is_trivial_v<T>, "T must be trivial.");
     static_assert(std::is_trivial_v<U>, "U must be trivial.");
 
-    const auto lower_plus_upper = lower + upper;
-
     if constexpr (std::is_integral_v<std::common_type_t<T, U>>) {
-        return lower_plus_upper < 0 && lower_plus_upper % 2 != 0 ? lower_plus_upper / 2 - 1 : lower_plus_upper / 2;
+        const std::common_type_t<T, U> common_lower = lower;
+        const std::common_type_t<T, U> common_upper = upper;
+        // floor of the half sum, without computing the sum, that might not be representable
+        return (common_lower & common_upper) + ((common_lower ^ common_upper) >> 1);
 
     } else {
         // For floating point, regular calculation suffices
-        return lower_plus_upper / 2;
+        return (lower + upper) / 2;
     }
 }
 
@@ -463,7 +464,7 @@ constexpr auto compute_size_from_center_with_left_rounding(const T& lower, const
     // Adjust size for integer ranges
     if constexpr (std::is_integral_v<std::common_type_t<T, U>>) {
         const auto middle = compute_center_with_left_rounding(lower, upper);
-        return 1 + upper - middle;
+        return upper - middle + 1;
 
     } else {
         // For floating point, regular calculation suffices
-- 
2.43.0


From 5abe3e5a7109e21263b0fb15b0a5176cd540f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:33 +0000
Subject: [PATCH 48/51] fix: the mean of narrow integers does not divide by a
 truncated number of samples

---
 .../common/math/statistics/Statistics.hpp     | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/ffcl/common/math/statistics/Statistics.hpp b/include/ffcl/common/math/statistics/Statistics.hpp
index f743e55..a34dcbe 100644
--- a/include/ffcl/common/math/statistics/Statistics.hpp
+++ b/include/ffcl/common/math/statistics/Statistics.hpp
@@ -4,7 +4,9 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstdint>
 #include <numeric>
+#include <type_traits>
 #include <vector>
 
 namespace ffcl::common::math::statistics {
@@ -131,6 +133,18 @@ auto find_nth_smallest_index_and_element(const Iterator& first, const Iterator&
     return {index, nth_smallest};
 }
 
+template <typename DataType>
+DataType divide_by_count(const DataType& value, std::size_t count) {
+    if constexpr (std::is_integral_v<DataType>) {
+        // the count might not be representable with a narrow data type
+        using CountType = std::conditional_t<std::is_signed_v<DataType>, std::int64_t, std::uint64_t>;
+        return static_cast<DataType>(value / static_cast<CountType>(count));
+
+    } else {
+        return value / static_cast<DataType>(count);
+    }
+}
+
 template <typename SamplesIterator>
 auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
                               const SamplesIterator& samples_range_last,
@@ -152,7 +166,7 @@ auto compute_mean_per_feature(const SamplesIterator& samples_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
+                   [n_samples](const auto& feature) { return divide_by_count(feature, n_samples); });
     return mean_per_feature;
 }
 
@@ -178,7 +192,7 @@ auto compute_mean_per_feature(const IndicesIterator& indices_range_first,
     std::transform(/**/ mean_per_feature.begin(),
                    /**/ mean_per_feature.end(),
                    /**/ mean_per_feature.begin(),
-                   [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
+                   [n_samples](const auto& feature) { return divide_by_count(feature, n_samples); });
     return mean_per_feature;
 }
 
@@ -207,7 +221,7 @@ auto compute_mean_per_feature(const IndicesIterator&          indices_range_firs
         /**/ mean_per_feature.begin(),
         /**/ mean_per_feature.end(),
         /**/ mean_per_feature.begin(),
-        [n_samples](const auto& feature) { return feature / static_cast<DataType>(n_samples); });
+        [n_samples](const auto& feature) { return divide_by_count(feature, n_samples); });
     return mean_per_feature;
 }
 
-- 
2.43.0


From f15a7711a76c995780085c84d6ce8e24736b37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:09 +0000
Subject: [PATCH 49/51] fix: drawing by weight never draws an element of no
 weight among many

The normalised weights were summed and paired in the precision of the weights. With tens of thousands of floats the
rounding error of the sum exceeds one element, and elements of no weight were left over with a probability of one.
---
 .../ffcl/common/math/random/VosesAliasMethod.hpp    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/ffcl/common/math/random/VosesAliasMethod.hpp b/include/ffcl/common/math/random/VosesAliasMethod.hpp
index 6f9b931..d351780 100644
--- a/include/ffcl/common/math/random/VosesAliasMethod.hpp
+++ b/include/ffcl/common/math/random/VosesAliasMethod.hpp
@@ -55,7 +55,8 @@ VosesAliasMethod<Weight>::VosesAliasMethod(const std::vector<Weight>& weights)
 template <typename Weight>
 void VosesAliasMethod<Weight>::init(const std::vector<Weight>& weights) {
     // normalized probabilities that do not sum to one
-    auto fake_probabilities = std::make_unique<FloatType[]>(n_weights_);
+    // (in double precision: the error of a sum of many floats would leave elements of no weight without an alias)
+    auto fake_probabilities = std::make_unique<double[]>(n_weights_);
     auto large              = std::make_unique<std::size_t[]>(n_weights_);
     auto small              = std::make_unique<std::size_t[]>(n_weights_);
 
@@ -63,16 +64,16 @@ void VosesAliasMethod<Weight>::init(const std::vector<Weight>& weights) {
     std::size_t n_large = 0;
 
     // normalization factor: n_weights / sum(weights)
-    const FloatType norm_fact = n_weights_ / std::accumulate(weights.begin(), weights.end(), static_cast<FloatType>(0));
+    const double norm_fact = n_weights_ / std::accumulate(weights.begin(), weights.end(), static_cast<double>(0));
     // renormalization of the weights (sum(fake_probabilities) != 1, it's normal)
     std::transform(weights.begin(),
                    weights.end(),
                    fake_probabilities.get(),
-                   std::bind(std::multiplies<FloatType>(), std::placeholders::_1, norm_fact));
+                   std::bind(std::multiplies<double>(), std::placeholders::_1, norm_fact));
 
     // Use k as a size then shift by one in the loop body to get the index so that an unsighed type can be used.
     for (std::size_t weight_index = n_weights_; weight_index > 0; --weight_index) {
-        if (fake_probabilities[weight_index - 1] < static_cast<FloatType>(1)) {
+        if (fake_probabilities[weight_index - 1] < 1) {
             small[n_small++] = weight_index - 1;
 
         } else {
@@ -83,11 +84,11 @@ void VosesAliasMethod<Weight>::init(const std::vector<Weight>& weights) {
         const std::size_t small_index = small[--n_small];
         const std::size_t large_index = large[--n_large];
 
-        probabilities_[small_index] = fake_probabilities[small_index];
+        probabilities_[small_index] = static_cast<FloatType>(fake_probabilities[small_index]);
         alias_[small_index]         = large_index;
         fake_probabilities[large_index] += fake_probabilities[small_index] - 1;
 
-        if (fake_probabilities[large_index] < static_cast<FloatType>(1)) {
+        if (fake_probabilities[large_index] < 1) {
             small[n_small++] = large_index;
 
         } else {
-- 
2.43.0


From 857acb563aecbd32a194398bf7bedb716e9190da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:26 +0000
Subject: [PATCH 50/51] fix: releasing a cluster tree allocates no memory,
 which could end the process when there is none left

---
 .../CondensedClusterNode.hpp                  | 32 +++++++++----------
 .../SingleLinkageClusterNode.hpp              | 32 +++++++++----------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
index 45feb0d..3b06149 100644
--- a/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/condensed_cluster_tree/CondensedClusterNode.hpp
@@ -72,23 +72,23 @@ CondensedClusterNode<IndexType, ValueType>::CondensedClusterNode(
 
 template <typename IndexType, typename ValueType>
 CondensedClusterNode<IndexType, ValueType>::~CondensedClusterNode() {
-    if (is_leaf()) {
-        return;
-    }
-    // the descendants are released iteratively since the tree can be as deep as the number of samples
-    std::vector<NodePtr> nodes_to_release;
-    nodes_to_release.emplace_back(std::move(left_));
-    nodes_to_release.emplace_back(std::move(right_));
-
-    while (!nodes_to_release.empty()) {
-        const auto node = std::move(nodes_to_release.back());
-        nodes_to_release.pop_back();
-
-        if (node.use_count() == 1 && !node->is_leaf()) {
-            nodes_to_release.emplace_back(std::move(node->left_));
-            nodes_to_release.emplace_back(std::move(node->right_));
+    // the descendants are released iteratively since the tree can be as deep as the number of samples. The left branches
+    // are rotated to the right one, which is released node by node, so that no memory has to be allocated for it
+    auto release = [](NodePtr node) {
+        while (node.use_count() == 1) {
+            if (auto left_node = std::move(node->left_)) {
+                if (left_node.use_count() == 1) {
+                    node->left_       = std::move(left_node->right_);
+                    left_node->right_ = std::move(node);
+                    node              = std::move(left_node);
+                }
+            } else {
+                node = std::move(node->right_);
+            }
         }
-    }
+    };
+    release(std::move(left_));
+    release(std::move(right_));
 }
 
 template <typename IndexType, typename ValueType>
diff --git a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
index d48b4d3..29baf0a 100644
--- a/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
+++ b/include/ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterNode.hpp
@@ -56,23 +56,23 @@ SingleLinkageClusterNode<IndexType, ValueType>::SingleLinkageClusterNode(const I
 
 template <typename IndexType, typename ValueType>
 SingleLinkageClusterNode<IndexType, ValueType>::~SingleLinkageClusterNode() {
-    if (is_leaf()) {
-        return;
-    }
-    // the descendants are released iteratively since the tree can be as deep as the number of samples
-    std::vector<NodePtr> nodes_to_release;
-    nodes_to_release.emplace_back(std::move(left_));
-    nodes_to_release.emplace_back(std::move(right_));
-
-    while (!nodes_to_release.empty()) {
-        const auto node = std::move(nodes_to_release.back());
-        nodes_to_release.pop_back();
-
-        if (node.use_count() == 1 && !node->is_leaf()) {
-            nodes_to_release.emplace_back(std::move(node->left_));
-            nodes_to_release.emplace_back(std::move(node->right_));
+    // the descendants are released iteratively since the tree can be as deep as the number of samples. The left branches
+    // are rotated to the right one, which is released node by node, so that no memory has to be allocated for it
+    auto release = [](NodePtr node) {
+        while (node.use_count() == 1) {
+            if (auto left_node = std::move(node->left_)) {
+                if (left_node.use_count() == 1) {
+                    node->left_       = std::move(left_node->right_);
+                    left_node->right_ = std::move(node);
+                    node              = std::move(left_node);
+                }
+            } else {
+                node = std::move(node->right_);
+            }
         }
-    }
+    };
+    release(std::move(left_));
+    release(std::move(right_));
 }
 
 template <typename IndexType, typename ValueType>
-- 
2.43.0


From c0d469c31c16455231e8d7ec163470687af08e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:04 +0000
Subject: [PATCH 51/51] fix: running out of memory for core distances is
 reported instead of ending the process

---
 include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
index 5a48c84..80041be 100644
--- a/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
+++ b/include/ffcl/datastruct/graph/spanning_tree/CoreDistances.hpp
@@ -10,7 +10,7 @@ namespace ffcl::datastruct::mst {
 template <typename Value>
 class CoreDistancesArray {
   public:
-    CoreDistancesArray(std::size_t size) noexcept;
+    CoreDistancesArray(std::size_t size);
 
     Value& operator[](std::size_t index);
 
@@ -22,7 +22,7 @@ class CoreDistancesArray {
 };
 
 template <typename Value>
-CoreDistancesArray<Value>::CoreDistancesArray(std::size_t size) noexcept
+CoreDistancesArray<Value>::CoreDistancesArray(std::size_t size)
   : data_{std::make_unique<Value[]>(size)}
   , size_{size} {}
 
-- 
2.43.0

