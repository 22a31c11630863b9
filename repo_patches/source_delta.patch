From bd6b2fd660198489887b96f3b1b4d5107191210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 01/21] fix: dynamic async parallel-for ignored the start of
 the range

---
 include/common_robotics_utilities/parallelism.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index 1b3b4ed..d8e02bc 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -398,7 +398,7 @@ void DynamicParallelForRangeLoop(
               functor(work_range);
               return thread_number;
             },
-            workers_dispatched,
+            range_start + workers_dispatched,
             thread_number_keeper.CheckoutThreadNumber()));
         workers_dispatched++;
       }
-- 
2.43.0


From 530ab705f507bf71b45e9d5aca45af20305ca2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 02/21] fix: signed overflow when one thread is given a range
 of maximal length

---
 include/common_robotics_utilities/parallelism.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index d8e02bc..b594e07 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -81,13 +81,12 @@ inline std::pair<int64_t, int64_t> CalcStaticThreadRangeStartAndEnd(
   const int64_t remainder = range_size % num_threads;
 
   const int64_t nominal_range = quotient;
-  const int64_t remainder_range = nominal_range + 1;
 
   if (thread_num < remainder)
   {
-    const int64_t thread_range = remainder_range;
+    const int64_t thread_range = nominal_range + 1;
     const int64_t thread_range_start =
-        range_start + (thread_num * remainder_range);
+        range_start + (thread_num * thread_range);
     const int64_t thread_range_end = thread_range_start + thread_range;
     return std::make_pair(thread_range_start, thread_range_end);
   }
@@ -95,8 +94,7 @@ inline std::pair<int64_t, int64_t> CalcStaticThreadRangeStartAndEnd(
   {
     const int64_t thread_range = nominal_range;
     const int64_t thread_range_start =
-        range_start + (remainder * remainder_range) +
-            ((thread_num - remainder) * nominal_range);
+        range_start + (thread_num * nominal_range) + remainder;
     const int64_t thread_range_end = thread_range_start + thread_range;
     return std::make_pair(thread_range_start, thread_range_end);
   }
-- 
2.43.0


From f3ee9f9eb7219450516a52d882e0b264ea8015fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 03/21] fix: mutable access check was given the y index in
 place of the z index

---
 include/common_robotics_utilities/voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 2606ac1..7752a26 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -661,7 +661,7 @@ private:
 
   bool OnMutableAccess(const GridIndex& index)
   {
-    return OnMutableAccess(index.X(), index.Y(), index.Y());
+    return OnMutableAccess(index.X(), index.Y(), index.Z());
   }
 
 protected:
-- 
2.43.0


From b49d9291b1549ee25f255c0e216838ba4a6ea82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 04/21] fix: grid sizes whose cell counts cannot be represented
 were accepted

---
 .../common_robotics_utilities/voxel_grid.hpp  | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 7752a26..b49b0f5 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <stdexcept>
@@ -84,6 +85,25 @@ private:
     return (param > 0);
   }
 
+  // Checks that a number of cells computed from sizes is positive and can be
+  // represented.
+  static bool CheckNumCellsValid(const double num_cells)
+  {
+    // 2^63 is the smallest double that int64_t cannot represent.
+    return (num_cells >= 1.0 && num_cells < 9223372036854775808.0);
+  }
+
+  // Checks that the total number of cells can be represented. Requires positive
+  // numbers of cells.
+  static bool CheckTotalCellsValid(const int64_t num_x_cells,
+                                   const int64_t num_y_cells,
+                                   const int64_t num_z_cells)
+  {
+    const int64_t max_cells = std::numeric_limits<int64_t>::max();
+    return (num_y_cells <= (max_cells / num_z_cells) &&
+            num_x_cells <= (max_cells / (num_y_cells * num_z_cells)));
+  }
+
   bool Initialize(
       const double cell_x_size,
       const double cell_y_size,
@@ -97,6 +117,20 @@ private:
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(x_size) &&
         CheckPositiveValid(y_size) && CheckPositiveValid(z_size))
     {
+      const double num_x_cells = std::ceil(x_size / cell_x_size);
+      const double num_y_cells = std::ceil(y_size / cell_y_size);
+      const double num_z_cells = std::ceil(z_size / cell_z_size);
+
+      if (!CheckNumCellsValid(num_x_cells) ||
+          !CheckNumCellsValid(num_y_cells) ||
+          !CheckNumCellsValid(num_z_cells) ||
+          !CheckTotalCellsValid(static_cast<int64_t>(num_x_cells),
+                                static_cast<int64_t>(num_y_cells),
+                                static_cast<int64_t>(num_z_cells)))
+      {
+        return false;
+      }
+
       // Set
       cell_x_size_ = cell_x_size;
       cell_y_size_ = cell_y_size;
@@ -136,7 +170,8 @@ private:
     // Safety check
     if (CheckPositiveValid(cell_x_size) && CheckPositiveValid(cell_y_size) &&
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(num_x_cells) &&
-        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells))
+        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells) &&
+        CheckTotalCellsValid(num_x_cells, num_y_cells, num_z_cells))
     {
       // Set
       cell_x_size_ = cell_x_size;
-- 
2.43.0


From b0577f0d3c8872d79de01e5be50d607a7461c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 05/21] fix: reject malformed length headers when deserializing
 vectors and matrices

The byte length of a malformed size header could overflow, pass the check
against the buffer size and lead to reads outside of the buffer.
---
 .../serialization.hpp                         | 11 ++++++--
 .../serialization.cpp                         | 26 ++++++++++++++++---
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index ffc28b6..1cf6a33 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -473,11 +473,13 @@ DeserializeMemcpyableVectorLike(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(T) * size;
-  if ((current_position + serialized_length) > buffer.size())
+  // Compare against the number of items that fit in the rest of the buffer, as
+  // the length in bytes of a malformed size header may overflow.
+  if (size > ((buffer.size() - current_position) / sizeof(T)))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(T) * size;
   VectorLike deserialized(size);
   // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
   // nullptr dst/src (encountered if a vector is empty) is undefined behavior.
@@ -1004,6 +1006,11 @@ DeserializeNetworkMemcpyableVectorLike(const std::vector<uint8_t>& buffer,
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  // Check before allocating, as a malformed size header may be any value.
+  if (size > ((buffer.size() - current_position) / sizeof(T)))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
   VectorLike deserialized(size);
   for (size_t idx = 0; idx < deserialized.size(); idx++)
   {
diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 9153c73..d7670b3 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -1,6 +1,7 @@
 #include <common_robotics_utilities/serialization.hpp>
 
 #include <cstdint>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -50,7 +51,12 @@ uint64_t SerializeMatrixXd(
   const size_t previous_buffer_size = buffer.size();
   buffer.resize(previous_buffer_size + serialized_length, 0x00);
   // Serialize the contained items
-  memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied, since there may
+  // be no element to take the address of if the matrix is empty.
+  if (serialized_length > 0)
+  {
+    memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  }
   // Figure out how many bytes were written
   const uint64_t end_buffer_size = buffer.size();
   const uint64_t bytes_written = end_buffer_size - start_buffer_size;
@@ -136,14 +142,26 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   const uint64_t cols = deserialized_cols.Value();
   current_position += deserialized_cols.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(double) * rows * cols;
-  if ((current_position + serialized_length) > buffer.size())
+  // Compare against the number of items that fit in the rest of the buffer, as
+  // the length in bytes of malformed rows and cols headers may overflow.
+  const uint64_t max_items =
+      (buffer.size() - current_position) / sizeof(double);
+  const uint64_t max_dimension =
+      static_cast<uint64_t>(std::numeric_limits<ssize_t>::max());
+  if (rows > max_dimension || cols > max_dimension ||
+      (cols > 0 && rows > (max_items / cols)))
   {
     throw std::invalid_argument("Not enough room in the provided buffer");
   }
+  const size_t serialized_length = sizeof(double) * rows * cols;
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
-  memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied, since there may
+  // be no element to take the address of if the matrix is empty.
+  if (serialized_length > 0)
+  {
+    memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  }
   current_position += serialized_length;
   // Figure out how many bytes were read
   const uint64_t bytes_read = current_position - starting_offset;
-- 
2.43.0


From b997104a3a960847087a896b043716be54eef7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 06/21] fix: in-place serialization with a position near the
 end of the range

The sum of buffer position and item size could overflow and pass the check.
---
 include/common_robotics_utilities/serialization.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index 1cf6a33..0f6d1cd 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -749,7 +749,8 @@ inline uint64_t SerializeNetworkMemcpyableInPlace(
     memcpy(&temp_buffer[0], &swapped, 8);
   }
   // Move to buffer
-  if ((buffer_position + sizeof(item_to_serialize)) <= buffer.size())
+  if (buffer.size() >= sizeof(item_to_serialize) &&
+      buffer_position <= (buffer.size() - sizeof(item_to_serialize)))
   {
     memcpy(&buffer[buffer_position],
            temp_buffer.data(),
-- 
2.43.0


From abfc6592581d66fb766e59b57f1ed1843f65fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 07/21] fix: index the base64 decoding table with unsigned
 characters

---
 src/common_robotics_utilities/base64_helpers.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common_robotics_utilities/base64_helpers.cpp b/src/common_robotics_utilities/base64_helpers.cpp
index 9fe6585..aa3d3e6 100644
--- a/src/common_robotics_utilities/base64_helpers.cpp
+++ b/src/common_robotics_utilities/base64_helpers.cpp
@@ -36,10 +36,10 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   for (size_t i = 0, j = 0; i < L; i += 4)
   {
     const int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[i])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[i + 1])] << 12
-        | B64IndexTable[static_cast<size_t>(encoded[i + 2])] << 6
-        | B64IndexTable[static_cast<size_t>(encoded[i + 3])];
+        B64IndexTable[static_cast<uint8_t>(encoded[i])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 1])] << 12
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 2])] << 6
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 3])];
     buffer[j++] = static_cast<uint8_t>(n >> 16);
     buffer[j++] = static_cast<uint8_t>(n >> 8 & 0xFF);
     buffer[j++] = static_cast<uint8_t>(n & 0xFF);
@@ -47,12 +47,12 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   if (pad > 0)
   {
     int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[L])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[L + 1])] << 12;
+        B64IndexTable[static_cast<uint8_t>(encoded[L])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[L + 1])] << 12;
     buffer[buffer.size() - 1] = static_cast<uint8_t>(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=')
     {
-      n |= B64IndexTable[static_cast<size_t>(encoded[L + 2])] << 6;
+      n |= B64IndexTable[static_cast<uint8_t>(encoded[L + 2])] << 6;
       buffer.push_back(static_cast<uint8_t>(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From a4d5a96cd4af04c267df7a0eefdbeb7fb474190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 08/21] fix: make OwningGraphOverlay inherit
 NonOwningGraphOverlay publicly

The class key default made the inheritance private, so none of the graph
operations could be used through an owning overlay.
---
 include/common_robotics_utilities/simple_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index 11a8c9d..8cc47c5 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -946,7 +946,8 @@ public:
 };
 
 template<typename NodeValueType, typename GraphType>
-class OwningGraphOverlay : NonOwningGraphOverlay<NodeValueType, GraphType>
+class OwningGraphOverlay
+    : public NonOwningGraphOverlay<NodeValueType, GraphType>
 {
 private:
   std::shared_ptr<const GraphType> owned_base_graph_;
-- 
2.43.0


From bccc88bc63a58721811f27f54de327b7d2f640b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 09/21] fix: A* with several starts returns the least-cost path

The search returned as soon as a start met the goal, even if a path from a
cheaper start cost less, and start states entered the queue without their
start cost.
---
 .../simple_astar_search.hpp                          | 11 ++++++++---
 .../simple_graph_search.hpp                          | 12 +++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/simple_astar_search.hpp b/include/common_robotics_utilities/simple_astar_search.hpp
index 644c608..54198c0 100644
--- a/include/common_robotics_utilities/simple_astar_search.hpp
+++ b/include/common_robotics_utilities/simple_astar_search.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -243,11 +244,13 @@ inline AstarResult<T, Container> PerformAstarSearch(
   // Check if a provided start state meets goal conditions
   int64_t best_start_meeting_goal_index = -1;
   double best_start_meeting_goal_cost = std::numeric_limits<double>::infinity();
+  double lowest_start_cost = std::numeric_limits<double>::infinity();
 
   for (size_t idx = 0; idx < start_states.size(); idx++)
   {
     const T& start_state = start_states.at(idx).State();
     const double start_cost = start_states.at(idx).Cost();
+    lowest_start_cost = std::min(lowest_start_cost, start_cost);
     if (goal_check_fn(start_state))
     {
       if (start_cost < best_start_meeting_goal_cost)
@@ -258,8 +261,10 @@ inline AstarResult<T, Container> PerformAstarSearch(
     }
   }
 
-  // Return early if we already have a solution
-  if (best_start_meeting_goal_index >= 0)
+  // Return early if we already have a solution, and no path from another start
+  // could possibly be cheaper
+  if (best_start_meeting_goal_index >= 0 &&
+      best_start_meeting_goal_cost <= lowest_start_cost)
   {
     const auto& best_start_meeting_goal =
         start_states.at(static_cast<size_t>(best_start_meeting_goal_index));
@@ -338,7 +343,7 @@ inline AstarResult<T, Container> PerformAstarSearch(
     if (!is_queue_better(start_state, start_cost))
     {
       queue.push(AstarPQueueElement<T>(
-          start_state, start_cost, heuristic_fn(start_state)));
+          start_state, start_cost, start_cost + heuristic_fn(start_state)));
 
       if (limit_pqueue_duplicates)
       {
diff --git a/include/common_robotics_utilities/simple_graph_search.hpp b/include/common_robotics_utilities/simple_graph_search.hpp
index 8b57e50..3380ec9 100644
--- a/include/common_robotics_utilities/simple_graph_search.hpp
+++ b/include/common_robotics_utilities/simple_graph_search.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -252,11 +253,13 @@ inline AstarIndexResult PerformLazyAstarSearch(
   // Check if a provided start state meets goal conditions
   int64_t best_start_index_meeting_goal = -1;
   double best_start_meeting_goal_cost = std::numeric_limits<double>::infinity();
+  double lowest_start_cost = std::numeric_limits<double>::infinity();
 
   for (const auto& start_index_and_cost : start_indices)
   {
     const int64_t start_index = start_index_and_cost.State();
     const double start_cost = start_index_and_cost.Cost();
+    lowest_start_cost = std::min(lowest_start_cost, start_cost);
 
     if (goal_check_fn(graph, start_index))
     {
@@ -268,8 +271,10 @@ inline AstarIndexResult PerformLazyAstarSearch(
     }
   }
 
-  // Return early if we already have a solution
-  if (best_start_index_meeting_goal >= 0)
+  // Return early if we already have a solution, and no path from another start
+  // could possibly be cheaper
+  if (best_start_index_meeting_goal >= 0 &&
+      best_start_meeting_goal_cost <= lowest_start_cost)
   {
     return AstarIndexResult(
         {best_start_index_meeting_goal}, best_start_meeting_goal_cost);
@@ -338,7 +343,8 @@ inline AstarIndexResult PerformLazyAstarSearch(
     if (!is_queue_better(start_index, start_cost))
     {
       queue.push(AstarIndexPQueueElement(
-          start_index, start_cost, heuristic_fn(graph, start_index)));
+          start_index, start_cost,
+          start_cost + heuristic_fn(graph, start_index)));
 
       if (limit_pqueue_duplicates)
       {
-- 
2.43.0


From 6c6f9495141cf99bb7c255172e04f5c48b6979b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 10/21] fix: K-nearest-neighbour search keeps the results of
 every range given to a thread

---
 .../simple_knearest_neighbors.hpp                        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_knearest_neighbors.hpp b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
index 3e2cec3..af5ee84 100644
--- a/include/common_robotics_utilities/simple_knearest_neighbors.hpp
+++ b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
@@ -196,11 +196,18 @@ inline std::vector<IndexAndDistance> GetKNearestNeighborsInRangeParallel(
       const auto per_range_work = [&](
           const parallelism::ThreadWorkRange& work_range)
       {
-        per_thread_nearests[work_range.GetThreadNum()] =
+        const std::vector<IndexAndDistance> range_nearests =
             GetKNearestNeighborsInRangeSerial<Item, Value, Container>(
                 items, static_cast<size_t>(work_range.GetRangeStart()),
                 static_cast<size_t>(work_range.GetRangeEnd()), current,
                 distance_fn, K);
+        // A thread may be given more than one range, if fewer threads than
+        // requested are available.
+        auto& thread_nearests =
+            per_thread_nearests[work_range.GetThreadNum()];
+        thread_nearests.insert(
+            thread_nearests.end(), range_nearests.begin(),
+            range_nearests.end());
       };
 
       // Dispatch, preferably using OpenMP if available, std::async otherwise.
-- 
2.43.0


From 50e629f71dfa0cd34dd4c6a6a4c3152ab9f62a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:18 +0000
Subject: [PATCH 11/21] fix: dynamic time warping extends the least-cost
 neighbor when the other two tie

---
 .../common_robotics_utilities/simple_dtw.hpp    | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/common_robotics_utilities/simple_dtw.hpp b/include/common_robotics_utilities/simple_dtw.hpp
index b8d3be8..19ba713 100644
--- a/include/common_robotics_utilities/simple_dtw.hpp
+++ b/include/common_robotics_utilities/simple_dtw.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -85,24 +86,12 @@ public:
         const SecondDatatype& second_item
             = second_sequence[static_cast<size_t>(j - 1)];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
         // Get the next neighboring values from the matrix to use for the update
         const double im1j = dtw_matrix_(i - 1, j);
         const double im1jm1 = dtw_matrix_(i - 1, j - 1);
         const double ijm1 = dtw_matrix_(i, j - 1);
-        // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1)
-        {
-          prev_cost = im1j;
-        }
-        else if (ijm1 < im1j && ijm1 < im1jm1)
-        {
-          prev_cost = ijm1;
-        }
-        else
-        {
-          prev_cost = im1jm1;
-        }
+        // The update step extends the least-cost neighbor
+        const double prev_cost = std::min(im1jm1, std::min(im1j, ijm1));
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From 81da60152d7cd23384f51a2eebd17648633ec462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:18 +0000
Subject: [PATCH 12/21] fix: K-means rejects more clusters than items instead
 of drawing initial centers forever

---
 .../common_robotics_utilities/simple_kmeans_clustering.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index eb05d11..05ceecc 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -169,6 +169,11 @@ std::vector<int32_t> ClusterWeighted(
   {
     throw std::invalid_argument("num_clusters == 0");
   }
+  // Initial cluster centers are distinct elements of data
+  else if (num_clusters > static_cast<int64_t>(data.size()))
+  {
+    throw std::invalid_argument("num_clusters > data.size()");
+  }
   // Make sure we have enough datapoints to do meaningful preliminary clustering
   bool enable_preliminary_clustering = do_preliminary_clustering;
   if (enable_preliminary_clustering)
-- 
2.43.0


From 0eba3783572348ee6fe5872ab4c702d299145478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 13/21] fix: re-seeding the XOR-Shift-1024-Star generator also
 resets its position

---
 include/common_robotics_utilities/simple_prngs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common_robotics_utilities/simple_prngs.hpp b/include/common_robotics_utilities/simple_prngs.hpp
index 6928675..9ce8cf3 100644
--- a/include/common_robotics_utilities/simple_prngs.hpp
+++ b/include/common_robotics_utilities/simple_prngs.hpp
@@ -173,6 +173,7 @@ public:
     {
       state_[idx] = temp_seed_gen();
     }
+    p_ = 0u;
   }
 
   void discard(const uint64_t z)
-- 
2.43.0


From 4826f4ce14127479ac957a91fb3e59fb2ecf8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 14/21] fix: AverageEigenQuaterniond rejects weights that are
 all zero

---
 src/common_robotics_utilities/math.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common_robotics_utilities/math.cpp b/src/common_robotics_utilities/math.cpp
index 108a219..f67f2fe 100644
--- a/src/common_robotics_utilities/math.cpp
+++ b/src/common_robotics_utilities/math.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include <Eigen/Eigenvalues>
 #include <unsupported/Eigen/MatrixFunctions>
 #include <common_robotics_utilities/math.hpp>
@@ -799,6 +801,13 @@ Eigen::Quaterniond AverageEigenQuaterniond(const VectorQuaterniond& quaternions,
     }
     return quaternions[0];
   }
+  // If all weights are zero, result is undefined
+  if (use_weights && std::all_of(
+          weights.begin(), weights.end(),
+          [](const double weight) { return std::abs(weight) == 0.0; }))
+  {
+    throw std::invalid_argument("Provided weights are all zero");
+  }
   // Build the averaging matrix
   Eigen::MatrixXd q_matrix(4, quaternions.size());
   for (size_t idx = 0; idx < quaternions.size(); idx++)
-- 
2.43.0


From 0d937a2d41069fe7455feac9de2ae437f8c8f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 15/21] fix: gaussian_distributions.hpp compiles (scoped
 enumerator, missing includes)

---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index b7c0aa2..92ab954 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -2,8 +2,12 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <random>
+#include <stdexcept>
 
+#include <Eigen/Cholesky>
+#include <Eigen/Eigenvalues>
 #include <Eigen/Geometry>
 #include <common_robotics_utilities/cru_namespace.hpp>
 
@@ -152,7 +156,7 @@ private:
   double std_upper_bound_ = 0.0;
 
   enum class DrawCases {TYPE_1, TYPE_2, TYPE_3, TYPE_4, NONE};
-  DrawCases case_ = NONE;
+  DrawCases case_ = DrawCases::NONE;
   std::uniform_real_distribution<double> uniform_unit_dist_;
   std::uniform_real_distribution<double> uniform_range_dist_;
   std::exponential_distribution<double> exponential_dist_;
-- 
2.43.0


From 4e43722ab599498fe07db17fe357ba2058babe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 16/21] fix: TruncatedGaussianDistribution draws uniform
 candidates between the standardized bounds

---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 92ab954..c81a082 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -305,8 +305,7 @@ public:
   TruncatedGaussianDistribution(
       const double mean, const double stddev, const double lower_bound,
       const double upper_bound)
-    : uniform_unit_dist_(0.0, 1.0),
-      uniform_range_dist_(lower_bound, upper_bound),
+    : uniform_unit_dist_(0.0, 1.0), uniform_range_dist_(0.0, 1.0),
       exponential_dist_(1.0), normal_dist_(0.0, 1.0)
   {
     // Set operating parameters
@@ -351,6 +350,9 @@ public:
         else
         {
           case_ = DrawCases::TYPE_4;
+          // Samples are drawn between the standardized bounds
+          uniform_range_dist_ = std::uniform_real_distribution<double>(
+              std_lower_bound_, std_upper_bound_);
         }
       }
       if ((case_ != DrawCases::TYPE_1) && (case_ != DrawCases::TYPE_2)
-- 
2.43.0


From 7a5efbec157ddcc7719abe5e153b431c97e2ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:11 +0000
Subject: [PATCH 17/21] fix: RRT and BiRRT planners accept absent callbacks
 when a starting node already solves the problem

---
 .../simple_rrt_planner.hpp                       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 979e893..235d3d4 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -705,7 +705,10 @@ MultipleSolutionPlanningResults<StateType, Container> RRTPlanMultiPath(
     if (check_goal_reached_fn(tree.GetNodeImmutable(idx).GetValueImmutable()))
     {
       goal_state_indices.push_back(idx);
-      goal_reached_callback_fn(tree, idx);
+      if (goal_reached_callback_fn)
+      {
+        goal_reached_callback_fn(tree, idx);
+      }
     }
   }
 
@@ -958,10 +961,13 @@ MultipleSolutionPlanningResults<StateType, Container> BiRRTPlanMultiPath(
               active_tree_type))
       {
         goal_bridges.emplace_back(start_tree_idx, goal_tree_idx);
-        goal_bridge_callback_fn(
-            start_tree, start_tree_idx,
-            goal_tree, goal_tree_idx,
-            active_tree_type);
+        if (goal_bridge_callback_fn)
+        {
+          goal_bridge_callback_fn(
+              start_tree, start_tree_idx,
+              goal_tree, goal_tree_idx,
+              active_tree_type);
+        }
       }
     }
   }
-- 
2.43.0


From d8c2acda2a70a7d9e65ac20394e1086416f11b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:11 +0000
Subject: [PATCH 18/21] fix: SimpleRRTPlannerTree::AddNodeAndConnect rejects
 parents that are not in the tree before adding a node

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 235d3d4..35f66a4 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -246,6 +246,11 @@ public:
 
   int64_t AddNodeAndConnect(const StateType& value, const int64_t parent_index)
   {
+    // Make sure the parent exists before adding the new node
+    if (parent_index < 0 || parent_index >= Size())
+    {
+      throw std::out_of_range("parent_index is not a node in the tree");
+    }
     nodes_.emplace_back(value, parent_index);
     const int64_t new_node_index = static_cast<int64_t>(nodes_.size() - 1);
     GetNodeMutable(parent_index).AddChildIndex(new_node_index);
-- 
2.43.0


From 6c948ba5ecadf08e0a2e391033cec5c8fe1ba82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 19/21] fix: reject negative neighbor indices in
 GraphKNNProvider

The documented contract is that indices outside [0, min(size, max)) throw.
---
 include/common_robotics_utilities/simple_prm_planner.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 3efe403..0b19dfd 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -115,7 +115,8 @@ private:
   {
     for (const auto& neighbor : nearest_neighbors)
     {
-      if (neighbor.Index() >= roadmap_size ||
+      if (neighbor.Index() < 0 ||
+          neighbor.Index() >= roadmap_size ||
           neighbor.Index() >= max_node_index_for_knn)
       {
         throw std::runtime_error(
-- 
2.43.0


From f9cbcf865270815d5dd6c9f4621bc1d38096bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:20 +0000
Subject: [PATCH 20/21] fix: AddNodeToRoadmap edge validity and distance for
 asymmetric connection

With NEW_STATE_TO_ROADMAP and asymmetric connection, the edges to and from the
new node received each other's validity and distance, and the distance reported
by the KNN provider was attributed to the wrong direction.
---
 .../simple_prm_planner.hpp                    | 36 +++++++++----------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 0b19dfd..41af22a 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -274,7 +274,7 @@ int64_t AddNodeToRoadmap(
     const size_t idx = static_cast<size_t>(index);
     const auto& nearest_neighbor = nearest_neighbors.at(idx);
     const int64_t nearest_neighbor_index = nearest_neighbor.Index();
-    const double graph_to_node_distance = nearest_neighbor.Distance();
+    const double nearest_neighbor_distance = nearest_neighbor.Distance();
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
@@ -283,35 +283,33 @@ int64_t AddNodeToRoadmap(
     {
       // Distance is symmetric and the edge is valid
       nearest_neighbors_distances.at(idx)
-          = std::make_pair(graph_to_node_distance,
-                           graph_to_node_distance);
+          = std::make_pair(nearest_neighbor_distance,
+                           nearest_neighbor_distance);
     }
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
           edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
+      // KNN provides the distance in one direction, depending on
+      // nn_distance_direction, so we compute the distance in the other.
+      const bool nn_distance_is_graph_to_node =
+          nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE;
+      const double graph_to_node_distance
+          = (nn_distance_is_graph_to_node)
+            ? nearest_neighbor_distance
+            : distance_fn(nearest_neighbor_state, state);
       const double node_to_graph_distance
-          = distance_fn(state,
-                        roadmap.GetNodeImmutable(nearest_neighbor_index)
-                            .GetValueImmutable());
+          = (nn_distance_is_graph_to_node)
+            ? distance_fn(state, nearest_neighbor_state)
+            : nearest_neighbor_distance;
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
       const double real_node_to_graph_distance
           = (node_to_graph_edge_validity) ? node_to_graph_distance : -1.0;
-      // Set the distance values depending on direction
-      if (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_graph_to_node_distance,
-                             real_node_to_graph_distance);
-      }
-      else
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_node_to_graph_distance,
-                             real_graph_to_node_distance);
-      }
+      nearest_neighbors_distances.at(idx)
+          = std::make_pair(real_graph_to_node_distance,
+                           real_node_to_graph_distance);
     }
     else
     {
-- 
2.43.0


From 1d26ceaa83fabcb6f2427bdb115fd2c0d4bbfe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:20 +0000
Subject: [PATCH 21/21] fix: accept locations on the bounds of a spatially
 hashed chunk

Choosing the chunk that contains a location rounds, so the chunk chosen could
deny containing it: SetLocation and GetLocation threw 'location not in chunk'
for locations at or next to a chunk boundary (for example x = 29.4 in chunks of
seven 0.7 m cells). Such locations belong to the first or last cell.
---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 60 ++++++++++++-------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 72c56bb..bc7ee07 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -1,7 +1,9 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -176,37 +178,51 @@ private:
   GridSizes sizes_;
   DSHVGFillStatus fill_status_ = DSHVGFillStatus::NOT_FILLED;
 
+  /// Cell containing the provided coordinate along one axis of the chunk, or -1
+  /// if the coordinate is outside of the chunk. Choosing the chunk containing a
+  /// location rounds, so coordinates at the bounds of the chunk may be
+  /// marginally outside of it and belong to the first or last cell.
+  static int64_t GetAxisCell(
+      const double location, const double base, const double size,
+      const double cell_size, const int64_t num_cells)
+  {
+    const double offset = location - base;
+    const double tolerance = std::numeric_limits<double>::epsilon() * 4.0
+        * std::max(std::abs(location), size);
+    if (offset >= -tolerance && offset < size + tolerance)
+    {
+      const int64_t cell =
+          static_cast<int64_t>(std::floor(offset / cell_size));
+      return std::max(
+          static_cast<int64_t>(0), std::min(cell, num_cells - 1));
+    }
+    else
+    {
+      return -1;
+    }
+  }
+
   int64_t GetLocationDataIndex(const Eigen::Vector4d& location) const
   {
-    const Eigen::Vector4d location_wrt_chunk = location - region_.Base();
+    const Eigen::Vector4d& base = region_.Base();
+    const int64_t x_cell = GetAxisCell(
+        location(0), base(0), sizes_.XSize(), sizes_.CellXSize(),
+        sizes_.NumXCells());
+    const int64_t y_cell = GetAxisCell(
+        location(1), base(1), sizes_.YSize(), sizes_.CellYSize(),
+        sizes_.NumYCells());
+    const int64_t z_cell = GetAxisCell(
+        location(2), base(2), sizes_.ZSize(), sizes_.CellZSize(),
+        sizes_.NumZCells());
     // First, make sure the location is in the range this chunk covers
-    if (location_wrt_chunk(0) < 0.0
-        || location_wrt_chunk(1) < 0.0
-        || location_wrt_chunk(2) < 0.0
-        || location_wrt_chunk(0) >= sizes_.XSize()
-        || location_wrt_chunk(1) >= sizes_.YSize()
-        || location_wrt_chunk(2) >= sizes_.ZSize())
+    if (x_cell < 0 || y_cell < 0 || z_cell < 0)
     {
       return -1;
     }
     // Ok, we're inside the chunk
     else
     {
-      const int64_t x_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(0) / sizes_.CellXSize()));
-      const int64_t y_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(1) / sizes_.CellYSize()));
-      const int64_t z_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(2) / sizes_.CellZSize()));
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= sizes_.NumXCells()
-          || y_cell >= sizes_.NumYCells() || z_cell >= sizes_.NumZCells())
-      {
-        return -1;
-      }
-      else
-      {
-        return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
     }
   }
 
-- 
2.43.0

