From a842de07e3bdfb73bc7b472841382a51a35e2787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:28 +0000
Subject: [PATCH 01/30] fix: use the biorthogonal kernels for the non-periodic
 biorthogonal basis

hierarchize and dehierarchize dispatched BiorthogonalBasisFunction to the
full weighting kernels.
---
 src/hierarchization/DistributedHierarchization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchization/DistributedHierarchization.hpp b/src/hierarchization/DistributedHierarchization.hpp
index fb4f719..0234385 100644
--- a/src/hierarchization/DistributedHierarchization.hpp
+++ b/src/hierarchization/DistributedHierarchization.hpp
@@ -1165,7 +1165,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  hierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  hierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
@@ -1247,7 +1247,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  dehierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  dehierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
-- 
2.43.0


From 1c309dad871746db06b53cf9f5773bf31fd53caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:28 +0000
Subject: [PATCH 02/30] fix: convert global to local linear indices on
 distributed grids

getLocalLinearIndex(globalLinearIndex) applied the local strides to the
global axis index, which is only right on a single process.
---
 src/fullgrid/DistributedFullGrid.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index ecf061a..7a51ff4 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -812,8 +812,11 @@ IndexType DistributedFullGrid<FG_ELEMENT>::getLocalLinearIndex(IndexType globLin
   getGlobalVectorIndex(globLinIndex, globAxisIndex);
 
   if (this->isGlobalIndexHere(globAxisIndex)) {
-    // convert to local linear index
-    return getLocalLinearIndex(globAxisIndex) - this->myPartitionsFirstGlobalIndex_;
+    // convert to local vector index, then to local linear index
+    static thread_local IndexVector locAxisIndex(dim_);
+    locAxisIndex.resize(dim_);
+    getLocalVectorIndex(globAxisIndex, locAxisIndex);
+    return getLocalLinearIndex(locAxisIndex);
   } else {
     return -1;
   }
-- 
2.43.0


From 660a470549414da608578e73e4f8722fe405882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:03 +0000
Subject: [PATCH 03/30] fix: clear the Kahan buffer by its element size

createKahanBuffer cleared sizeof(pointer) bytes per element: too few for
complex elements (old terms survive) and too many for float (overflow).
---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index bbb52db..889e824 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -84,7 +84,7 @@ class DistributedSparseGridDataContainer {
     size_t numDataPoints = dsgu_.getAccumulatedDataSize(subspacesWithData_);
     kahanData_.resize(numDataPoints, 0.);
     kahanDataBegin_.resize(dsgu_.getSubspaceDataSizes().size());
-    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT*));
+    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT));
     std::memset(kahanDataBegin_.data(), 0, kahanDataBegin_.size() * sizeof(FG_ELEMENT*));
 
     // update pointers for begin of subspacen in kahan buffer
-- 
2.43.0


From fc3b4bc88cbcc43d2145111c6cfa93e5e7ae6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:03 +0000
Subject: [PATCH 04/30] fix: do not search before the first subspace

getIndexInRange is called with the last result as lower bound, which is -1
after a level that is not in the sparse grid; this read before levels_.
---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index 889e824..65795fb 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -580,7 +580,8 @@ DistributedSparseGridUniform<FG_ELEMENT>::getIndexInRange(const LevelVector& l,
   }
 #endif  // NDEBUG
   auto start = levels_.cbegin();
-  std::advance(start, lowerBound);
+  // lowerBound is -1 if the previously searched level was not found
+  std::advance(start, std::max(lowerBound, static_cast<IndexType>(0)));
   auto found = std::lower_bound(start, levels_.end(), l);
   if (found != levels_.end() && *found == l) {
     return static_cast<SubspaceIndexType>(std::distance(levels_.cbegin(), found));
-- 
2.43.0


From 24e623ca7994d8a094f0470ab0d368b7ef96d29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:19 +0000
Subject: [PATCH 05/30] fix: create adaptive schemes for different level
 differences

The set of levels was truncated relative to lmax minus the largest level
difference, which cut off levels (or all of them) whenever the differences
lmax - lmin are not the same in every dimension.
---
 src/combischeme/CombiMinMaxScheme.cpp | 6 +-----
 src/utils/LevelSetUtils.cpp           | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 35ebc4b..3e8dc68 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -79,11 +79,7 @@ void CombiMinMaxScheme::createAdaptiveCombischeme() {
   // // TODO: Why levelSum-1 ?
   // createLevelsRec(dim_, n_ - 1, dim_, l, lmax_);
   auto n = static_cast<LevelType>(n_ - combigrid::levelSum(lmin_));
-  auto rlmin = lmax_;
-  for (auto& rl: rlmin) {
-    rl = static_cast<LevelType>(rl - n);
-  }
-  combigrid::createTruncatedHierarchicalLevels(lmax_, rlmin, levels_);
+  combigrid::createTruncatedHierarchicalLevelsRec(0, n, l, lmax_, lmin_, levels_);
 
   for (auto level : levels_) {
     int l1norm = std::accumulate(level.begin(), level.end(), 0);
diff --git a/src/utils/LevelSetUtils.cpp b/src/utils/LevelSetUtils.cpp
index fcabc46..50c01f9 100644
--- a/src/utils/LevelSetUtils.cpp
+++ b/src/utils/LevelSetUtils.cpp
@@ -65,7 +65,7 @@ void createTruncatedHierarchicalLevelsRec(DimType dim, size_t n, LevelVector& l,
                                           std::vector<LevelVector>& created) {
   assert(lmax.size() == lmin.size());
   auto dimensionality = static_cast<DimType>(lmax.size());
-  assert(lmax[dim] == lmin[dim] + n);
+  assert(lmax[dim] <= lmin[dim] + static_cast<LevelType>(n));
 
   // sum leftmost entries of level vector
   LevelType lsum(0);
-- 
2.43.0


From 1cbb44d86b5a03aa96928d164c55b71dd8d3b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:19 +0000
Subject: [PATCH 06/30] fix: classical scheme with lmin == lmax contains its
 grid

The scheme had one coefficient but no grid.
---
 src/combischeme/CombiMinMaxScheme.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 3e8dc68..0528f05 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -22,8 +22,9 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   }
   if (lmintmp.empty()) {
     assert(lmin_ == lmax_);
-    levels_.push_back(lmin_);
+    combiSpaces_.push_back(lmin_);
     coefficients_.push_back(1.0);
+    createDownSet();
     return;
   }
   // compute c which fulfills lmax - c*1  >= lmin
-- 
2.43.0


From 0cf58d2041affa4563cf70cb65ca09e545ad067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:19 +0000
Subject: [PATCH 07/30] fix: re-insert dummy dimensions with their own level

The level was taken from the i-th dimension instead of the i-th dummy
dimension, and the down set contained only the topmost level there.
---
 src/combischeme/CombiMinMaxScheme.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 0528f05..383a914 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -45,9 +45,9 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   // re-insert dummy dimensions left out
   for (size_t i = 0; i < dummyDims.size(); ++i) {
     for (size_t j = 0; j < levels_.size(); ++j) {
-      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[i]);
+      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[dummyDims[i]]);
     }
-    lmin_[dummyDims[i]] = lmax_[i];
+    lmin_[dummyDims[i]] = lmax_[dummyDims[i]];
   }
   n_ = static_cast<LevelType>(combigrid::levelSum(lmin_) + c);
   // create combi spaces
@@ -58,6 +58,10 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
     }
   }
   computeCombiCoeffsClassical();
+  if (!dummyDims.empty()) {
+    // the levels below lmin in the dummy dimensions are covered, too
+    createDownSet();
+  }
 
   if (levels_.empty()) {
     throw std::runtime_error("No combination levels!");
-- 
2.43.0


From b9bc446d80affd6d9f379e2339943c3f1699329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:19 +0000
Subject: [PATCH 08/30] fix: classical schemes with more than 255 grids

The 8 bit loop variable overflowed and the loop never ended.
---
 src/combischeme/CombiMinMaxScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 383a914..5b6a573 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -139,7 +139,7 @@ void CombiMinMaxScheme::computeCombiCoeffsAdaptive() {
 }
 
 void CombiMinMaxScheme::computeCombiCoeffsClassical() {
-  for (DimType i = 0; i < combiSpaces_.size(); ++i) {
+  for (size_t i = 0; i < combiSpaces_.size(); ++i) {
     LevelType l1 = combigrid::levelSum(combiSpaces_[i]);
     auto p = static_cast<LevelType>(n_ - l1);
     // Classical combination coefficients
-- 
2.43.0


From 55b7da1a6829e150aea5e69654490e02ce431f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:20 +0000
Subject: [PATCH 09/30] fix: do not stop generating the down set early

The generator stopped at the first level whose entries all equal the first
entry of the upper level, e.g. at (1, 1) for the levels up to (1, 2).
---
 src/utils/LevelSetUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/LevelSetUtils.hpp b/src/utils/LevelSetUtils.hpp
index caaf01b..7184cb0 100644
--- a/src/utils/LevelSetUtils.hpp
+++ b/src/utils/LevelSetUtils.hpp
@@ -130,8 +130,7 @@ class HypercubeDownSetGenerator {
 
  private:
   bool isFinished() {
-    return std::all_of(currentLevel_.begin(), currentLevel_.end(),
-                       [this](const LevelType& l) { return l == levelUpTo_[0]; });
+    return currentLevel_ == levelUpTo_;
   }
 
   const LevelVector levelUpTo_;
-- 
2.43.0


From 987fab6c5ab637935240aa60baf0919fa47fa6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:20 +0000
Subject: [PATCH 10/30] fix: count points of level one on the process that owns
 them

The points of level one that coincide with the first index of a process were
counted for the process before it.
---
 src/combischeme/CombiMinMaxScheme.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.hpp b/src/combischeme/CombiMinMaxScheme.hpp
index c1ace2c..c7b3bc5 100644
--- a/src/combischeme/CombiMinMaxScheme.hpp
+++ b/src/combischeme/CombiMinMaxScheme.hpp
@@ -302,9 +302,9 @@ inline IndexType getHighestIndexInHierarchicalSubspaceLowerThanNodalIndexOnLref(
     }
   } else if (hierarchicalSubspaceLevel == 1) {
     if (nodalIndex > 0) {
-      if (nodalIndex >= (powerOfTwo[referenceLevel])) {
+      if (nodalIndex > (powerOfTwo[referenceLevel])) {
         index = 2;
-      } else if (nodalIndex >= (powerOfTwo[referenceLevel] / 2)) {
+      } else if (nodalIndex > (powerOfTwo[referenceLevel] / 2)) {
         index = 1;
       } else {
         index = 0;
-- 
2.43.0


From 6115876a41518d2df81383656c1bcdd052159689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:23 +0000
Subject: [PATCH 11/30] fix: forecast zero microseconds without recorded
 durations

---
 src/loadmodel/AverageOfLastNLoadModel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/loadmodel/AverageOfLastNLoadModel.cpp b/src/loadmodel/AverageOfLastNLoadModel.cpp
index 9b33904..1844c36 100644
--- a/src/loadmodel/AverageOfLastNLoadModel.cpp
+++ b/src/loadmodel/AverageOfLastNLoadModel.cpp
@@ -28,6 +28,9 @@ std::chrono::microseconds AverageOfLastNLoadModel::evalSpecificUOT(
     const LevelVector& lvlVec) {
 
   const auto& durations = this->levelVectorToLastNDurations_[lvlVec];
+  if (durations.empty()) {
+    return std::chrono::microseconds{0};
+  }
   const auto average = (static_cast<real>(std::accumulate(durations.begin(), 
                                                           durations.end(), 0)) 
                         / static_cast<real>(durations.size()));
-- 
2.43.0


From 91020153d207c410b533da1bd0c146fed252ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:23 +0000
Subject: [PATCH 12/30] fix: sum durations in their own type

---
 src/loadmodel/AverageOfLastNLoadModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loadmodel/AverageOfLastNLoadModel.cpp b/src/loadmodel/AverageOfLastNLoadModel.cpp
index 1844c36..cdf146c 100644
--- a/src/loadmodel/AverageOfLastNLoadModel.cpp
+++ b/src/loadmodel/AverageOfLastNLoadModel.cpp
@@ -32,7 +32,7 @@ std::chrono::microseconds AverageOfLastNLoadModel::evalSpecificUOT(
     return std::chrono::microseconds{0};
   }
   const auto average = (static_cast<real>(std::accumulate(durations.begin(), 
-                                                          durations.end(), 0)) 
+                                                          durations.end(), 0ul)) 
                         / static_cast<real>(durations.size()));
   return std::chrono::microseconds{static_cast<long>(average)};
 }
-- 
2.43.0


From f61377dff657aa0bc6bf40c819f1cedd7572b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:23 +0000
Subject: [PATCH 13/30] fix: do not divide by a zero average duration when
 rescheduling

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index 6f9f3c8..e40e0c8 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -40,6 +40,11 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
         }
       ) / numberOfProcessGroups;
 
+  if (averageProcessGroupDuration == 0) {
+    // nothing to balance
+    return {};
+  }
+
   while (iteration < this->max_iterations_) {
 
     std::map<int, unsigned long> processGroupIndexToDuration{};
-- 
2.43.0


From b824ce32f88cb1516b40dfa5504d844ea2d42d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:41 +0000
Subject: [PATCH 14/30] fix: evaluate serial grids with a single point in one
 dimension

---
 src/fullgrid/FullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/FullGrid.hpp b/src/fullgrid/FullGrid.hpp
index 1fbbad3..b42180c 100644
--- a/src/fullgrid/FullGrid.hpp
+++ b/src/fullgrid/FullGrid.hpp
@@ -491,7 +491,7 @@ FG_ELEMENT FullGrid<FG_ELEMENT>::eval(std::vector<real>& coords) {
         assert(coords[jj] <= 1.0 && coords[jj] >= 0.0);
 
         if (coords[jj] > 0.5)
-          baseVal = baseVal * 1.0 - coords[jj];
+          baseVal = baseVal * (1.0 - coords[jj]);
         else
           baseVal = baseVal * coords[jj];
       } else
-- 
2.43.0


From 6861643ba34d1833fba8873e0d56ac7dc303733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:56 +0000
Subject: [PATCH 15/30] fix: keep the reduction chunk size within int for large
 limits

getGlobalReduceChunkSize converted the number of elements to int without a check: 16384 MiB gave a negative and 32768 MiB a zero chunk size (division by zero in distributedGlobalSparseGridReduce).
---
 src/combicom/CombiCom.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 08d259b..623532c 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -1,6 +1,9 @@
 #ifndef COMBICOM_HPP_
 #define COMBICOM_HPP_
 
+#include <algorithm>
+#include <limits>
+
 #include "fullgrid/DistributedFullGrid.hpp"
 #include "fullgrid/FullGrid.hpp"
 #include "mpi/MPISystem.hpp"
@@ -92,7 +95,10 @@ static int getGlobalReduceChunkSize(uint32_t maxMiBToSendPerThread) {
   auto maxBytesToSend = CombiCom::MiBtoBytes(maxMiBToSendPerThread);
   // allreduce up to 16MiB at a time (when using double precision)
   auto numOMPThreads = OpenMPUtils::getNumThreads();
-  int chunkSize = static_cast<int>(maxBytesToSend / sizeof(SG_ELEMENT) * numOMPThreads);
+  // the number of elements has to fit into an int to be used in MPI calls
+  int chunkSize = static_cast<int>(
+      std::min(maxBytesToSend / sizeof(SG_ELEMENT) * static_cast<size_t>(numOMPThreads),
+               static_cast<size_t>(std::numeric_limits<int>::max())));
   assert(chunkSize > 0);
   return chunkSize;
 }
-- 
2.43.0


From 3c8922042ae41bbbd6ccf5d1d6fbd5e8314d76bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:45 +0000
Subject: [PATCH 16/30] fix: interpolate periodic grids at the upper end of the
 domain

At a coordinate of exactly 1 in a dimension with one-sided boundary, the
lower neighbor is the (not stored) upper boundary point, i.e. the first point
of the dimension; only the upper neighbor was wrapped around, so the
interpolated value was 0.
---
 src/fullgrid/DistributedFullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 7a51ff4..02c7e17 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1121,7 +1121,7 @@ FG_ELEMENT DistributedFullGrid<FG_ELEMENT>::evalIndexAndAllUpperNeighbors(
       if (iterateIndexInThisDimension < 0) {
         phi_c = 0.;
         break;
-      } else if (isUpperInDim && this->hasBoundaryPoints_[d] == 1 &&
+      } else if (this->hasBoundaryPoints_[d] == 1 &&
                  //  this->getCartesianUtils().isOnLowerBoundaryInDimension(d) &&
                  iterateIndexInThisDimension == this->getGlobalSizes()[d]) {
         // if we have a wrap-around AND are on the lowest cartesian process in this dimension
-- 
2.43.0


From 86308153f1bab180e35aec1baaf71580081e5570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:45 +0000
Subject: [PATCH 17/30] fix: write a plot file header that matches the data
 offset

The header consists of 1 + dim integers (this is what the data offset and
tools/errorCalc assume), but the dimension was written as a single byte and
always six resolutions were read from a vector of size dim.
---
 src/fullgrid/DistributedFullGrid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 02c7e17..dd31e5c 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1451,10 +1451,11 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   } else {
     // rank 0 write dim and resolution (and data format?)
     if (this->getRank() == 0) {
-      MPI_File_write(fh, &dim, 1, MPI_UNSIGNED_CHAR, MPI_STATUS_IGNORE);
+      const int dimToWrite = dim;
+      MPI_File_write(fh, &dimToWrite, 1, MPI_INT, MPI_STATUS_IGNORE);
 
       std::vector<int> res(csizes.begin(), csizes.end());
-      MPI_File_write(fh, &res[0], 6, MPI_INT, MPI_STATUS_IGNORE);
+      MPI_File_write(fh, &res[0], static_cast<int>(dim), MPI_INT, MPI_STATUS_IGNORE);
     }
 
     // set file view to right offset (in bytes)
-- 
2.43.0


From 0521288293c7bf320195734044deff4b2a5c96a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:49 +0000
Subject: [PATCH 18/30] fix: take part in all collective reads when ranks hold
 different numbers of values

---
 src/io/MPIInputOutput.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index bab216a..9a68a1e 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -236,6 +236,15 @@ int readValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std::strin
   return file.readValuesFromFileAtPosition(valuesStart, numValues, position);
 }
 
+// the number of collective reads needed until all ranks have read their values
+inline MPI_Offset getNumReadRounds(MPI_Offset numValues, int numElementsToBuffer,
+                                   combigrid::CommunicatorType comm) {
+  MPI_Offset numRounds =
+      numValues > 0 ? (numValues + numElementsToBuffer - 1) / numElementsToBuffer : 0;
+  MPI_Allreduce(MPI_IN_PLACE, &numRounds, 1, MPI_OFFSET, MPI_MAX, comm);
+  return numRounds;
+}
+
 template <typename T, typename ReduceFunctionType>
 int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std::string& fileName,
                                 combigrid::CommunicatorType comm, int numElementsToBuffer,
@@ -245,10 +254,11 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
   file.checkFileSizeConsecutive(numValues, comm);
 
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
+  const MPI_Offset numRounds = getNumReadRounds(numValues, numElementsToBuffer, comm);
   int readcount = 0;
   std::vector<T> buffer(numElementsToBuffer);
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  for (MPI_Offset round = 0; round < numRounds; ++round) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -256,7 +266,7 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     }
     auto readcountIncrement =
         file.readValuesFromFileAtPosition(buffer.data(), numElementsToBuffer, position);
-    assert(readcountIncrement > 0);
+    assert(readcountIncrement == numElementsToBuffer);
     // reduce with present sparse grid data
     std::transform(buffer.cbegin(), buffer.cend(), writePointer, writePointer, reduceFunction);
     readcount += readcountIncrement;
@@ -292,9 +302,10 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
   // read from files with MPI-IO
   int readcount = 0;
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
+  const MPI_Offset numRounds = getNumReadRounds(numValues, numElementsToBuffer, comm);
   std::vector<std::vector<T>> buffers(fileNames.size(), std::vector<T>(numElementsToBuffer));
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  for (MPI_Offset round = 0; round < numRounds; ++round) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -306,7 +317,7 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
     for (size_t i = 0; i < buffers.size(); ++i) {
       readcountIncrement =
           files[i].readValuesFromFileAtPosition(buffers[i].data(), numElementsToBuffer, position);
-      assert(readcountIncrement > 0);
+      assert(readcountIncrement == numElementsToBuffer);
     }
     // reduce with present sparse grid data
     // todo is there a variadic way of doing this?
-- 
2.43.0


From e13025170c7bd94c40d9662662efac4bd86d75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:10 +0000
Subject: [PATCH 19/30] fix: report compressed files that do not hold the
 expected values and read empty frames

---
 src/io/MPICompression.hpp | 56 +++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 0c0fdf3..83913f7 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -72,7 +72,8 @@ class VectorStream : public std::basic_streambuf<char, std::char_traits<char>> {
   void reset(size_t afterNumChars = 0) {
     setg(vec_.data(), vec_.data() + afterNumChars, vec_.data() + vec_.size());
   }
-  size_t size() const { return vec_.size(); }
+  // number of chars that fit after front()
+  size_t capacity() const { return static_cast<size_t>(egptr() - gptr()); }
 
   char* front() { return gptr(); }
 
@@ -98,22 +99,20 @@ class [[nodiscard]] StreamingFrameDecompressor {
   StreamingFrameDecompressor& operator=(const StreamingFrameDecompressor&) = delete;
   StreamingFrameDecompressor& operator=(StreamingFrameDecompressor&&) = delete;
 
-  ~StreamingFrameDecompressor() {
-    // assert that everything has been read by now
-    assert(readCompressedByNow_ == compressedString_.size());
-    [[maybe_unused]] auto freeResult = LZ4F_freeDecompressionContext(dctx_);
-    assert(freeResult == 0);
-  }
+  ~StreamingFrameDecompressor() { LZ4F_freeDecompressionContext(dctx_); }
 
   size_t decompressNextBlock() {
-    size_t decompressedSize = sink_.size();
+    size_t decompressedSize = sink_.capacity();
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
+    auto hintNextBufferSize =
         LZ4F_decompress(dctx_, sink_.front(), &decompressedSize,
                         compressedString_.data() + readCompressedByNow_, &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
+    }
+    if (decompressedSize == 0 && sourceSize == 0) {
+      throw std::runtime_error("LZ4 decompression failed: incomplete frame");
     }
     decompressedByNow_ += decompressedSize;
     readCompressedByNow_ += sourceSize;
@@ -152,29 +151,26 @@ class [[nodiscard]] FrameDecompressor {
   FrameDecompressor& operator=(const FrameDecompressor&) = delete;
   FrameDecompressor& operator=(FrameDecompressor&&) = delete;
 
-  ~FrameDecompressor() {
-    // assert that everything has been read by now
-    assert(readCompressedByNow_ == compressedString_.size());
-    [[maybe_unused]] auto freeResult = LZ4F_freeDecompressionContext(dctx_);
-    assert(freeResult == 0);
-  }
+  ~FrameDecompressor() { LZ4F_freeDecompressionContext(dctx_); }
 
   size_t decompressNextBlocks(size_t numValues) {
     size_t decompressedSize = numValues * sizeof(T);
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
-        LZ4F_decompress(dctx_, decompressValuesStart_, &decompressedSize, compressedString_.data(),
-                        &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    auto hintNextBufferSize =
+        LZ4F_decompress(dctx_, decompressValuesStart_, &decompressedSize,
+                        compressedString_.data() + readCompressedByNow_, &sourceSize, &opts_);
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
-    decompressValuesStart_ += decompressedSize;
+    decompressValuesStart_ += decompressedSize / sizeof(T);
     readCompressedByNow_ += sourceSize;
     return decompressedSize / sizeof(T);
   }
 
+  bool isFinished() const { return readCompressedByNow_ == compressedString_.size(); }
+
  private:
   const std::vector<char>& compressedString_;
   T* decompressValuesStart_;
@@ -192,16 +188,13 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
 #ifdef DISCOTEC_USE_LZ4
   auto decompressor = FrameDecompressor(compressedString, decompressValuesStart);
   size_t decompressedSize = 0;
-  int numRounds = 0;
   do {
     decompressedSize = decompressor.decompressNextBlocks(numValues);
     numValues -= decompressedSize;
     decompressedByNow += decompressedSize;
-    ++numRounds;
   } while (decompressedSize > 0);
-  assert(numValues == 0);
-  if (numRounds != 2) {
-    throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numRounds) + " rounds");
+  if (numValues != 0 || !decompressor.isFinished()) {
+    throw std::runtime_error("LZ4 decompression failed: frame does not hold the expected values");
   }
 #else
   throw std::runtime_error("LZ4 compression not available");
@@ -396,6 +389,9 @@ int readReduceCompressedValuesConsecutive(
     decompressedSize += bufferRemainderToRemember;
     const auto fullNumValues = decompressedSize / sizeof(T);
     const auto bufferRemainder = decompressedSize % sizeof(T);
+    if (static_cast<MPI_Offset>(fullNumValues) > numValues - numValuesDecompressed) {
+      throw std::runtime_error("LZ4 decompression failed: frame holds more values than expected");
+    }
 
     auto bufferBeginAsTPointer = reinterpret_cast<const T*>(decompressedString.data());
     std::transform(bufferBeginAsTPointer, bufferBeginAsTPointer + fullNumValues, writePointer,
@@ -410,7 +406,9 @@ int readReduceCompressedValuesConsecutive(
     buffer.reset(bufferRemainder);
     bufferRemainderToRemember = bufferRemainder;
   } while (!decompressor.isFinished());
-  assert(numValuesDecompressed == numValues);
+  if (numValuesDecompressed != numValues || bufferRemainderToRemember != 0) {
+    throw std::runtime_error("LZ4 decompression failed: frame holds less values than expected");
+  }
 
   return numValuesDecompressed;
 #else
-- 
2.43.0


From d5035a348868041ccfd2fe26f0253adbc9b2ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:02 +0000
Subject: [PATCH 20/30] fix: receive socket data whose element tails arrive in
 several pieces, swap bytes correctly, accept lengths from 2^31 on and do not
 read past a message

---
 src/third_level/NetworkUtils.cpp |  4 ++--
 src/third_level/NetworkUtils.hpp | 27 ++++++++++++++++-----------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 1c744fc..b0c4fc4 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -121,7 +121,7 @@ bool ClientSocket::recvallBinaryToFile(const std::string& filename, size_t len,
   size_t total = 0;
   std::unique_ptr<char[]> buff(new char[chunksize]);
   while (total < len) {
-    recvd = recv(sockfd_, buff.get(), chunksize, 0);
+    recvd = recv(sockfd_, buff.get(), std::min(len - total, chunksize), 0);
     if (recvd <= 0)
       break;
     total += static_cast<size_t>(recvd);
@@ -191,7 +191,7 @@ bool ClientSocket::recvLength(size_t & length, int flags) const {
     default:
       lenstr.pop_back();
       assert(NetworkUtils::isInteger(lenstr) && "Received length is not a number");
-      length = (size_t) std::stoi(lenstr);
+      length = std::stoull(lenstr);
       assert(length > 0);
       return true;
   }
diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 0794a37..ec034cc 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -15,6 +15,8 @@
 #include <unistd.h>
 #include <assert.h>
 #include <arpa/inet.h>
+#include <algorithm>
+#include <complex>
 #include <iostream>
 #include <vector>
 #include <fstream>
@@ -163,10 +165,17 @@ class NetworkUtils {
 
       // reverse bytes
       for (size_t j = 0; j < sizeof(T); j++)
-          rawRet[j] = rawValue[sizeof(T)-j];
+          rawRet[j] = rawValue[sizeof(T)-1-j];
 
       return retValue;
     }
+
+    // real and imaginary part keep their order
+    template<typename T>
+    inline static std::complex<T> reverseEndianness(const std::complex<T>& value)
+    {
+      return {reverseEndianness(value.real()), reverseEndianness(value.imag())};
+    }
 };
 
 /* Receives buffSize elements of type FG_ELEMENT and corrects the endianness of
@@ -203,7 +212,6 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
   // for oddly received data
   std::vector<char> remaining;
   remaining.reserve(sizeof(FG_ELEMENT));
-  ssize_t head_k1 = 0;
   ssize_t head_k = 0;
   ssize_t tail_k = 0;
   ssize_t numAppended = 0;
@@ -223,7 +231,9 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
-    tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // the tail may itself be received in several pieces
+    tail_k = std::min(recvd, static_cast<ssize_t>((sizeof(FG_ELEMENT) - remaining.size()) %
+                                                  sizeof(FG_ELEMENT)));
     head_k = (recvd - tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -257,9 +267,6 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     for (ssize_t i = recvd-head_k; i < recvd; ++i)
       remaining.push_back(recvBuff[size_t(i)]);
 
-    // overwrite old head
-    head_k1 = head_k;
-
     totalRecvd += (size_t)recvd;
   }
   if ( recvd == -1) {
@@ -314,7 +321,6 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
   // for oddly received data
   std::vector<char> remaining;
   remaining.reserve(sizeof(FG_ELEMENT));
-  ssize_t head_k1 = 0;
   ssize_t head_k = 0;
   ssize_t tail_k = 0;
   ssize_t numReduced = 0;
@@ -334,7 +340,9 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
-    tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // the tail may itself be received in several pieces
+    tail_k = std::min(recvd, static_cast<ssize_t>((sizeof(FG_ELEMENT) - remaining.size()) %
+                                                  sizeof(FG_ELEMENT)));
     head_k = (recvd-tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -376,9 +384,6 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     for (ssize_t i = recvd-head_k; i < recvd; ++i)
       remaining.push_back(recvBuff[size_t(i)]);
 
-    // overwrite old head
-    head_k1 = head_k;
-
     totalRecvd += (size_t)recvd;
   }
 
-- 
2.43.0


From 7ed3663c8c7d1b2eb79d4d90b6bcc3d27b320ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:02 +0000
Subject: [PATCH 21/30] fix: recompute coefficients after faults from the
 integer solution

---
 src/fault_tolerance/LPOptimizationInterpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fault_tolerance/LPOptimizationInterpolation.cpp b/src/fault_tolerance/LPOptimizationInterpolation.cpp
index 077ed85..61880cf 100644
--- a/src/fault_tolerance/LPOptimizationInterpolation.cpp
+++ b/src/fault_tolerance/LPOptimizationInterpolation.cpp
@@ -215,7 +215,7 @@ CombigridDict LP_OPT_INTERP::get_results(LevelVectorList& recomp_faults) const {
 
   if (status == GLP_OPT) {
     for (int i = 0; i < size_downset; ++i) {
-      w_i = glp_get_col_prim(i_lp_prob, i + 1);
+      w_i = glp_mip_col_val(i_lp_prob, i + 1);
       w.push_back(w_i);
     }
 
-- 
2.43.0


From 214da2f1c4c960a1b7de606ecd41cd3397c27e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:02 +0000
Subject: [PATCH 22/30] fix: hand out or recompute failed grids also if only
 lower diagonals are affected

---
 src/manager/ProcessManager.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index a83fa3a..72bb566 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -785,6 +785,17 @@ inline void ProcessManager<CombiDataType>::recomputeOptimumCoefficients(
     std::set_difference(faultsID.begin(), faultsID.end(), recomputeFaultsID.begin(),
                         recomputeFaultsID.end(),
                         std::inserter(redistributeFaultsID, redistributeFaultsID.begin()));
+  } else {
+    // only grids on lower diagonals are affected: the coefficients stay as they are, and the failed
+    // grids that are part of the combination have to be recomputed
+    std::sort(faultsID.begin(), faultsID.end());
+    for (auto id : faultsID) {
+      if (params_.getCoeff(id) != 0.) {
+        recomputeFaultsID.push_back(id);
+      } else {
+        redistributeFaultsID.push_back(id);
+      }
+    }
   }
 }
 
-- 
2.43.0


From 4cafc7f269bbb2113d53a1c6bbe6339f0262a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:02 +0000
Subject: [PATCH 23/30] fix: let all groups take part in writing the minimum
 and maximum coefficients

---
 src/manager/ProcessManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index e358af8..0f95c4c 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -576,7 +576,10 @@ void ProcessManager<CombiDataType>::monteCarloThirdLevel(
 
 template <typename CombiDataType>
 void ProcessManager<CombiDataType>::writeSparseGridMinMaxCoefficients(const std::string& filename) {
-  pgroups_.back()->writeSparseGridMinMaxCoefficients(filename);
+  // the coefficients are reduced across all groups
+  for (auto& pg : pgroups_) {
+    pg->writeSparseGridMinMaxCoefficients(filename);
+  }
 }
 
 template <typename CombiDataType>
-- 
2.43.0


From 77ee18b8b4137ee610d3d1f02b81728eba340176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:02 +0000
Subject: [PATCH 24/30] fix: initialise the maximum coefficient with the lowest
 value

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index 65795fb..3df5600 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -733,7 +733,7 @@ template <typename FG_ELEMENT>
 void DistributedSparseGridUniform<FG_ELEMENT>::accumulateMinMaxCoefficients() {
   if (maxCoefficientPerSubspace_.empty()) {
     maxCoefficientPerSubspace_.resize(this->getNumSubspaces(),
-                                      std::numeric_limits<combigrid::real>::min());
+                                      std::numeric_limits<combigrid::real>::lowest());
     minCoefficientPerSubspace_.resize(this->getNumSubspaces(),
                                       std::numeric_limits<combigrid::real>::max());
   }
-- 
2.43.0


From d518517a875e37016d1407c6b7228915cd436ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:02 +0000
Subject: [PATCH 25/30] fix: receive the manager's arguments in the order in
 which they are sent

---
 src/manager/ProcessGroupWorker.cpp | 34 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index bb58c70..832772b 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -205,22 +205,27 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case COMBINE_WRITE_DSGS: {
       Stats::startEvent("combine third level write");
-      combineThirdLevelFileBasedWrite(receiveStringFromManagerAndBroadcastToGroup(),
-                                      receiveStringFromManagerAndBroadcastToGroup());
+      // received in the order in which the manager sends them
+      const auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      const auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedWrite(filenamePrefixToWrite, writeCompleteTokenFileName);
       Stats::stopEvent("combine third level write");
     } break;
     case COMBINE_READ_DSGS_AND_REDUCE: {
       Stats::startEvent("combine third level read");
-      combineThirdLevelFileBasedReadReduce({receiveStringFromManagerAndBroadcastToGroup()},
-                                           {receiveStringFromManagerAndBroadcastToGroup()});
+      const auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      const auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedReadReduce({filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level read");
     } break;
     case COMBINE_THIRD_LEVEL_FILE: {
       Stats::startEvent("combine third level file");
-      combineThirdLevelFileBased(receiveStringFromManagerAndBroadcastToGroup(),
-                                 receiveStringFromManagerAndBroadcastToGroup(),
-                                 {receiveStringFromManagerAndBroadcastToGroup()},
-                                 {receiveStringFromManagerAndBroadcastToGroup()});
+      const auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      const auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      const auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      const auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBased(filenamePrefixToWrite, writeCompleteTokenFileName,
+                                 {filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level file");
     } break;
     case WAIT_FOR_TL_COMBI_RESULT: {
@@ -352,17 +357,17 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case INTERPOLATE_VALUES_AND_WRITE_SINGLE_FILE: {
       Stats::startEvent("interpolate values");
+      const auto filenamePrefix = receiveStringFromManagerAndBroadcastToGroup();
       writeInterpolatedValuesSingleFile(
-          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()),
-          receiveStringFromManagerAndBroadcastToGroup());
+          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()), filenamePrefix);
       Stats::stopEvent("interpolate values");
     } break;
     case WRITE_INTERPOLATED_VALUES_PER_GRID: {  // interpolate values on given coordinates and write
                                                 // values to .h5
       Stats::startEvent("write interpolated values");
+      const auto filenamePrefix = receiveStringFromManagerAndBroadcastToGroup();
       writeInterpolatedValuesPerGrid(
-          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()),
-          receiveStringFromManagerAndBroadcastToGroup());
+          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()), filenamePrefix);
       Stats::stopEvent("write interpolated values");
     } break;
     case RESCHEDULE_ADD_TASK: {
@@ -565,8 +570,9 @@ void ProcessGroupWorker<CombiDataType>::combineAtOnce(bool collectMinMaxCoeffici
 
 template <typename CombiDataType>
 void ProcessGroupWorker<CombiDataType>::parallelEval() {
-  parallelEvalUniform(receiveStringFromManagerAndBroadcastToGroup(),
-                      receiveLevalAndBroadcast(combiParameters_.getDim()));
+  const auto leval = receiveLevalAndBroadcast(combiParameters_.getDim());
+  const auto filename = receiveStringFromManagerAndBroadcastToGroup();
+  parallelEvalUniform(filename, leval);
 }
 
 template <typename CombiDataType>
-- 
2.43.0


From 620fc32464a5e846d36d1d10d929e5f12c740d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:21 +0000
Subject: [PATCH 26/30] fix: await the status of the group after diagnostics

---
 src/manager/ProcessGroupManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index ee6a6c5..3743f53 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -632,6 +632,7 @@ void ProcessGroupManager<CombiDataType>::doDiagnostics(size_t taskID) {
       MPI_Send(&taskID, 1,
                abstraction::getMPIDatatype(abstraction::getabstractionDataType<decltype(taskID)>()),
                this->pgroupRootID_, 0, theMPISystem()->getGlobalComm());
+      setProcessGroupBusyAndReceive();
       return;
     }
   }
-- 
2.43.0


From 29e6225ed3743f8bbb5e57b1fe00b19f07b13d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:21 +0000
Subject: [PATCH 27/30] fix: await the pending status of a group before the
 next command

---
 src/manager/ProcessGroupManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 3743f53..ed8e202 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -60,6 +60,8 @@ void ProcessGroupManager<CombiDataType>::sendSignalAndReceive(SignalType signal)
 
 template <typename CombiDataType>
 void ProcessGroupManager<CombiDataType>::sendSignalToProcessGroup(SignalType signal) {
+  // the status of the previous command needs to arrive before the next one can be awaited
+  waitStatus();
   MPI_Send(&signal, 1, MPI_INT, pgroupRootID_, TRANSFER_SIGNAL_TAG,
            theMPISystem()->getGlobalComm());
 }
-- 
2.43.0


From cdc36454604aae18ce81ab68fbedb3c37278f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 28/30] fix: broker statistics without any combination divided
 by zero

---
 third_level_manager/thirdLevelManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index 88562cf..d1cecd6 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -297,7 +297,8 @@ void ThirdLevelManager::writeStatistics(const std::string& filename)
   size_t walltime = stats_.getWallTime();
   size_t numCombinations = stats_.getNumCombinations();
   size_t totalBytesTransferredInCombination = stats_.getTotalBytesTransferredInCombination();
-  size_t numBytesTransferredPerCombination = totalBytesTransferredInCombination / numCombinations;
+  size_t numBytesTransferredPerCombination =
+      numCombinations > 0 ? totalBytesTransferredInCombination / numCombinations : 0;
   size_t totalBytesTransferredInSizeExchange = stats_.getTotalBytesTransferredInSizeExchange();
   if (filename != "")
   {
-- 
2.43.0


From 15a37520d00f503a96ea6dfab0c1a61e567519f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 29/30] fix: allow the extra sparse grid on third level groups
 outside of the output group

---
 src/manager/SparseGridWorker.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index 5ea2401..8bc320a 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -1096,12 +1096,17 @@ inline void SparseGridWorker<CombiDataType>::setExtraSparseGrid(bool initializeS
 
   // create new vector for extra sparse grids (that will be only on this process group)
   this->getExtraUniDSGVector().resize(this->getNumberOfGrids());
+  // the third level process group need not be part of the output group
+  auto comm = theMPISystem()->getOutputGroupComm();
+  if (comm == MPI_COMM_NULL) {
+    comm = theMPISystem()->getLocalComm();
+  }
   for (auto& extraUniDSG : this->getExtraUniDSGVector()) {
     extraUniDSG = std::unique_ptr<DistributedSparseGridUniform<CombiDataType>>(
         new DistributedSparseGridUniform<CombiDataType>(
             this->getCombinedUniDSGVector()[0]->getDim(),
             this->getCombinedUniDSGVector()[0]->getAllLevelVectors(),
-            theMPISystem()->getOutputGroupComm()));
+            comm));
     // create Kahan buffer now (at zero size), because summation is not needed on this sparse grid
     extraUniDSG->createKahanBuffer();
     if (initializeSizes) {
-- 
2.43.0


From 753361a0369aee73e2766f0e85f25b80ee51f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:18 +0000
Subject: [PATCH 30/30] fix: give every process group a task before any group
 gets a second one

---
 src/manager/ProcessManager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index 0f95c4c..6261f90 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -37,9 +37,12 @@ bool ProcessManager<CombiDataType>::runfirst(bool doInitDSGUs) {
         " groups");
   }
 
+  std::vector<ProcessGroupManagerID<CombiDataType>> groupsWithTask;
   for (size_t i = 0; i < tasks_.size(); ++i) {
-    // wait for available process group
-    ProcessGroupManagerID<CombiDataType> g = wait();
+    // wait for available process group; each group gets a task before any group gets another one
+    ProcessGroupManagerID<CombiDataType> g =
+        groupsWithTask.size() < pgroups_.size() ? waitAvoid(groupsWithTask) : wait();
+    groupsWithTask.push_back(g);
 
     // assign instance to group
     g->runfirst(tasks_[i]);
-- 
2.43.0

