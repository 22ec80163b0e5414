From 9c7aa6f062013080766c2f30ebd75c5e3ad77847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 01/34] fix: nearest neighbor queries of AABBQuery search the
 full requested radius

The search stopped after enlarging the radius past r_max (or the box) without
searching that radius, losing neighbors for which r_guess or the last searched
radius was too small, and an r_guess beyond half the box listed several images
of the same point.
---
 freud/locality/AABBQuery.cc | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 2d607e9..d371e68 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -174,13 +174,24 @@ NeighborBond AABBQueryIterator::next()
             // the _check_r_max. We also can't depend on the ball query for
             // r_min filtering because we're querying beyond the normally safe
             // bounds, so we have to do it in this class.
+            float const r_search = std::min(m_r_cur, m_r_max);
+
+            // If we search beyond the safe cutoff radius, we need to track
+            // what particles are already in the set so that we can make sure
+            // that we find the closest image because we now run the risk of
+            // finding duplicates.
+            if (r_search > min_plane_distance / 2)
+            {
+                m_search_extended = true;
+            }
+
             m_current_neighbors.clear();
             m_all_bonds_minimum_distance.clear();
             m_query_points_below_r_min.clear();
             std::shared_ptr<NeighborQueryPerPointIterator> const ball_it
                 = std::make_shared<AABBQueryBallIterator>(static_cast<const AABBQuery*>(m_neighbor_query),
                                                           m_query_point, m_query_point_idx,
-                                                          std::min(m_r_cur, m_r_max), 0, m_exclude_ii, false);
+                                                          r_search, 0, m_exclude_ii, false);
             while (!ball_it->end())
             {
                 NeighborBond nb = ball_it->next();
@@ -228,7 +239,8 @@ NeighborBond AABBQueryIterator::next()
                 break;
             }
 
-            if ((m_r_cur >= m_r_max) || (m_r_cur >= max_plane_distance)
+            // The termination conditions apply to the radius that has been searched.
+            if ((r_search >= m_r_max) || (r_search >= max_plane_distance)
                 || ((m_all_bonds_minimum_distance.size() - m_query_points_below_r_min.size())
                     >= m_num_neighbors))
             {
@@ -246,20 +258,6 @@ NeighborBond AABBQueryIterator::next()
                 std::sort(m_current_neighbors.begin(), m_current_neighbors.end());
                 break;
             }
-
-            if (m_r_cur > min_plane_distance / 2)
-            {
-                // If we have to go beyond the cutoff radius, we need to
-                // start tracking what particles are already in the set so
-                // that we can make sure that we find the closest image
-                // because we now run the risk of finding duplicates.
-                //
-                // We could make this marginally more efficient by checking
-                // whether we've exactly hit the limit, or if there's a
-                // rescaling that would let us try the exact limit once
-                // before going beyond the min plane distance.
-                m_search_extended = true;
-            }
         }
     }
 
-- 
2.43.0


From 897afeab35ff09fe0c6afb288113e8d7b30f2c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 02/34] fix: nearest neighbor queries of LinkCell reach all
 cells of anisotropic boxes

The number of cell shells was derived from the smallest box extent, so points
farther away along a longer box vector were never found.
---
 freud/locality/LinkCell.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 1d2cb9e..0d88231 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -578,13 +578,14 @@ NeighborBond LinkCellQueryIterator::next()
     float const r_min_sq = m_r_min * m_r_min;
 
     vec3<float> const plane_distance = m_neighbor_query->getBox().getNearestPlaneDistance();
-    float min_plane_distance = std::min(plane_distance.x, plane_distance.y);
+    // Points may be as far away as the largest extent of the box permits.
+    float max_plane_distance = std::max(plane_distance.x, plane_distance.y);
     if (!m_neighbor_query->getBox().is2D())
     {
-        min_plane_distance = std::min(min_plane_distance, plane_distance.z);
+        max_plane_distance = std::max(max_plane_distance, plane_distance.z);
     }
     unsigned int const max_range
-        = static_cast<unsigned int>(std::ceil(min_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
+        = static_cast<unsigned int>(std::ceil(max_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
 
     vec3<unsigned int> const point_cell(m_linkcell->getCellCoord(m_query_point));
     // NOLINTBEGIN(bugprone-narrowing-conversions): narrowing coversion is working as expected
-- 
2.43.0


From 1e51396beb2b558d3a7594578f682181a982aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 03/34] fix: vectors of NeighborList.all_pairs point from query
 point to point

---
 freud/locality/NeighborList.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 96baa23..7d499c8 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -118,7 +118,7 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
                 (*m_neighbors)(bond_idx, 0) = i;
                 (*m_neighbors)(bond_idx, 1) = j;
                 (*m_weights)(bond_idx) = 1.0;
-                const auto dr = box.wrap(query_points[i] - points[j]);
+                const auto dr = box.wrap(points[j] - query_points[i]);
                 (*m_distances)(bond_idx) = sqrt(dot(dr, dr));
                 (*m_vectors)(bond_idx) = dr;
                 ++bond_idx;
-- 
2.43.0


From ad38534b3a7299704116a6b2f532ea0ad4e3388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 04/34] fix: FilterRAD keeps the direction and weight of the
 bonds it retains

---
 freud/locality/FilterRAD.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 9eb2715..1093e32 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -67,14 +67,14 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
             for (unsigned int j = 0; j < num_unfiltered_neighbors; j++)
             {
                 const auto first_neighbor_idx = sorted_neighbors(first_idx + j, 1);
-                const auto v1 = box.wrap(query_points[i] - points[first_neighbor_idx]);
+                const auto v1 = box.wrap(points[first_neighbor_idx] - query_points[i]);
                 good_neighbor = true;
 
                 // loop over particles which may be blocking the neighbor j
                 for (unsigned int k = 0; k < j; k++)
                 {
                     const auto second_neighbor_idx = sorted_neighbors(first_idx + k, 1);
-                    const auto v2 = box.wrap(query_points[i] - points[second_neighbor_idx]);
+                    const auto v2 = box.wrap(points[second_neighbor_idx] - query_points[i]);
                     const float first_neighbor_radius = points_radii[first_neighbor_idx];
                     const float second_neighbor_radius = points_radii[second_neighbor_idx];
                     const float first_neighbor_radius_sq = first_neighbor_radius * first_neighbor_radius;
@@ -93,7 +93,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
                 // if no k blocks j, add a bond from i to j
                 if (good_neighbor)
                 {
-                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j), 1, v1);
+                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j),
+                                             sorted_weights(first_idx + j), v1);
                 }
                 else if (m_terminate_after_blocked)
                 {
-- 
2.43.0


From fa4e114d406d44ef727d0bcb278d247007ae3087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 05/34] fix: filtered neighbor lists keep the system size and
 may be empty

The sizes were derived from the largest indices among the retained bonds, so
points without bonds at the end were dropped and a list without any bond
dereferenced an empty range.
---
 freud/locality/FilterRAD.cc    |  3 ++-
 freud/locality/FilterSANN.cc   |  3 ++-
 freud/locality/NeighborList.cc | 38 ++++++++--------------------------
 freud/locality/NeighborList.h  |  2 +-
 4 files changed, 14 insertions(+), 32 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 1093e32..a106b4c 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -128,7 +128,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     // sort final bonds array by distance
     tbb::parallel_sort(rad_bonds.begin(), rad_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds, sorted_nlist.getNumQueryPoints(),
+                                                      sorted_nlist.getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/FilterSANN.cc b/freud/locality/FilterSANN.cc
index d66c31f..ea7b59c 100644
--- a/freud/locality/FilterSANN.cc
+++ b/freud/locality/FilterSANN.cc
@@ -99,7 +99,8 @@ void FilterSANN::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* q
     // sort final bonds array by distance
     tbb::parallel_sort(sann_bonds.begin(), sann_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds, sorted_nlist.getNumQueryPoints(),
+                                                      sorted_nlist.getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 7d499c8..65bad65 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -127,34 +127,21 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
     });
 }
 
-NeighborList::NeighborList(std::vector<NeighborBond> bonds)
-    : m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
+NeighborList::NeighborList(const std::vector<NeighborBond>& bonds, unsigned int num_query_points,
+                           unsigned int num_points)
+    : m_num_query_points(num_query_points), m_num_points(num_points), m_segments_counts_updated(false),
+      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2})),
+      m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
       m_weights(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2}))
+      m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
+      m_segments(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points)),
+      m_counts(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points))
 {
-    // keep track of maximum indices
-    using MaxIndex = tbb::enumerable_thread_specific<unsigned int>;
-    MaxIndex max_idx_query = 0;
-    MaxIndex max_idx_point = 0;
-
     // fill arrays in parallel
     util::forLoopWrapper(0, bonds.size(), [&](size_t begin, size_t end) {
-        MaxIndex::reference max_point_idx(max_idx_point.local());
-        MaxIndex::reference max_query_idx(max_idx_query.local());
         for (auto i = begin; i < end; ++i)
         {
-            auto bond = bonds[i];
-
-            // update max bond indices
-            if (max_point_idx < bond.getPointIdx())
-            {
-                max_point_idx = bond.getPointIdx();
-            }
-            if (max_query_idx < bond.getQueryPointIdx())
-            {
-                max_query_idx = bond.getQueryPointIdx();
-            }
+            const auto& bond = bonds[i];
 
             // fill in array data
             (*m_distances)(i) = bond.getDistance();
@@ -164,13 +151,6 @@ NeighborList::NeighborList(std::vector<NeighborBond> bonds)
             (*m_vectors)(i) = bond.getVector();
         }
     });
-
-    // set num points, query points as max of thread-local maxes
-    m_num_points = (*std::max_element(max_idx_point.begin(), max_idx_point.end())) + 1;
-    m_num_query_points = (*std::max_element(max_idx_query.begin(), max_idx_query.end())) + 1;
-    m_segments = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_counts = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_segments_counts_updated = false;
 }
 
 unsigned int NeighborList::getNumBonds() const
diff --git a/freud/locality/NeighborList.h b/freud/locality/NeighborList.h
index b73b844..c6037ad 100644
--- a/freud/locality/NeighborList.h
+++ b/freud/locality/NeighborList.h
@@ -44,7 +44,7 @@ public:
                  const bool exclude_ii, const unsigned int num_points, const unsigned int num_query_points);
 
     //! Construct from vector of NeighborBonds
-    explicit NeighborList(std::vector<NeighborBond> bonds);
+    NeighborList(const std::vector<NeighborBond>& bonds, unsigned int num_query_points, unsigned int num_points);
 
     //! Return the number of bonds stored in this NeighborList
     unsigned int getNumBonds() const;
-- 
2.43.0


From 15efd766f35a0f4672d19aec0662c93513040f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 06/34] fix: CellQuery refuses non-periodic boxes like the
 other queries

---
 freud/locality/CellQuery.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 6cc263b..4451135 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -17,6 +17,13 @@ namespace freud::locality {
 std::shared_ptr<NeighborQueryIterator>
 CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, QueryArgs query_args) const
 {
+    // pair calculations using non-periodic boxes should fail
+    vec3<bool> const periodic = m_box.getPeriodic();
+    if (!(periodic.x && periodic.y && periodic.z))
+    {
+        throw std::domain_error("Pair queries in a non-periodic box are not implemented.");
+    }
+
     this->validateQueryArgs(query_args);
     // SAFETY: This lazy initialization can cause UB if `CellQuery.query` is
     // called in a parallel loop. This  never occurs as of writing this method,
-- 
2.43.0


From c0adf1aeb35401dfa2506b64b1fc4689c2553ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 07/34] fix: distances of NeighborList.all_pairs round as
 before

---
 freud/locality/NeighborList.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 65bad65..c7e0868 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -118,7 +118,7 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
                 (*m_neighbors)(bond_idx, 0) = i;
                 (*m_neighbors)(bond_idx, 1) = j;
                 (*m_weights)(bond_idx) = 1.0;
-                const auto dr = box.wrap(points[j] - query_points[i]);
+                const auto dr = -box.wrap(query_points[i] - points[j]);
                 (*m_distances)(bond_idx) = sqrt(dot(dr, dr));
                 (*m_vectors)(bond_idx) = dr;
                 ++bond_idx;
-- 
2.43.0


From 8f52a7c47d73ade19f05bcd57de6e4f12634e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 08/34] fix: NeighborList.sort orders equal pairs by distance
 as documented

---
 freud/locality/NeighborBond.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freud/locality/NeighborBond.h b/freud/locality/NeighborBond.h
index 78a85d9..bcefc1e 100644
--- a/freud/locality/NeighborBond.h
+++ b/freud/locality/NeighborBond.h
@@ -87,11 +87,11 @@ public:
         {
             return point_idx < n.point_idx;
         }
-        if (weight != n.weight)
+        if (distance != n.distance)
         {
-            return weight < n.weight;
+            return distance < n.distance;
         }
-        return distance < n.distance;
+        return weight < n.weight;
     }
 
     bool less_as_distance(const NeighborBond& n) const
-- 
2.43.0


From 25f2dfb355b9467f4f964c7dfd7caf1e6cbf2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 09/34] fix: queries without query points do not read past the
 empty array

---
 freud/locality/NeighborQuery.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index fc83024..6b98111 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -370,6 +370,11 @@ public:
         : m_neighbor_query(neighbor_query), m_query_points(query_points),
           m_num_query_points(num_query_points), m_qargs(qargs)
     {
+        if (m_num_query_points == 0)
+        {
+            m_finished = true;
+            return;
+        }
         m_iter = this->query(m_cur_p);
     }
 
-- 
2.43.0


From b2034642081b9338ce12e47bd5bb67a41571fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 10/34] fix: LocalDensity ignores neighbors beyond r_max +
 diameter/2

---
 freud/density/LocalDensity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/density/LocalDensity.cc b/freud/density/LocalDensity.cc
index 8a09dce..af82384 100644
--- a/freud/density/LocalDensity.cc
+++ b/freud/density/LocalDensity.cc
@@ -60,7 +60,7 @@ void LocalDensity::compute(const std::shared_ptr<locality::NeighborQuery>& neigh
                 {
                     num_neighbors += float(1.0);
                 }
-                else
+                else if (nb.getDistance() < (m_r_max + m_diameter / float(2.0)))
                 {
                     // partially count particles that intersect the r_max sphere
                     // this is not particularly accurate for a single particle, but works well on average for
-- 
2.43.0


From 1f5ec6ba4db2a172339d2c1a8b869d153aac5690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 11/34] fix: GaussianDensity and SphereVoxelization evaluate
 all bins within r_max

---
 freud/density/GaussianDensity.cc    | 8 ++++----
 freud/density/SphereVoxelization.cc | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index d28b667..c5ea0a9 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -81,10 +81,10 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins whose centers can be within r_max of a point in the central bin
+    const int bin_cut_x = int(std::ceil(m_r_max / grid_size_x));
+    const int bin_cut_y = int(std::ceil(m_r_max / grid_size_y));
+    const int bin_cut_z = m_box.is2D() ? 0 : int(std::ceil(m_r_max / grid_size_z));
     const float r_max_sq = m_r_max * m_r_max;
     const float sigmasq = m_sigma * m_sigma;
     const float normalization_base = float(1.0) / std::sqrt(constants::TWO_PI * sigmasq);
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index a50cdef..5a29be3 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <cmath>
 #include <cstddef>
 #include <memory>
 #include <stdexcept>
@@ -77,10 +78,10 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins whose centers can be within r_max of a point in the central bin
+    const int bin_cut_x = int(std::ceil(m_r_max / grid_size_x));
+    const int bin_cut_y = int(std::ceil(m_r_max / grid_size_y));
+    const int bin_cut_z = m_box.is2D() ? 0 : int(std::ceil(m_r_max / grid_size_z));
     const float r_max_sq = m_r_max * m_r_max;
 
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
-- 
2.43.0


From 7f3613ac972bceea690ce3ce60b518b4f0da923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 12/34] fix: GaussianDensity adds the contribution of a point
 to each bin once

---
 freud/density/GaussianDensity.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index c5ea0a9..0146196 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <memory>
@@ -91,6 +92,12 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
     const float dimensions = m_box.is2D() ? float(2.0) : float(3.0);
     const float normalization = std::pow(normalization_base, dimensions);
 
+    // Last bin to evaluate along one axis
+    const auto last_bin = [](int bin, int bin_cut, unsigned int width, bool is_periodic) {
+        const int last = bin + bin_cut;
+        return is_periodic ? std::min(last, bin - bin_cut + int(width) - 1) : last;
+    };
+
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
         // for each reference point
         for (size_t idx = begin; idx < end; ++idx)
@@ -109,9 +116,15 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 bin_z = 0;
             }
 
+            // Evaluate each bin once even if more than one of its periodic images is in range, the
+            // distance to the closest image is used for all of them
+            const int last_x = last_bin(bin_x, bin_cut_x, m_width.x, periodic.x);
+            const int last_y = last_bin(bin_y, bin_cut_y, m_width.y, periodic.y);
+            const int last_z = last_bin(bin_z, bin_cut_z, m_width.z, periodic.z);
+
             // Reject bins that are outside the box in aperiodic directions
             // Only evaluate over bins that are within the cutoff
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = bin_z - bin_cut_z; k <= last_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -120,7 +133,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = bin_y - bin_cut_y; j <= last_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -129,7 +142,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = bin_x - bin_cut_x; i <= last_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
-- 
2.43.0


From 4e4e27be4d21e794714c779545d5578c2520a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 13/34] fix: ClusterProperties uses each point's own mass in
 centers of mass

---
 freud/cluster/ClusterProperties.cc | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/freud/cluster/ClusterProperties.cc b/freud/cluster/ClusterProperties.cc
index 0274e3d..a67fc0e 100644
--- a/freud/cluster/ClusterProperties.cc
+++ b/freud/cluster/ClusterProperties.cc
@@ -44,8 +44,9 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
     m_cluster_sizes = std::make_shared<util::ManagedArray<unsigned int>>(num_clusters);
     m_cluster_masses = std::make_shared<util::ManagedArray<float>>(num_clusters);
 
-    // Create a vector to store cluster points, used to compute center of mass
+    // Create vectors to store cluster points and their masses, used to compute center of mass
     std::vector<std::vector<vec3<float>>> cluster_points(num_clusters, std::vector<vec3<float>>());
+    std::vector<std::vector<float>> cluster_point_masses(num_clusters, std::vector<float>());
 
     // Start by determining the center of mass of each cluster. Since we are
     // given an array of points, the easiest way to do this is to loop over
@@ -58,23 +59,15 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
         (*m_cluster_sizes)[c]++;
         float const mass = (masses != nullptr) ? masses[i] : float(1.0);
         (*m_cluster_masses)[c] += mass;
+        cluster_point_masses[c].push_back(mass);
     }
 
     // Now that we have located all of the cluster vectors, compute the centers
-    const float* cluster_point_masses = masses;
     for (unsigned int c = 0; c < num_clusters; c++)
     {
         (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
         (*m_cluster_centers_of_mass)[c] = nq->getBox().centerOfMass(
-            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses);
-        if (masses == nullptr)
-        {
-            cluster_point_masses = nullptr;
-        }
-        else
-        {
-            cluster_point_masses = cluster_point_masses + (*m_cluster_sizes)[c];
-        }
+            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses[c].data());
     }
 
     // Now that we have determined the centers of mass for each cluster, tally
-- 
2.43.0


From 7d55d8a212b05cf8c349f3b1a809f285be43e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 14/34] fix: ClusterProperties refuses masses of the wrong
 length

---
 freud/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/cluster.py b/freud/cluster.py
index aedb75c..ec9907c 100644
--- a/freud/cluster.py
+++ b/freud/cluster.py
@@ -180,7 +180,7 @@ class ClusterProperties(_Compute):
             cluster_idx, shape=(nq.points.shape[0],), dtype=np.uint32
         )
         if masses is not None:
-            masses = freud.util._convert_array(masses, shape=(len(masses),))
+            masses = freud.util._convert_array(masses, shape=(nq.points.shape[0],))
         self._cpp_obj.compute(nq._cpp_obj, cluster_idx, masses)
         return self
 
-- 
2.43.0


From f2dd3dc78cc1cb58950e98093693cf94ba447d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 15/34] fix: 2D PMFTs accept quaternions of any rotation about
 the z axis

---
 freud/pmft.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index 420c751..5c845d2 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -71,13 +71,16 @@ def _quat_to_z_angle(orientations, num_points):
     ) or (len(orientations.shape) == 2 and orientations.shape[1] == 4)
 
     if is_quat:
-        axes, orientations = rowan.to_axis_angle(orientations)
-        if not (np.allclose(orientations, 0) or np.allclose(axes, [0, 0, 1])):
+        axes, angles = rowan.to_axis_angle(orientations)
+        # The axis may point along -z and is zero for the identity.
+        on_z_axis = np.all(np.isclose(axes[..., :2], 0), axis=-1)
+        if not np.all(np.isclose(angles, 0) | on_z_axis):
             msg = (
                 "Orientations provided as quaternions "
                 "must represent rotations about the z-axis."
             )
             raise ValueError(msg)
+        orientations = np.where(axes[..., 2] < 0, -angles, angles)
     return orientations
 
 
-- 
2.43.0


From dc8593767d9c73fd81c15c093a2709e2ebf8c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 16/34] fix: RotationalAutocorrelation is correct for l >= 10

The product of factorials overflowed unsigned int from l = 10 on and the
factorials themselves from l = 14 on.
---
 freud/order/RotationalAutocorrelation.cc | 47 ++++++++++++------------
 freud/order/RotationalAutocorrelation.h  | 13 ++++---
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/freud/order/RotationalAutocorrelation.cc b/freud/order/RotationalAutocorrelation.cc
index 82cc4d8..dc961b7 100644
--- a/freud/order/RotationalAutocorrelation.cc
+++ b/freud/order/RotationalAutocorrelation.cc
@@ -23,13 +23,13 @@ namespace freud { namespace order {
 // serves as a micro-optimization since std::pow can be slow. We can take the
 // exponent to be an unsigned int since all the sums in the hyperspherical
 // harmonic below guarantee this.
-inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
+inline std::complex<double> cpow(std::complex<double> base, unsigned int p)
 {
     if (p == 0)
     {
         return {1, 0};
     }
-    std::complex<float> val(base);
+    std::complex<double> val(base);
     for (unsigned int i = 1; i < p; i++)
     {
         val *= base;
@@ -37,21 +37,20 @@ inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
     return val;
 }
 
-inline std::complex<float> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<float> xi,
-                                                                           std::complex<float> zeta,
-                                                                           const unsigned int m1,
-                                                                           const unsigned int m2)
+inline std::complex<double> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<double> xi,
+                                                                            std::complex<double> zeta,
+                                                                            const unsigned int m1,
+                                                                            const unsigned int m2)
 {
-    const std::complex<float> xi_conj = std::conj(xi);
-    const std::complex<float> zeta_conj = std::conj(zeta);
+    const std::complex<double> xi_conj = std::conj(xi);
+    const std::complex<double> zeta_conj = std::conj(zeta);
 
     // Doing a summation over non-negative exponents, which requires the additional inner conditional.
-    std::complex<float> sum_tracker(0, 0);
+    std::complex<double> sum_tracker(0, 0);
     for (unsigned int k = (m1 + m2 < m_l ? 0 : m1 + m2 - m_l); k <= std::min(m1, m2); k++)
     {
-        const float fact_product = static_cast<float>((*m_factorials)[k])
-            * static_cast<float>((*m_factorials)[m_l + k - m1 - m2])
-            * static_cast<float>((*m_factorials)[m1 - k]) * static_cast<float>((*m_factorials)[m2 - k]);
+        const double fact_product = (*m_factorials)[k] * (*m_factorials)[m_l + k - m1 - m2]
+            * (*m_factorials)[m1 - k] * (*m_factorials)[m2 - k];
         sum_tracker += cpow(xi_conj, k) * cpow(zeta, m2 - k) * cpow(zeta_conj, m1 - k)
             * cpow(-xi, m_l + k - m1 - m2) / fact_product;
     }
@@ -67,18 +66,17 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
     // default quaternion constructor gives a unit quaternion. We will assume
     // the same iteration order here as in the loop below to save ourselves
     // from having to use a more expensive process (i.e. a map).
-    const std::complex<float> xi = std::complex<float>(0, 0);
-    const std::complex<float> zeta = std::complex<float>(0, 1);
-    std::vector<std::complex<float>> unit_harmonics;
-    std::vector<std::vector<float>> prefactors(m_l + 1, std::vector<float>(m_l + 1, float(0)));
+    const std::complex<double> xi = std::complex<double>(0, 0);
+    const std::complex<double> zeta = std::complex<double>(0, 1);
+    std::vector<std::complex<double>> unit_harmonics;
+    std::vector<std::vector<double>> prefactors(m_l + 1, std::vector<double>(m_l + 1, double(0)));
     for (unsigned int a = 0; a <= m_l; a++)
     {
         for (unsigned int b = 0; b <= m_l; b++)
         {
             unit_harmonics.push_back(std::conj(hypersphere_harmonic(xi, zeta, a, b)));
-            prefactors[a][b] = static_cast<float>((*m_factorials)[a] * (*m_factorials)[m_l - a]
-                                                  * (*m_factorials)[b] * (*m_factorials)[m_l - b])
-                / (static_cast<float>(m_l + 1));
+            prefactors[a][b] = (*m_factorials)[a] * (*m_factorials)[m_l - a] * (*m_factorials)[b]
+                * (*m_factorials)[m_l - b] / (static_cast<double>(m_l + 1));
         }
     }
 
@@ -88,22 +86,23 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
         {
             // Transform the orientation quaternions into Xi/Zeta coordinates;
             const quat<float> qq_1 = conj(ref_orientations[i]) * orientations[i];
-            const std::complex<float> xi = std::complex<float>(qq_1.v.x, qq_1.v.y);
-            const std::complex<float> zeta = std::complex<float>(qq_1.v.z, qq_1.s);
+            const std::complex<double> xi = std::complex<double>(qq_1.v.x, qq_1.v.y);
+            const std::complex<double> zeta = std::complex<double>(qq_1.v.z, qq_1.s);
 
             // Loop through the valid quantum numbers.
-            (*m_RA_array)[i] = std::complex<float>(0, 0);
+            std::complex<double> autocorrelation(0, 0);
             unsigned int uh_index = 0;
             for (unsigned int a = 0; a <= m_l; a++)
             {
                 for (unsigned int b = 0; b <= m_l; b++)
                 {
-                    const std::complex<float> combined_value
+                    const std::complex<double> combined_value
                         = unit_harmonics[uh_index] * hypersphere_harmonic(xi, zeta, a, b);
-                    (*m_RA_array)[i] += prefactors[a][b] * combined_value;
+                    autocorrelation += prefactors[a][b] * combined_value;
                     uh_index += 1;
                 }
             }
+            (*m_RA_array)[i] = std::complex<float>(autocorrelation);
         }
     });
 
diff --git a/freud/order/RotationalAutocorrelation.h b/freud/order/RotationalAutocorrelation.h
index e15f958..13fba5c 100644
--- a/freud/order/RotationalAutocorrelation.h
+++ b/freud/order/RotationalAutocorrelation.h
@@ -55,12 +55,13 @@ public:
     explicit RotationalAutocorrelation(unsigned int l) : m_l(l)
     {
         // For efficiency, we precompute all required factorials for use during
-        // the per-particle computation.
-        m_factorials = std::make_shared<util::ManagedArray<unsigned int>>(m_l + 1);
+        // the per-particle computation. They are stored as doubles because
+        // 13! does not fit into an unsigned int.
+        m_factorials = std::make_shared<util::ManagedArray<double>>(m_l + 1);
         (*m_factorials)[0] = 1;
         for (unsigned int i = 1; i <= m_l; i++)
         {
-            (*m_factorials)[i] = i * (*m_factorials)[i - 1];
+            (*m_factorials)[i] = static_cast<double>(i) * (*m_factorials)[i - 1];
         }
     }
 
@@ -116,14 +117,14 @@ private:
      *  method to access the cached factorial values for the class's value of
      *  m_l.
      */
-    std::complex<float> hypersphere_harmonic(const std::complex<float> xi, std::complex<float> zeta,
-                                             const unsigned int m1, const unsigned int m2);
+    std::complex<double> hypersphere_harmonic(const std::complex<double> xi, std::complex<double> zeta,
+                                              const unsigned int m1, const unsigned int m2);
 
     unsigned int m_l; //!< Order of the hyperspherical harmonic.
     float m_Ft {0};   //!< Real value of calculated RA function.
 
     std::shared_ptr<util::ManagedArray<std::complex<float>>> m_RA_array; //!< Array of RA values per particle
-    std::shared_ptr<util::ManagedArray<unsigned int>> m_factorials;      //!< Array of cached factorials
+    std::shared_ptr<util::ManagedArray<double>> m_factorials;            //!< Array of cached factorials
 };
 
 }; }; // end namespace freud::order
-- 
2.43.0


From e2ec9d8480fbc886e32cd6f6dfd7c7ead3e486a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 17/34] fix: Cubatic results for a seed do not depend on the
 number of threads

The random numbers were seeded per chunk of replicates, so the result
depended on how TBB divided the replicates.
---
 freud/order/Cubatic.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 854de27..43dc6c6 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -260,20 +260,19 @@ void Cubatic::compute(const quat<float>* orientations, unsigned int num_orientat
     util::ManagedArray<quat<float>> p_cubatic_orientation(m_n_replicates);
 
     util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
-        // create thread-specific rng
-        const auto thread_start = static_cast<unsigned int>(begin);
-
-        std::vector<unsigned int> seed_seq(3);
-        seed_seq[0] = m_seed;
-        seed_seq[1] = thread_start;
-        seed_seq[2] = 0xffaabb;
-        std::seed_seq seed(seed_seq.begin(), seed_seq.end());
-        std::mt19937 rng(seed);
-        std::uniform_real_distribution<float> base_dist(0, 1);
-        auto dist = [&]() { return base_dist(rng); };
-
         for (size_t i = begin; i < end; i++)
         {
+            // Create a replicate-specific rng, such that the result does not
+            // depend on how the replicates are distributed over threads.
+            std::vector<unsigned int> seed_seq(3);
+            seed_seq[0] = m_seed;
+            seed_seq[1] = static_cast<unsigned int>(i);
+            seed_seq[2] = 0xffaabb;
+            std::seed_seq seed(seed_seq.begin(), seed_seq.end());
+            std::mt19937 rng(seed);
+            std::uniform_real_distribution<float> base_dist(0, 1);
+            auto dist = [&]() { return base_dist(rng); };
+
             // need to generate random orientation
             quat<float> cubatic_orientation = calcRandomQuaternion(dist);
             quat<float> new_orientation = cubatic_orientation;
-- 
2.43.0


From 8acf95f2828ea10f6e64bbb48d2c7ce24d221c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 18/34] fix: Cubatic accepts t_final = 1e-6

The single precision value was compared with a double precision limit.
---
 freud/order/Cubatic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 43dc6c6..9fea2fd 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -144,7 +144,7 @@ Cubatic::Cubatic(float t_initial, float t_final, float scale, unsigned int n_rep
     {
         throw std::invalid_argument("Cubatic requires that t_initial must be greater than t_final.");
     }
-    if (t_final < 1e-6)
+    if (m_t_final < float(1e-6))
     {
         throw std::invalid_argument("Cubatic requires that t_final must be >= 1e-6.");
     }
-- 
2.43.0


From 93ab4c2bed04cd2da18956d9cc7dd14dceacf0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 19/34] fix: BondOrder counts bonds along the negative z axis

The polar angle of such bonds rounds to the exclusive upper edge of the
histogram, so they were dropped.
---
 freud/environment/BondOrder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/freud/environment/BondOrder.cc b/freud/environment/BondOrder.cc
index f65e43c..94d11b2 100644
--- a/freud/environment/BondOrder.cc
+++ b/freud/environment/BondOrder.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 #ifdef __SSE2__
@@ -143,7 +144,10 @@ void BondOrder::accumulate(const std::shared_ptr<locality::NeighborQuery>& neigh
                           theta = util::modulusPositive(theta, constants::TWO_PI);
 
                           // NOTE that the below has replaced the commented out expression for phi.
-                          const float phi = std::acos(v.z / std::sqrt(dot(v, v))); // 0..Pi
+                          float phi = std::acos(v.z / std::sqrt(dot(v, v))); // 0..Pi
+                          // The upper edge of the histogram is exclusive, so bonds along -z need to be
+                          // moved into the last bin.
+                          phi = std::min(phi, std::nextafter(float(M_PI), float(0)));
 
                           m_local_histograms(theta, phi);
                       });
-- 
2.43.0


From 95fb04f35dd26ac877e362a867a826e7bbc9319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 20/34] fix: AngularSeparationNeighbor pairs orientations with
 the right particles

Bonds are (query point, point), but the orientations of points were used
for the query points and vice versa, and angles were computed for as many
query points as there are points.
---
 freud/environment.py                   | 7 +++----
 freud/environment/AngularSeparation.cc | 8 ++++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/freud/environment.py b/freud/environment.py
index edb2681..6f2e8c7 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -102,10 +102,9 @@ class AngularSeparationNeighbor(_PairCompute):
         )
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = freud.util._convert_array(
-                query_orientations, shape=(query_points.shape[0], 4)
-            )
+        query_orientations = freud.util._convert_array(
+            query_orientations, shape=(query_points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
diff --git a/freud/environment/AngularSeparation.cc b/freud/environment/AngularSeparation.cc
index dbe4fb1..85d431d 100644
--- a/freud/environment/AngularSeparation.cc
+++ b/freud/environment/AngularSeparation.cc
@@ -73,19 +73,19 @@ void AngularSeparationNeighbor::compute(const std::shared_ptr<locality::Neighbor
     const size_t tot_num_neigh = m_nlist->getNumBonds();
     m_angles = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {tot_num_neigh});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         size_t bond(m_nlist->find_first_index(begin));
         for (size_t i = begin; i < end; ++i)
         {
-            const quat<float> q = orientations[i];
+            const quat<float> query_q = query_orientations[i];
 
             for (; bond < tot_num_neigh && (*m_nlist->getNeighbors())(bond, 0) == i; ++bond)
             {
                 const size_t j((*m_nlist->getNeighbors())(bond, 1));
-                const quat<float> query_q = query_orientations[j];
+                const quat<float> q = orientations[j];
 
                 const float theta
-                    = computeMinSeparationAngle(q, query_q, equiv_orientations, n_equiv_orientations);
+                    = computeMinSeparationAngle(query_q, q, equiv_orientations, n_equiv_orientations);
                 (*m_angles)[bond] = theta;
             }
         }
-- 
2.43.0


From 9f5469046a69b16c8d4285e352c3b6b7c9b14b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 21/34] fix: LocalBondProjection requires one orientation per
 point

With fewer orientations, memory outside of the array was read.
---
 freud/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/environment.py b/freud/environment.py
index 6f2e8c7..130ca21 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -1054,7 +1054,9 @@ class LocalBondProjection(_PairCompute):
             system, query_points, neighbors
         )
 
-        orientations = freud.util._convert_array(orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(nq.points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
-- 
2.43.0


From 28a9101081558da2fd65affdd5d4cd8129ae0d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 22/34] fix: NumThreads restores the number of threads that
 held when it was entered

---
 freud/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/parallel.py b/freud/parallel.py
index da7e6b3..6572809 100644
--- a/freud/parallel.py
+++ b/freud/parallel.py
@@ -48,10 +48,10 @@ class NumThreads:
     """
 
     def __init__(self, N=None):
-        self.restore_N = _num_threads
         self.N = N
 
     def __enter__(self):
+        self.restore_N = _num_threads
         set_num_threads(self.N)
         return self
 
-- 
2.43.0


From 411ae806d36865b7b6a5f2ff0a372678da311188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:44 +0000
Subject: [PATCH 23/34] fix: correlation functions report their bins and bounds

---
 freud/density.py                            | 2 +-
 freud/density/export-CorrelationFunction.cc | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/freud/density.py b/freud/density.py
index c47ad95..4bb870c 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -145,7 +145,7 @@ class CorrelationFunction(_SpatialHistogram1D):
     @property
     def bins(self):
         """int: Number of bins used in the calculation."""
-        return self._cpp_obj.getNBins()
+        return self.nbins
 
     def __repr__(self):
         return (
diff --git a/freud/density/export-CorrelationFunction.cc b/freud/density/export-CorrelationFunction.cc
index a868bd3..caf2389 100644
--- a/freud/density/export-CorrelationFunction.cc
+++ b/freud/density/export-CorrelationFunction.cc
@@ -8,6 +8,7 @@
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/vector.h>     // NOLINT(misc-include-cleaner): used implicitly
 
+#include "BondHistogramCompute.h"
 #include "CorrelationFunction.h"
 #include "NeighborList.h"
 #include "NeighborQuery.h"
@@ -44,7 +45,7 @@ namespace detail {
 
 void export_CorrelationFunction(nanobind::module_& m)
 {
-    nanobind::class_<CorrelationFunction>(m, "CorrelationFunction")
+    nanobind::class_<CorrelationFunction, locality::BondHistogramCompute>(m, "CorrelationFunction")
         .def(nanobind::init<unsigned int, float>(), nanobind::arg("bins"), nanobind::arg("r_max"))
         .def("reset", &CorrelationFunction::reset)
         .def("accumulate", &wrap::accumulateCF, nanobind::arg("neighbor_query"), nanobind::arg("values"),
-- 
2.43.0


From 4fb7951803702a58ee493ace37fe77362aa384ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:44 +0000
Subject: [PATCH 24/34] fix: the representation of RDFs includes the
 normalization mode

---
 freud/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index 4bb870c..29db671 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -664,7 +664,8 @@ class RDF(_SpatialHistogram1D):
     def __repr__(self):
         return (
             f"freud.density.{type(self).__name__}(bins={len(self.bin_centers)}, "
-            f"r_max={self.bounds[1]}, r_min={self.bounds[0]})"
+            f"r_max={self.bounds[1]}, r_min={self.bounds[0]}, "
+            f"normalization_mode='{self.mode}')"
         )
 
     def plot(self, ax=None):
-- 
2.43.0


From ce450530f22796b32f5a25a9fba43d090add26a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:44 +0000
Subject: [PATCH 25/34] fix: bond order diagrams report their bounds

---
 freud/environment/export-BondOrder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/environment/export-BondOrder.cc b/freud/environment/export-BondOrder.cc
index 8a79b10..5bd1cdb 100644
--- a/freud/environment/export-BondOrder.cc
+++ b/freud/environment/export-BondOrder.cc
@@ -7,6 +7,7 @@
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/vector.h>     // NOLINT(misc-include-cleaner): used implicitly
 
+#include "BondHistogramCompute.h"
 #include "BondOrder.h"
 #include "NeighborList.h"
 #include "NeighborQuery.h"
@@ -59,7 +60,7 @@ void export_BondOrder(nb::module_& module)
         .value("oocd", BondOrderMode::oocd)
         .export_values();
 
-    nb::class_<BondOrder>(module, "BondOrder")
+    nb::class_<BondOrder, locality::BondHistogramCompute>(module, "BondOrder")
         .def(nb::init<unsigned int, unsigned int, BondOrderMode>())
         .def("getBondOrder", &BondOrder::getBondOrder)
         .def("getBinCounts", &BondOrder::getBinCounts)
-- 
2.43.0


From f8381f211713d15f7e805295a7222c8fee502d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:44 +0000
Subject: [PATCH 26/34] fix: the cell width of LinkCell can be read

---
 freud/locality/export-NeighborQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/export-NeighborQuery.cc b/freud/locality/export-NeighborQuery.cc
index 974f4b1..254f3b3 100644
--- a/freud/locality/export-NeighborQuery.cc
+++ b/freud/locality/export-NeighborQuery.cc
@@ -84,7 +84,7 @@ void export_LinkCell(nb::module_& module)
 {
     nb::class_<LinkCell, NeighborQuery>(module, "LinkCell")
         .def("__init__", &wrap::LinkCellConstructor)
-        .def("GetCellWidth", &LinkCell::getCellWidth);
+        .def("getCellWidth", &LinkCell::getCellWidth);
 }
 
 void export_RawPoints(nb::module_& module)
-- 
2.43.0


From c40e599296ee695e500d25bd5e191566b77eeb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:44 +0000
Subject: [PATCH 27/34] fix: refuse neighbor lists made for other numbers of
 points in all computes

---
 freud/locality/NeighborComputeFunctional.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/locality/NeighborComputeFunctional.h b/freud/locality/NeighborComputeFunctional.h
index d43cb37..9759058 100644
--- a/freud/locality/NeighborComputeFunctional.h
+++ b/freud/locality/NeighborComputeFunctional.h
@@ -118,6 +118,7 @@ void loopOverNeighborsIterator(const std::shared_ptr<NeighborQuery>& neighbor_qu
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, n_query_points,
             [&](size_t begin, size_t end) {
@@ -179,6 +180,7 @@ void loopOverNeighbors(const std::shared_ptr<NeighborQuery>& neighbor_query, con
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, nlist->getNumBonds(),
             [&](size_t begin, size_t end) {
-- 
2.43.0


From 3db45aef5a01f14dd0d0a1292ff59cd750c8de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:44 +0000
Subject: [PATCH 28/34] fix: triclinic MDAnalysis boxes have their vectors as
 rows

---
 freud/locality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 20b941c..a95252b 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -321,7 +321,8 @@ class NeighborQuery:
             "MDAnalysis.coordinates.base.Timestep",
             "MDAnalysis.coordinates.timestep.Timestep",
         ):
-            system = (system.triclinic_dimensions, system.positions)
+            # MDAnalysis stores the box vectors as rows, freud as columns.
+            system = (np.transpose(system.triclinic_dimensions), system.positions)
 
         # GSD and HOOMD-blue 3 snapshot compatibility
         elif _match_class_path(
-- 
2.43.0


From 151df40c5d18b369dca6a3aafecfc64c6064db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:06 +0000
Subject: [PATCH 29/34] fix: changing the dimensions of a box keeps Lz of 3D
 boxes and clears the z extents of 2D ones

---
 freud/box/Box.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 7578ba5..e035c61 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -118,8 +118,11 @@ public:
     void set2D(bool _2d)
     {
         m_2d = _2d;
-        m_L.z = 0;
-        m_Linv.z = 0;
+        if (m_2d)
+        {
+            // also updates the inverse lengths and the extents of the box
+            setL(m_L.x, m_L.y, 0);
+        }
     }
 
     //! Returns whether box is two dimensional
-- 
2.43.0


From 3c37ecb4e959c9524d6073973ff33da6a8cb0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 30/34] fix: the periodicity of a box can be set from numpy
 booleans

---
 freud/box.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index 8280930..6801b14 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -568,12 +568,12 @@ class Box:  # noqa: PLW1641
 
     @periodic.setter
     def periodic(self, periodic):
-        # Allow passing a single value
-        try:
-            self._cpp_obj.setPeriodic(periodic[0], periodic[1], periodic[2])
-        except TypeError:
-            # Allow single value to be passed for all directions
-            self._cpp_obj.setPeriodic(periodic, periodic, periodic)
+        # Allow single value to be passed for all directions
+        if np.ndim(periodic) == 0:
+            periodic = (periodic, periodic, periodic)
+        self._cpp_obj.setPeriodic(
+            bool(periodic[0]), bool(periodic[1]), bool(periodic[2])
+        )
 
     @property
     def periodic_x(self):
@@ -582,7 +582,7 @@ class Box:  # noqa: PLW1641
 
     @periodic_x.setter
     def periodic_x(self, periodic):
-        self._cpp_obj.setPeriodicX(periodic)
+        self._cpp_obj.setPeriodicX(bool(periodic))
 
     @property
     def periodic_y(self):
@@ -591,7 +591,7 @@ class Box:  # noqa: PLW1641
 
     @periodic_y.setter
     def periodic_y(self, periodic):
-        self._cpp_obj.setPeriodicY(periodic)
+        self._cpp_obj.setPeriodicY(bool(periodic))
 
     @property
     def periodic_z(self):
@@ -600,7 +600,7 @@ class Box:  # noqa: PLW1641
 
     @periodic_z.setter
     def periodic_z(self, periodic):
-        self._cpp_obj.setPeriodicZ(periodic)
+        self._cpp_obj.setPeriodicZ(bool(periodic))
 
     def to_dict(self):
         r"""Return box as dictionary.
-- 
2.43.0


From fba901942241cb39efc3684107e51930194f3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 31/34] fix: scaled and copied boxes keep the periodicity

---
 freud/box.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index 6801b14..569d2d7 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -699,7 +699,7 @@ class Box:  # noqa: PLW1641
 
     def __mul__(self, scale):
         if scale > 0:
-            return self.__class__(
+            scaled = self.__class__(
                 Lx=self.Lx * scale,
                 Ly=self.Ly * scale,
                 Lz=self.Lz * scale,
@@ -708,6 +708,8 @@ class Box:  # noqa: PLW1641
                 yz=self.yz,
                 is2D=self.is2D,
             )
+            scaled.periodic = self.periodic
+            return scaled
         msg = "Box can only be multiplied by positive values."
         raise ValueError(msg)
 
@@ -840,7 +842,10 @@ class Box:  # noqa: PLW1641
         if dimensions is None:
             dimensions = 2 if Lz == 0 else 3
         is2D = dimensions == 2
-        return cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        new_box = cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        if isinstance(box, Box):
+            new_box.periodic = box.periodic
+        return new_box
 
     @classmethod
     def from_matrix(cls, box_matrix, dimensions=None):
-- 
2.43.0


From 0b932d5d307c6851a64f9e9f1d79496e4aa231a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:37 +0000
Subject: [PATCH 32/34] fix: grid bins of points whose range exceeds the box
 several times are wrapped to the right voxel

---
 freud/density/GaussianDensity.cc    | 12 +++++++++---
 freud/density/SphereVoxelization.cc | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index 0146196..5f70cef 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -98,6 +98,12 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
         return is_periodic ? std::min(last, bin - bin_cut + int(width) - 1) : last;
     };
 
+    // Index of the bin in the box that a bin is a periodic image of
+    const auto periodic_bin = [](int bin, unsigned int width) {
+        const int remainder = bin % int(width);
+        return remainder < 0 ? remainder + int(width) : remainder;
+    };
+
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
         // for each reference point
         for (size_t idx = begin; idx < end; ++idx)
@@ -165,9 +171,9 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
 
                             // Assure that out of range indices are corrected for storage
                             // in the array i.e. bin -1 is actually bin 29 for nbins = 30
-                            const auto ni = float((i + m_width.x) % m_width.x);
-                            const auto nj = float((j + m_width.y) % m_width.y);
-                            const auto nk = float((k + m_width.z) % m_width.z);
+                            const auto ni = float(periodic_bin(i, m_width.x));
+                            const auto nj = float(periodic_bin(j, m_width.y));
+                            const auto nk = float(periodic_bin(k, m_width.z));
 
                             // Store the gaussian contribution
                             local_bin_counts.local()(ni, nj, nk) += gaussian;
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index 5a29be3..5622665 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -84,6 +84,12 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
     const int bin_cut_z = m_box.is2D() ? 0 : int(std::ceil(m_r_max / grid_size_z));
     const float r_max_sq = m_r_max * m_r_max;
 
+    // Index of the bin in the box that a bin is a periodic image of
+    const auto periodic_bin = [](int bin, unsigned int width) {
+        const int remainder = bin % int(width);
+        return remainder < 0 ? remainder + int(width) : remainder;
+    };
+
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
         // for each reference point
         for (size_t idx = begin; idx < end; ++idx)
@@ -134,9 +140,9 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                         {
                             // Assure that out of range indices are corrected for storage
                             // in the array i.e. bin -1 is actually bin 29 for nbins = 30
-                            const unsigned int ni = (i + m_width.x) % m_width.x;
-                            const unsigned int nj = (j + m_width.y) % m_width.y;
-                            const unsigned int nk = (k + m_width.z) % m_width.z;
+                            const unsigned int ni = periodic_bin(i, m_width.x);
+                            const unsigned int nj = periodic_bin(j, m_width.y);
+                            const unsigned int nk = periodic_bin(k, m_width.z);
 
                             // This array value could be written by multiple threads in parallel.
                             // This is only safe because all threads are writing the same value (1).
-- 
2.43.0


From 1d5f5def5f1785029bcf7263be7fa7a55218b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:10 +0000
Subject: [PATCH 33/34] fix: diffraction patterns are the intensities at their
 k vectors

The image was transposed with respect to k_vectors, and for a rotated view the
points were rotated the other way than the box and the k vectors. The plot shows
k_x along x and k_y upwards.
---
 freud/diffraction.py | 6 +++---
 freud/plot.py        | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 609818b..d55ac61 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -654,8 +654,8 @@ class DiffractionPattern(_Compute):
         # Then shift using ss
         shear_matrix = np.array(
             [
-                [ss[1, 0], ss[0, 0], roll_shift],
-                [ss[1, 1], ss[0, 1], roll_shift],
+                [ss[0, 0], ss[1, 0], roll_shift],
+                [ss[0, 1], ss[1, 1], roll_shift],
                 [0, 0, 1],
             ]
         )
@@ -727,7 +727,7 @@ class DiffractionPattern(_Compute):
         inv_shear = self._calc_proj(view_orientation, system.box)
 
         # Rotate points by the view quaternion and shear by the box projection
-        xy = rowan.rotate(view_orientation, system.points)[:, 0:2]
+        xy = rowan.rotate(rowan.conjugate(view_orientation), system.points)[:, 0:2]
         xy = xy @ inv_shear.T
 
         # Normalize weights s.t. S(0) = N
diff --git a/freud/plot.py b/freud/plot.py
index 1d81f80..7baf330 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -548,12 +548,14 @@ def diffraction_plot(
     # Plot the diffraction image and color bar
     norm = matplotlib.colors.LogNorm(vmin=vmin, vmax=vmax)
     extent = (np.min(k_values), np.max(k_values), np.min(k_values), np.max(k_values))
+    # The first index of the diffraction pattern is along k_x.
     im = ax.imshow(
-        np.clip(diffraction, vmin, vmax),
+        np.clip(diffraction, vmin, vmax).T,
         interpolation="nearest",
         cmap=cmap,
         norm=norm,
         extent=extent,
+        origin="lower",
     )
     ax_divider = make_axes_locatable(ax)
     cax = ax_divider.append_axes("right", size="7%", pad="10%")
-- 
2.43.0


From 50c89d351d34585f4783692a344ea5889540ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:59 +0000
Subject: [PATCH 34/34] fix: NeighborList.filter refuses masks that do not have
 one value per bond

---
 freud/locality/export-NeighborList.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/locality/export-NeighborList.cc b/freud/locality/export-NeighborList.cc
index 1f1dced..cf44e99 100644
--- a/freud/locality/export-NeighborList.cc
+++ b/freud/locality/export-NeighborList.cc
@@ -6,6 +6,7 @@
 #include <nanobind/ndarray.h>
 #include <nanobind/operators.h>
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
+#include <stdexcept>
 
 #include "Box.h"
 #include "NeighborBond.h"
@@ -51,6 +52,10 @@ void ConstructAllPairs(NeighborList* nlist, const nb_array<const float, nb::shap
 unsigned int filter(const std::shared_ptr<NeighborList>& nlist,
                     const nb_array<const bool, nb::ndim<1>>& filter)
 {
+    if (filter.shape(0) != nlist->getNumBonds())
+    {
+        throw std::invalid_argument("The filter must have one value per bond of the NeighborList.");
+    }
     const bool* filter_data = (const bool*) filter.data();
     return nlist->filter(filter_data);
 }
-- 
2.43.0

