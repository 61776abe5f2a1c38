From 43b314b9c133ff8f3c7fdb7a78fe713bcc81cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 01/49] fix: LaneSRoute::Intersects() compares against every
 range on the same lane

---
 src/maliput/api/regions.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index 00289e0..3d3ceda 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -136,13 +136,11 @@ std::optional<LaneSRange> LaneSRange::GetIntersection(const LaneSRange& lane_s_r
 
 bool LaneSRoute::Intersects(const LaneSRoute& lane_s_route, double tolerance) const {
   for (const auto& s_range : ranges()) {
-    const auto lane_s_range_it =
-        std::find_if(lane_s_route.ranges().begin(), lane_s_route.ranges().end(),
-                     [s_range](const LaneSRange& lane_s_range) { return s_range.lane_id() == lane_s_range.lane_id(); });
-    if (lane_s_range_it != lane_s_route.ranges().end()) {
-      if (s_range.Intersects(*lane_s_range_it, tolerance)) {
-        return true;
-      }
+    const auto& other_ranges = lane_s_route.ranges();
+    if (std::any_of(other_ranges.begin(), other_ranges.end(), [&s_range, tolerance](const LaneSRange& lane_s_range) {
+          return s_range.Intersects(lane_s_range, tolerance);
+        })) {
+      return true;
     }
   }
   return false;
-- 
2.43.0


From b9ca27b27f49511ce9c127ed7dc6d17339b77854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 02/49] fix: IsIncluded() evaluates every range instead of
 stopping at the first nearby lane

---
 src/maliput/api/regions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index 3d3ceda..6047f71 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -159,7 +159,9 @@ bool IsIncluded(const InertialPosition& inertial_position, const std::vector<Lan
         road_geometry->ById().GetLane(lane_s_range.lane_id())->ToLanePosition(inertial_position);
     if (result.distance <= linear_tolerance) {
       const double s_position = result.lane_position.s();
-      return lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance);
+      if (lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance)) {
+        return true;
+      }
     }
   }
   return false;
-- 
2.43.0


From 56fb25d905a8c315d57a29945f5612fb7bc93d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 03/49] fix: Rotation::Distance() no longer returns NaN for
 (nearly) coincident rotations

---
 src/maliput/api/lane_data.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/lane_data.cc b/src/maliput/api/lane_data.cc
index 7540038..e442c02 100644
--- a/src/maliput/api/lane_data.cc
+++ b/src/maliput/api/lane_data.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/lane_data.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 
@@ -84,10 +85,14 @@ double Rotation::Distance(const Rotation& rot) const {
   const InertialPosition bs = rot.Apply({1., 0., 0.});
   const InertialPosition br = rot.Apply({0., 1., 0.});
   const InertialPosition bh = rot.Apply({0., 0., 1.});
-  // Compute angles between pairs of unit vectors.
-  const double ds = std::acos(as.xyz().dot(bs.xyz()));
-  const double dr = std::acos(ar.xyz().dot(br.xyz()));
-  const double dh = std::acos(ah.xyz().dot(bh.xyz()));
+  // Compute angles between pairs of unit vectors. The dot products are clamped because rounding may take them slightly
+  // out of the domain of std::acos().
+  const auto angle_between = [](const InertialPosition& a, const InertialPosition& b) {
+    return std::acos(std::max(std::min(a.xyz().dot(b.xyz()), 1.), -1.));
+  };
+  const double ds = angle_between(as, bs);
+  const double dr = angle_between(ar, br);
+  const double dh = angle_between(ah, bh);
 
   return std::sqrt((ds * ds) + (dr * dr) + (dh * dh));
 }
-- 
2.43.0


From 413fd52360c05e5d60bb3edec258225daa0937c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 04/49] fix: ManualRulebook removes rules with several ranges
 in the same lane

---
 src/maliput/base/manual_rulebook.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/maliput/base/manual_rulebook.cc b/src/maliput/base/manual_rulebook.cc
index 8d53c49..abae57e 100644
--- a/src/maliput/base/manual_rulebook.cc
+++ b/src/maliput/base/manual_rulebook.cc
@@ -280,9 +280,14 @@ class ManualRulebook::Impl {
 
     // Removes all associations involving `id` and `lane_id`.
     void RemoveRanges(const IdVariant& id, const LaneId& lane_id) {
-      map_.at(lane_id).erase(id);
-      if (map_[lane_id].empty()) {
-        map_.erase(lane_id);
+      // A rule's zone may have several ranges in the same lane, in which case they are all removed at once.
+      const auto it = map_.find(lane_id);
+      if (it == map_.end()) {
+        return;
+      }
+      it->second.erase(id);
+      if (it->second.empty()) {
+        map_.erase(it);
       }
     }
 
-- 
2.43.0


From 82f04b6a772cc7df41d9eb567bbd8b71653246dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 05/49] fix: ManualPhaseRingBook::AddPhaseRing() leaves the
 book unchanged when it throws

---
 src/maliput/base/manual_phase_ring_book.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/maliput/base/manual_phase_ring_book.cc b/src/maliput/base/manual_phase_ring_book.cc
index cb20aae..3e13343 100644
--- a/src/maliput/base/manual_phase_ring_book.cc
+++ b/src/maliput/base/manual_phase_ring_book.cc
@@ -51,27 +51,29 @@ class ManualPhaseRingBook::Impl {
   ~Impl() {}
 
   void AddPhaseRing(const PhaseRing& ring) {
-    auto result = ring_book_.emplace(ring.id(), ring);
-    if (!result.second) {
+    // All the preconditions are evaluated before modifying the book, which remains unchanged when any of them fails.
+    if (ring_book_.find(ring.id()) != ring_book_.end()) {
       throw std::logic_error("Attempted to add multiple PhaseRing instances with ID " + ring.id().string());
     }
     const Phase& phase = ring.phases().begin()->second;
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
     for (const auto& element : phase.rule_states()) {
-      auto r = right_of_way_rule_book_.emplace(element.first, ring.id());
-#pragma GCC diagnostic pop
-      if (!r.second) {
+      if (right_of_way_rule_book_.find(element.first) != right_of_way_rule_book_.end()) {
         throw std::logic_error("RightOfWayRule with ID " + element.first.string() +
                                " is part of more than one PhaseRing.");
       }
     }
     for (const auto& element : phase.discrete_value_rule_states()) {
-      auto r = rule_book_.emplace(element.first, ring.id());
-      if (!r.second) {
+      if (rule_book_.find(element.first) != rule_book_.end()) {
         throw std::logic_error("Rule with ID " + element.first.string() + " is part of more than one PhaseRing.");
       }
     }
+    ring_book_.emplace(ring.id(), ring);
+    for (const auto& element : phase.rule_states()) {
+      right_of_way_rule_book_.emplace(element.first, ring.id());
+    }
+    for (const auto& element : phase.discrete_value_rule_states()) {
+      rule_book_.emplace(element.first, ring.id());
+    }
   }
 
   void RemovePhaseRing(const PhaseRing::Id& ring_id) {
-- 
2.43.0


From 630e48f29cfa5bd85fdff9475e354aefe401f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 06/49] fix: PhaseRing rejects phases of which only some define
 bulb states

---
 src/maliput/api/rules/phase_ring.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index daee203..b55727d 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -66,6 +66,9 @@ void VerifyAllPhasesHaveSameCoverage(const PhaseRing::Id& id, const std::vector<
                            ") has duplicated discrete value rule states");
     }
     // Require both set of bulb states to be defined or undefined together.
+    MALIPUT_VALIDATE(phase.bulb_states().has_value() == r.bulb_states().has_value(),
+                     "PhaseRing(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
+                         ") must either both define or both omit bulb_states.");
     if (r.bulb_states() != std::nullopt) {
       MALIPUT_VALIDATE(phase.bulb_states()->size() == r.bulb_states()->size(),
                        "Phase(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
-- 
2.43.0


From 7745b4d4a4d70e9d11f3a8d41fa0eb52a41fb1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 07/49] fix: PhaseRing rejects next phases that are not part of
 the ring

---
 src/maliput/api/rules/phase_ring.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index b55727d..9637d36 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -92,6 +92,13 @@ void VerifyNextPhases(const PhaseRing::Id& id, const std::vector<Phase>& phases,
         next_phases.find(phase.id()) != next_phases.end(),
         "In PhaseRing(" + id.string() + "), the Phase(" + phase.id().string() + ") is not in next_phases.");
   }
+  for (const auto& phase_id_to_next_phases : next_phases) {
+    for (const auto& next_phase : phase_id_to_next_phases.second) {
+      MALIPUT_VALIDATE(next_phases.find(next_phase.id) != next_phases.end(),
+                       "In PhaseRing(" + id.string() + "), the next phase Phase(" + next_phase.id.string() +
+                           ") of Phase(" + phase_id_to_next_phases.first.string() + ") is not in the ring.");
+    }
+  }
 }
 
 }  // namespace
-- 
2.43.0


From b529c0f568d1331443236fce33b1841c8db55ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 08/49] fix: ThreadPool::Finish() ends a pool that was never
 started

---
 src/maliput/utility/thread_pool.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/maliput/utility/thread_pool.cc b/src/maliput/utility/thread_pool.cc
index 0b4b333..5c398e5 100644
--- a/src/maliput/utility/thread_pool.cc
+++ b/src/maliput/utility/thread_pool.cc
@@ -50,7 +50,12 @@ void ThreadPool::Start() {
 }
 
 void ThreadPool::Finish() {
-  is_finished_ = true;
+  {
+    // Threads of a pool that was never started wait for start_.
+    std::unique_lock<std::mutex> l_s(start_mutex_);
+    is_finished_ = true;
+    start_.notify_all();
+  }
   {
     std::unique_lock<std::mutex> l_t(tasks_mutex_);
     available_.notify_all();
@@ -70,9 +75,7 @@ void ThreadPool::cancel_pending() {
 void ThreadPool::DoWork() {
   {
     std::unique_lock<std::mutex> l_s(start_mutex_);
-    if (!is_running_) {
-      start_.wait(l_s, [&] { return is_running_.load(); });
-    }
+    start_.wait(l_s, [&] { return is_running_.load() || is_finished_.load(); });
   }
   while (true) {
     std::packaged_task<void()> f;
-- 
2.43.0


From bfc70c3446cc5e279c3005e64ae399ae74d50474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 09/49] fix: Rule::State equality compares related ids in both
 directions

---
 src/maliput/api/rules/rule.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/rules/rule.cc b/src/maliput/api/rules/rule.cc
index 8d3e6cd..a7c2105 100644
--- a/src/maliput/api/rules/rule.cc
+++ b/src/maliput/api/rules/rule.cc
@@ -29,6 +29,8 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/rules/rule.h"
 
+#include <algorithm>
+
 #include "maliput/common/maliput_throw.h"
 
 namespace maliput {
@@ -50,10 +52,8 @@ bool CompareMapAttributes(const std::map<std::string, std::vector<T>>& map_a,
     if (it == map_b.end()) {
       return false;
     }
-    for (const auto& value_id : key_val.second) {
-      if (std::find(it->second.begin(), it->second.end(), value_id) == it->second.end()) {
-        return false;
-      }
+    if (!std::is_permutation(key_val.second.begin(), key_val.second.end(), it->second.begin(), it->second.end())) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From f8d0675866cff8864c250a54048134f63fd78704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 10/49] fix: IntersectionBook::AddIntersection() reports
 duplicates instead of dereferencing a moved-from pointer

---
 src/maliput/base/intersection_book.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maliput/base/intersection_book.cc b/src/maliput/base/intersection_book.cc
index b8a19e9..b133f71 100644
--- a/src/maliput/base/intersection_book.cc
+++ b/src/maliput/base/intersection_book.cc
@@ -53,9 +53,10 @@ class IntersectionBook::Impl {
 
   void AddIntersection(std::unique_ptr<Intersection> intersection) {
     MALIPUT_THROW_UNLESS(intersection != nullptr);
-    auto result = book_.emplace(intersection->id(), std::move(intersection));
+    const Intersection::Id id = intersection->id();
+    auto result = book_.emplace(id, std::move(intersection));
     if (!result.second) {
-      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + intersection->id().string());
+      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + id.string());
     }
   }
 
-- 
2.43.0


From 4a0996505098e6cdfad2f12b05887f599c444a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 11/49] fix: BranchPoint does not keep a lane end that belongs
 to another branch point

---
 src/maliput/geometry_base/branch_point.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/maliput/geometry_base/branch_point.cc b/src/maliput/geometry_base/branch_point.cc
index 26f12ef..1ab2f3f 100644
--- a/src/maliput/geometry_base/branch_point.cc
+++ b/src/maliput/geometry_base/branch_point.cc
@@ -55,9 +55,7 @@ void BranchPoint::AddBranch(Lane* lane, api::LaneEnd::Which end, LaneEndSet* sid
   MALIPUT_THROW_UNLESS(confluent_branches_.count(lane_end) == 0);
   MALIPUT_THROW_UNLESS(ongoing_branches_.count(lane_end) == 0);
   LaneEndSet* const other_side = (side == &a_side_) ? &b_side_ : &a_side_;
-  side->Add(lane_end);
-  confluent_branches_[lane_end] = side;
-  ongoing_branches_[lane_end] = other_side;
+  // This throws when the end of the lane already belongs to another BranchPoint, so it goes before any bookkeeping.
   switch (end) {
     case api::LaneEnd::kStart: {
       lane->SetStartBranchPoint({}, this);
@@ -68,6 +66,10 @@ void BranchPoint::AddBranch(Lane* lane, api::LaneEnd::Which end, LaneEndSet* sid
       break;
     }
   }
+
+  side->Add(lane_end);
+  confluent_branches_[lane_end] = side;
+  ongoing_branches_[lane_end] = other_side;
 }
 
 void BranchPoint::SetDefault(const api::LaneEnd& lane_end, const api::LaneEnd& default_branch) {
-- 
2.43.0


From aad949361d4bd6db87646ea4fa179edea50b6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 12/49] fix: KDTreeStrategy considers lane volumes between and
 above its samples, once per lane

---
 .../maliput/geometry_base/kd_tree_strategy.h  |  7 ++++++
 src/maliput/geometry_base/kd_tree_strategy.cc | 23 ++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/maliput/geometry_base/kd_tree_strategy.h b/include/maliput/geometry_base/kd_tree_strategy.h
index 41353d6..ddfcc7d 100644
--- a/include/maliput/geometry_base/kd_tree_strategy.h
+++ b/include/maliput/geometry_base/kd_tree_strategy.h
@@ -91,9 +91,16 @@ class KDTreeStrategy final : public StrategyBase {
   // The region is an axis-aligned box with the point as center and the distance as half of the box's edge length.
   std::deque<const api::Lane*> ClosestLanes(const api::InertialPosition& point, double half_edge_length) const;
 
+  // Upper bound of the distance between any point in the volume of a lane and the closest sample of that lane: the
+  // samples are taken every sampling_step_ in `s` and `r`, and at `h = 0` only.
+  double SamplingSlack() const { return 2. * sampling_step_ + max_elevation_; }
+
   std::unique_ptr<math::KDTree3D<MaliputPoint>> kd_tree_;
 
   const double sampling_step_;
+
+  // Maximum absolute elevation bound of the lanes.
+  double max_elevation_{0.};
 };
 
 }  // namespace geometry_base
diff --git a/src/maliput/geometry_base/kd_tree_strategy.cc b/src/maliput/geometry_base/kd_tree_strategy.cc
index 142fd50..777ba84 100644
--- a/src/maliput/geometry_base/kd_tree_strategy.cc
+++ b/src/maliput/geometry_base/kd_tree_strategy.cc
@@ -31,7 +31,9 @@
 #include "maliput/geometry_base/kd_tree_strategy.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstdlib>
+#include <unordered_set>
 
 #include "maliput/math/kd_tree.h"
 
@@ -47,6 +49,8 @@ KDTreeStrategy::KDTreeStrategy(const api::RoadGeometry* rg, const double samplin
     for (double s = 0; s <= lane_length; s += sampling_step_) {
       const auto lane_bounds = lane.second->lane_bounds(s);
       for (double r = lane_bounds.min(); r <= lane_bounds.max(); r += sampling_step_) {
+        const auto elevation_bounds = lane.second->elevation_bounds(s, r);
+        max_elevation_ = std::max({max_elevation_, std::abs(elevation_bounds.min()), std::abs(elevation_bounds.max())});
         const auto inertial_pos = lane.second->ToInertialPosition({s, r, 0. /* h */}).xyz();
         points.push_back(MaliputPoint{{inertial_pos.x(), inertial_pos.y(), inertial_pos.z()}, lane.second});
       }
@@ -67,7 +71,8 @@ api::RoadPositionResult KDTreeStrategy::DoToRoadPosition(const api::InertialPosi
 
 std::vector<api::RoadPositionResult> KDTreeStrategy::DoFindRoadPositions(const api::InertialPosition& inertial_position,
                                                                          double radius) const {
-  const auto closest_lanes = this->ClosestLanes(inertial_position, radius);
+  // The samples of a lane may be farther away than the lane itself.
+  const auto closest_lanes = this->ClosestLanes(inertial_position, radius + SamplingSlack());
   std::vector<api::RoadPositionResult> road_positions;
   for (const auto& lane : closest_lanes) {
     MALIPUT_THROW_UNLESS(lane != nullptr);
@@ -85,8 +90,8 @@ api::RoadPositionResult KDTreeStrategy::ClosestLane(const api::InertialPosition&
   const MaliputPoint maliput_point = kd_tree_->nearest_point(MaliputPoint{point.xyz()});
   // As the kd-tree is built with a sampling step, the closest point may not be the closest lane.
   // Therefore, we search for the closest lane in a axis-aligned box whose half edge length is the distance between the
-  // nearest point and the given point plus twice the sampling_step_.
-  const double half_edge_length = (point.xyz() - maliput_point).norm() + 2. * sampling_step_;
+  // nearest point and the given point plus how far a lane's volume may be from its closest sample.
+  const double half_edge_length = (point.xyz() - maliput_point).norm() + SamplingSlack();
   const std::deque<const api::Lane*> closest_lanes = ClosestLanes(point, half_edge_length);
 
   // Once we have the lanes in the region, we search for the closest lane relying on the lane's ToLanePosition method.
@@ -118,9 +123,15 @@ std::deque<const api::Lane*> KDTreeStrategy::ClosestLanes(const api::InertialPos
                                  point.z() + half_edge_length};
   const math::AxisAlignedBox search_region{min_corner, max_corner};
   const std::deque<const MaliputPoint*> maliput_points = kd_tree_->RangeSearch(search_region);
-  std::deque<const api::Lane*> maliput_lanes(maliput_points.size());
-  std::transform(maliput_points.begin(), maliput_points.end(), maliput_lanes.begin(),
-                 [](const MaliputPoint* point) { return point->get_lane().value(); });
+  // There are several samples per lane.
+  std::deque<const api::Lane*> maliput_lanes;
+  std::unordered_set<const api::Lane*> visited;
+  for (const MaliputPoint* maliput_point : maliput_points) {
+    const api::Lane* lane = maliput_point->get_lane().value();
+    if (visited.insert(lane).second) {
+      maliput_lanes.push_back(lane);
+    }
+  }
   return maliput_lanes;
 }
 }  // namespace geometry_base
-- 
2.43.0


From 4a41eaea813ac791da2c08c1537831f5b8ccd4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 13/49] fix: FindRoadPositions() with a zero radius uses the
 linear tolerance

---
 .../brute_force_find_road_positions_strategy.cc             | 4 +++-
 src/maliput/geometry_base/brute_force_strategy.cc           | 4 +++-
 src/maliput/geometry_base/kd_tree_strategy.cc               | 6 ++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/maliput/geometry_base/brute_force_find_road_positions_strategy.cc b/src/maliput/geometry_base/brute_force_find_road_positions_strategy.cc
index 3e49c21..ac15413 100644
--- a/src/maliput/geometry_base/brute_force_find_road_positions_strategy.cc
+++ b/src/maliput/geometry_base/brute_force_find_road_positions_strategy.cc
@@ -43,6 +43,8 @@ std::vector<maliput::api::RoadPositionResult> BruteForceFindRoadPositionsStrateg
     const maliput::api::RoadGeometry* rg, const maliput::api::InertialPosition& inertial_position, double radius) {
   MALIPUT_THROW_UNLESS(rg != nullptr);
   MALIPUT_THROW_UNLESS(radius >= 0.);
+  // A zero radius asks for the lanes that contain the position up to the linear tolerance.
+  const double max_distance = radius == 0. ? rg->linear_tolerance() : radius;
 
   std::vector<maliput::api::RoadPositionResult> road_position_results;
 
@@ -57,7 +59,7 @@ std::vector<maliput::api::RoadPositionResult> BruteForceFindRoadPositionsStrateg
         MALIPUT_THROW_UNLESS(lane != nullptr);
         maliput::api::InertialPosition nearest_position;
         const maliput::api::LanePositionResult result = lane->ToLanePosition(inertial_position);
-        if (radius == std::numeric_limits<double>::infinity() || result.distance <= radius) {
+        if (radius == std::numeric_limits<double>::infinity() || result.distance <= max_distance) {
           road_position_results.push_back(
               {api::RoadPosition(lane, result.lane_position), result.nearest_position, result.distance});
         }
diff --git a/src/maliput/geometry_base/brute_force_strategy.cc b/src/maliput/geometry_base/brute_force_strategy.cc
index 35efdd0..dfc11c7 100644
--- a/src/maliput/geometry_base/brute_force_strategy.cc
+++ b/src/maliput/geometry_base/brute_force_strategy.cc
@@ -81,6 +81,8 @@ std::vector<maliput::api::RoadPositionResult> BruteForceStrategy::DoFindRoadPosi
   const api::RoadGeometry* rg = get_road_geometry();
   MALIPUT_THROW_UNLESS(rg != nullptr);
   MALIPUT_THROW_UNLESS(radius >= 0.);
+  // A zero radius asks for the lanes that contain the position up to the linear tolerance.
+  const double max_distance = radius == 0. ? rg->linear_tolerance() : radius;
 
   std::vector<maliput::api::RoadPositionResult> road_position_results;
 
@@ -95,7 +97,7 @@ std::vector<maliput::api::RoadPositionResult> BruteForceStrategy::DoFindRoadPosi
         MALIPUT_THROW_UNLESS(lane != nullptr);
         maliput::api::InertialPosition nearest_position;
         const maliput::api::LanePositionResult result = lane->ToLanePosition(inertial_position);
-        if (radius == std::numeric_limits<double>::infinity() || result.distance <= radius) {
+        if (radius == std::numeric_limits<double>::infinity() || result.distance <= max_distance) {
           road_position_results.push_back(
               {api::RoadPosition(lane, result.lane_position), result.nearest_position, result.distance});
         }
diff --git a/src/maliput/geometry_base/kd_tree_strategy.cc b/src/maliput/geometry_base/kd_tree_strategy.cc
index 777ba84..eb92872 100644
--- a/src/maliput/geometry_base/kd_tree_strategy.cc
+++ b/src/maliput/geometry_base/kd_tree_strategy.cc
@@ -71,13 +71,15 @@ api::RoadPositionResult KDTreeStrategy::DoToRoadPosition(const api::InertialPosi
 
 std::vector<api::RoadPositionResult> KDTreeStrategy::DoFindRoadPositions(const api::InertialPosition& inertial_position,
                                                                          double radius) const {
+  // A zero radius asks for the lanes that contain the position up to the linear tolerance.
+  const double max_distance = radius == 0. ? get_road_geometry()->linear_tolerance() : radius;
   // The samples of a lane may be farther away than the lane itself.
-  const auto closest_lanes = this->ClosestLanes(inertial_position, radius + SamplingSlack());
+  const auto closest_lanes = this->ClosestLanes(inertial_position, max_distance + SamplingSlack());
   std::vector<api::RoadPositionResult> road_positions;
   for (const auto& lane : closest_lanes) {
     MALIPUT_THROW_UNLESS(lane != nullptr);
     const auto lane_position = lane->ToLanePosition(inertial_position);
-    if (lane_position.distance <= radius) {
+    if (lane_position.distance <= max_distance) {
       road_positions.push_back(
           {{lane, lane_position.lane_position}, lane_position.nearest_position, lane_position.distance});
     }
-- 
2.43.0


From 8f9070a597556bc49763307f9781b7a685211986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 14/49] fix: KDTree::nearest_point() compares the squared
 distance to the squared tolerance

---
 include/maliput/math/kd_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maliput/math/kd_tree.h b/include/maliput/math/kd_tree.h
index e998d8b..43240b3 100644
--- a/include/maliput/math/kd_tree.h
+++ b/include/maliput/math/kd_tree.h
@@ -318,7 +318,7 @@ class KDTreeBase {
       nearest_neighbour_node = const_cast<Node*>(node);
     }
     // If the distance is less than tolerance, return
-    if (*nearest_neighbour_distance < tolerance) return;
+    if (*nearest_neighbour_distance < tolerance * tolerance) return;
     // Evaluate if moving to right or left node.
     const double dx = node->get_coordinate()[index] - point[index];
     // Compute index value for the next MakeTree call.
-- 
2.43.0


From f24b99da4b8f0bc0958dff54353c77a0ab6ee670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 15/49] fix: ToRoadPosition() prefers the segment with the
 minimum height among the ones that contain the position

---
 src/maliput/geometry_base/strategy_base.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/maliput/geometry_base/strategy_base.cc b/src/maliput/geometry_base/strategy_base.cc
index 8fb384d..89a159e 100644
--- a/src/maliput/geometry_base/strategy_base.cc
+++ b/src/maliput/geometry_base/strategy_base.cc
@@ -45,6 +45,18 @@ bool IsNewRoadPositionResultCloser(const maliput::api::RoadPositionResult& new_r
     return false;
   }
 
+  // They are almost equal. When the positions belong to different segments, the one with the minimum height prevails.
+  const maliput::api::LanePosition& new_lane_position = new_road_position_result.road_position.pos;
+  const maliput::api::LanePosition& current_lane_position = road_position_result.road_position.pos;
+  if (new_road_position_result.road_position.lane->segment() != road_position_result.road_position.lane->segment()) {
+    const double delta_h = new_lane_position.h() - current_lane_position.h();
+    if (delta_h < -1e-12) {
+      return true;
+    }
+    if (delta_h >= 1e-12) {
+      return false;
+    }
+  }
   auto is_within_lane_bounds = [](double r, const maliput::api::RBounds& lane_bounds) {
     return r >= lane_bounds.min() && r < lane_bounds.max();
   };
-- 
2.43.0


From b3b4cc8047df97c72ab0babc4c07ba964872221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 16/49] fix: BoundingBox applies its orientation consistently

---
 src/maliput/math/bounding_box.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/math/bounding_box.cc b/src/maliput/math/bounding_box.cc
index 178b004..a81a1ad 100644
--- a/src/maliput/math/bounding_box.cc
+++ b/src/maliput/math/bounding_box.cc
@@ -56,7 +56,7 @@ std::vector<Vector3> BoundingBox::get_vertices() const {
   };
   std::vector<Vector3> vertices;
   for (const auto& vertex : vertices_box_frame) {
-    vertices.push_back(orientation_.ToMatrix().inverse() * vertex + position_);
+    vertices.push_back(orientation_.ToMatrix() * vertex + position_);
   }
   return vertices;
 }
@@ -66,7 +66,7 @@ const Vector3& BoundingBox::box_size() const { return box_size_; }
 const RollPitchYaw& BoundingBox::get_orientation() const { return orientation_; }
 
 bool BoundingBox::DoContains(const Vector3& position) const {
-  const Vector3 box_frame_position = orientation_.ToMatrix() * (position - position_);
+  const Vector3 box_frame_position = orientation_.ToMatrix().inverse() * (position - position_);
   return box_frame_position.x() <= xyz_2_.x() + tolerance_ && box_frame_position.x() >= -xyz_2_.x() - tolerance_ &&
          box_frame_position.y() <= xyz_2_.y() + tolerance_ && box_frame_position.y() >= -xyz_2_.y() - tolerance_ &&
          box_frame_position.z() <= xyz_2_.z() + tolerance_ && box_frame_position.z() >= -xyz_2_.z() - tolerance_;
@@ -96,7 +96,7 @@ bool BoundingBox::IsBoxIntersected(const BoundingBox& other) const {
   // Let's compute the relative transformation from this box to the other box.
   // For the purposes of streamlining the math below, translation and rotation
   // will be named `t` and `r` respectively.
-  const Vector3 t = other.position() - position();
+  const Vector3 t = get_orientation().ToMatrix().inverse() * (other.position() - position());
   const Matrix3 r = get_orientation().ToMatrix().inverse() * other.get_orientation().ToMatrix();
 
   // Compute some common subexpressions and add epsilon to counteract
@@ -113,7 +113,7 @@ bool BoundingBox::IsBoxIntersected(const BoundingBox& other) const {
   // First category of cases separating along a's axes.
   for (int i = 0; i < 3; ++i) {
     // if (std::abs(t[i]) > xyz_2_[i] + other.xyz_2_.dot(abs_r.block<1, 3>(i, 0))) {
-    const Vector3 abs_r_i = abs_r.col(i);
+    const Vector3 abs_r_i = abs_r.row(i);
     if (std::abs(t[i]) > xyz_2_[i] + other.xyz_2_.dot(abs_r_i)) {
       return false;
     }
-- 
2.43.0


From c6410e43de95c41270eb5d6e21764392b9f0d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 17/49] fix: SampleAheadWaypoints() samples ranges that go
 against the lane's direction

---
 src/maliput/api/road_geometry.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/maliput/api/road_geometry.cc b/src/maliput/api/road_geometry.cc
index 672c89d..de9d52e 100644
--- a/src/maliput/api/road_geometry.cc
+++ b/src/maliput/api/road_geometry.cc
@@ -229,13 +229,15 @@ std::vector<InertialPosition> RoadGeometry::DoSampleAheadWaypoints(const LaneSRo
     MALIPUT_THROW_UNLESS(lane != nullptr);
     const SRange lane_s_range = range.s_range();
 
-    double step_accumulator = previous_s_difference + lane_s_range.s0() + path_length_sampling_rate;
-
-    while (step_accumulator <= lane_s_range.s1()) {
-      waypoints.emplace_back(lane->ToInertialPosition(LanePosition(step_accumulator, 0.0, 0.0)));
+    // The range may go against the direction of the lane.
+    const double direction = lane_s_range.WithS() ? 1. : -1.;
+    double step_accumulator = previous_s_difference + path_length_sampling_rate;
+    while (step_accumulator <= lane_s_range.size()) {
+      waypoints.emplace_back(
+          lane->ToInertialPosition(LanePosition(lane_s_range.s0() + direction * step_accumulator, 0.0, 0.0)));
       step_accumulator += path_length_sampling_rate;
     }
-    previous_s_difference = step_accumulator - lane_s_range.s1() - path_length_sampling_rate;
+    previous_s_difference = step_accumulator - lane_s_range.size() - path_length_sampling_rate;
   }
   if (std::abs(previous_s_difference) > linear_tolerance()) {
     const Lane* last_lane = id.GetLane(ranges.back().lane_id());
-- 
2.43.0


From c5d8b21c4fb4652167c8443bfc2c94535888c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 18/49] fix: FindLaneSequences() detects U-turns by the end
 each lane is entered and left through

---
 src/maliput/routing/find_lane_sequences.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maliput/routing/find_lane_sequences.cc b/src/maliput/routing/find_lane_sequences.cc
index fbf6d75..3f0696e 100644
--- a/src/maliput/routing/find_lane_sequences.cc
+++ b/src/maliput/routing/find_lane_sequences.cc
@@ -142,8 +142,8 @@ bool HasUTurn(const std::vector<const Lane*>& lane_sequence) {
   for (size_t i = 1; i < lane_sequence.size() - 1u; ++i) {
     // Obtain the following connection_set.
     const ConnectionSet next_connection_set = BuildConnectionSet(lane_sequence[i], lane_sequence[i + 1]);
-    // Evaluate if there is a U turn.
-    if (next_connection_set.ongoing.end == connection_set.incoming.end) {
+    // Evaluate if there is a U turn: the Lane is left through the same end it was entered.
+    if (next_connection_set.incoming.end == connection_set.ongoing.end) {
       return true;
     }
     connection_set = next_connection_set;
-- 
2.43.0


From 6aac6cf943663b831ab8f72d0e9250e31bdc74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 19/49] fix: BuildGraph() keeps every branch point in its node
 and merges the nodes a segment connects

---
 src/maliput/routing/graph/graph.cc | 88 ++++++++++++++++++------------
 1 file changed, 53 insertions(+), 35 deletions(-)

diff --git a/src/maliput/routing/graph/graph.cc b/src/maliput/routing/graph/graph.cc
index 0f06863..d69dd0d 100644
--- a/src/maliput/routing/graph/graph.cc
+++ b/src/maliput/routing/graph/graph.cc
@@ -29,8 +29,9 @@
 #include "maliput/routing/graph/graph.h"
 
 #include <functional>
-#include <optional>
+#include <set>
 #include <string>
+#include <vector>
 
 #include "maliput/common/maliput_throw.h"
 
@@ -55,43 +56,63 @@ std::set<const api::BranchPoint*> GetBranchPoints(const api::Segment* segment, c
   return branch_points;
 }
 
-// Finds a Node in @p graph by containing at least one branch point in @p branch_points.
+// Finds the IDs of the Nodes in @p graph that contain at least one branch point in @p branch_points.
 //
 // @param graph The Graph containing the Nodes to search through.
-// @param branch_points The set of api::BranchPoints whose items should be found in one of the Nodes in @p graph.
-// @return An optional containing the matched Node. Otherwise, std::nullopt.
-std::optional<Node> FindNode(const Graph& graph, std::set<const api::BranchPoint*> branch_points) {
+// @param branch_points The set of api::BranchPoints whose items should be found in the Nodes in @p graph.
+// @return The IDs of the matched Nodes.
+std::vector<NodeId> FindNodes(const Graph& graph, const std::set<const api::BranchPoint*>& branch_points) {
+  std::vector<NodeId> result;
   for (const auto& id_node : graph.nodes) {
-    if (std::any_of(branch_points.begin(), branch_points.end(), [n = id_node.second](const auto bp) {
+    if (std::any_of(branch_points.begin(), branch_points.end(), [&n = id_node.second](const auto bp) {
           return n.branch_points.find(bp) != n.branch_points.end();
         })) {
-      return {id_node.second};
+      result.push_back(id_node.first);
     }
   }
-  return {};
+  return result;
 }
 
-// Gets a Node from @p graph, or creates one, with @p branch_points.
+// Moves the api::BranchPoints and the Edges of the @p from Node into the @p to Node and removes the @p from Node.
 //
-// When there is no Node found in @p graph, a new Node is created and returned. Note that
-// @p graph is not changed, but the returned Node might be changed relative to what's in
-// @p graph as it'll always contain at least @p branch_points.
+// @param from The ID of the Node to remove. It must exist in @p graph and be different than @p to.
+// @param to The ID of the Node that remains. It must exist in @p graph.
+// @param graph The Graph to modify.
+void MergeNodes(const NodeId& from, const NodeId& to, Graph* graph) {
+  const Node merged_node = graph->nodes.at(from);
+  Node& node = graph->nodes.at(to);
+  node.branch_points.insert(merged_node.branch_points.begin(), merged_node.branch_points.end());
+  node.edges.insert(merged_node.edges.begin(), merged_node.edges.end());
+  for (const EdgeId& edge_id : merged_node.edges) {
+    Edge& edge = graph->edges.at(edge_id);
+    edge.node_a = edge.node_a == from ? to : edge.node_a;
+    edge.node_b = edge.node_b == from ? to : edge.node_b;
+  }
+  graph->nodes.erase(from);
+}
+
+// Gets the ID of the Node of @p graph that contains @p branch_points.
+//
+// When there is no Node in @p graph with any of @p branch_points, a new one is added. When there is more than one, they
+// are merged as @p branch_points connects them.
 //
-// @param graph The Graph to look for the matching Node.
 // @param branch_points The set of api::BranchPoints to match the Node in @p graph.
 // @param id_generator A functor to obtain an ID for Nodes.
-// @return A Node whose api::BranchPoints set contains @p branch_points.
-Node GetNode(const Graph& graph, std::set<const api::BranchPoint*> branch_points,
-             std::function<NodeId()> id_generator) {
-  const std::optional<Node> node_result = FindNode(graph, branch_points);
-  if (node_result.has_value()) {
-    Node node = node_result.value();
-    for (const api::BranchPoint* bp : branch_points) {
-      node.branch_points.insert(bp);
-    }
-    return node_result.value();
+// @param graph The Graph to look for the matching Node.
+// @return The ID of the Node whose api::BranchPoints set contains @p branch_points.
+NodeId GetNode(const std::set<const api::BranchPoint*>& branch_points, std::function<NodeId()> id_generator,
+               Graph* graph) {
+  const std::vector<NodeId> node_ids = FindNodes(*graph, branch_points);
+  if (node_ids.empty()) {
+    const NodeId node_id = id_generator();
+    graph->nodes.emplace(node_id, Node{node_id, branch_points, {}});
+    return node_id;
+  }
+  for (size_t i = 1u; i < node_ids.size(); ++i) {
+    MergeNodes(node_ids[i], node_ids[0], graph);
   }
-  return Node{id_generator(), branch_points, {}};
+  graph->nodes.at(node_ids[0]).branch_points.insert(branch_points.begin(), branch_points.end());
+  return node_ids[0];
 }
 
 }  // namespace
@@ -112,17 +133,14 @@ Graph BuildGraph(const api::RoadGeometry* rg) {
       const std::set<const api::BranchPoint*> end_branch_points =
           GetBranchPoints(segment, api::LaneEnd::Which::kFinish);
 
-      Node start_node = GetNode(graph, start_branch_points, node_id_generator);
-      Node end_node = GetNode(graph, end_branch_points, node_id_generator);
-
-      Edge edge{EdgeId(segment->id().string()), segment, start_node.id, end_node.id};
-
-      start_node.edges.insert(edge.id);
-      end_node.edges.insert(edge.id);
-
-      graph.edges.insert_or_assign(edge.id, edge);
-      graph.nodes.insert_or_assign(start_node.id, start_node);
-      graph.nodes.insert_or_assign(end_node.id, end_node);
+      const EdgeId edge_id(segment->id().string());
+      const NodeId start_node_id = GetNode(start_branch_points, node_id_generator, &graph);
+      graph.edges.insert_or_assign(edge_id, Edge{edge_id, segment, start_node_id, start_node_id});
+      graph.nodes.at(start_node_id).edges.insert(edge_id);
+      // When it merges the start node into another one, the edge is updated.
+      const NodeId end_node_id = GetNode(end_branch_points, node_id_generator, &graph);
+      graph.edges.at(edge_id).node_b = end_node_id;
+      graph.nodes.at(end_node_id).edges.insert(edge_id);
     }
   }
 
-- 
2.43.0


From df1f614660f976685f1df6987d1a1894e4668474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 20/49] fix: DeriveLaneSRoutes() leaves and enters consecutive
 lanes through the same connection

---
 src/maliput/routing/derive_lane_s_routes.cc | 63 ++++++++++++++-------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/maliput/routing/derive_lane_s_routes.cc b/src/maliput/routing/derive_lane_s_routes.cc
index 0d7a512..138648b 100644
--- a/src/maliput/routing/derive_lane_s_routes.cc
+++ b/src/maliput/routing/derive_lane_s_routes.cc
@@ -52,6 +52,37 @@ bool LaneExistsInSet(const api::LaneEndSet* set, const api::Lane& lane) {
   return false;
 }
 
+// A connection between the ends of two consecutive lanes in a sequence.
+struct Connection {
+  // End of the lane that is left.
+  api::LaneEnd::Which exit;
+  // End of the next lane that is entered.
+  api::LaneEnd::Which entry;
+};
+
+// Finds the connection between @p lane and @p next_lane. When they are connected at both ends of @p lane, the one at
+// @p preferred_exit is used.
+// @throws common::assertion_error When @p lane and @p next_lane are not connected.
+Connection FindConnection(const api::Lane& lane, const api::Lane& next_lane, api::LaneEnd::Which preferred_exit) {
+  const api::LaneEnd::Which other_exit =
+      preferred_exit == api::LaneEnd::kFinish ? api::LaneEnd::kStart : api::LaneEnd::kFinish;
+  for (const api::LaneEnd::Which exit : {preferred_exit, other_exit}) {
+    const api::LaneEndSet* set = lane.GetOngoingBranches(exit);
+    MALIPUT_THROW_UNLESS(set != nullptr);
+    for (int i = 0; i < set->size(); ++i) {
+      if (set->get(i).lane == &next_lane) {
+        return {exit, set->get(i).end};
+      }
+    }
+  }
+  MALIPUT_THROW_MESSAGE("Lane " + lane.id().string() + " is not connected to lane " + next_lane.id().string());
+}
+
+// Returns the S coordinate of @p end of @p lane.
+double GetEndS(const api::Lane& lane, api::LaneEnd::Which end) {
+  return end == api::LaneEnd::kFinish ? lane.length() : 0.;
+}
+
 }  // namespace
 
 std::optional<double> DetermineEdgeS(const api::Lane& lane, const api::Lane& next_lane) {
@@ -88,27 +119,21 @@ std::vector<api::LaneSRoute> DeriveLaneSRoutes(const api::RoadPosition& start, c
     }
 
     // Handles the case when lane_sequence has a length greater than 1.
-    for (size_t i = 0; i < lane_sequence.size(); ++i) {
+    // The exit of each lane and the entry to the following one belong to the same connection.
+    MALIPUT_THROW_UNLESS(lane_sequence.front()->id() == start.lane->id());
+    MALIPUT_THROW_UNLESS(lane_sequence.back()->id() == end.lane->id());
+    double lane_start_s = start_s;
+    api::LaneEnd::Which preferred_exit = api::LaneEnd::kFinish;
+    for (size_t i = 0; i + 1 < lane_sequence.size(); ++i) {
       const api::Lane* lane = lane_sequence.at(i);
-      MALIPUT_THROW_UNLESS(lane != nullptr);
-      if (i == 0) {
-        MALIPUT_THROW_UNLESS(lane->id() == start.lane->id());
-        const std::optional<double> first_end_s = DetermineEdgeS(*lane, *lane_sequence.at(1));
-        MALIPUT_THROW_UNLESS(first_end_s.has_value());
-        ranges.emplace_back(lane->id(), api::SRange(start_s, first_end_s.value()));
-      } else if (i + 1 == lane_sequence.size()) {
-        MALIPUT_THROW_UNLESS(lane->id() == end.lane->id());
-        MALIPUT_THROW_UNLESS(i > 0);
-        const std::optional<double> last_start_s = DetermineEdgeS(*lane, *lane_sequence.at(i - 1));
-        MALIPUT_THROW_UNLESS(last_start_s.has_value());
-        ranges.emplace_back(lane->id(), api::SRange(last_start_s.value(), end_s));
-      } else {
-        const std::optional<double> middle_start_s = DetermineEdgeS(*lane, *lane_sequence.at(i - 1));
-        const std::optional<double> middle_end_s = DetermineEdgeS(*lane, *lane_sequence.at(i + 1));
-        MALIPUT_THROW_UNLESS(middle_start_s && middle_end_s);
-        ranges.emplace_back(lane->id(), api::SRange(middle_start_s.value(), middle_end_s.value()));
-      }
+      const api::Lane* next_lane = lane_sequence.at(i + 1);
+      MALIPUT_THROW_UNLESS(lane != nullptr && next_lane != nullptr);
+      const Connection connection = FindConnection(*lane, *next_lane, preferred_exit);
+      ranges.emplace_back(lane->id(), api::SRange(lane_start_s, GetEndS(*lane, connection.exit)));
+      lane_start_s = GetEndS(*next_lane, connection.entry);
+      preferred_exit = connection.entry == api::LaneEnd::kFinish ? api::LaneEnd::kStart : api::LaneEnd::kFinish;
     }
+    ranges.emplace_back(end.lane->id(), api::SRange(lane_start_s, end_s));
     result.emplace_back(ranges);
   }
   return result;
-- 
2.43.0


From e81e1b4c074e0e4c9b7e14033d8adbb302e9c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 21/49] fix: Route::ComputeLaneSRoute() moves towards the
 closest straight predecessor

---
 src/maliput/routing/route.cc | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/maliput/routing/route.cc b/src/maliput/routing/route.cc
index c0875e3..6f13728 100644
--- a/src/maliput/routing/route.cc
+++ b/src/maliput/routing/route.cc
@@ -337,31 +337,19 @@ std::optional<Route::LaneSRangeIndex> Route::FindStraightPredecessor(const Route
 
 int Route::FindDirectionTowardsLaneSRangeWithStraightPredecessor(const Route::LaneSRangeIndex& index) const {
   const Phase& current_phase = Get(index.phase);
-  const size_t min_current_index = 0u;
-  const size_t max_current_index = current_phase.lane_s_ranges().size() - 1u;
-
-  // Quick checks before looking for one side.
-  if (index.lane_s_range == min_current_index) {  // This is the top right index, move to the left.
-    return kTowardsLeft;
-  } else if (index.lane_s_range == max_current_index) {  // This is the top right index, move to the right.
-    return kTowardsRight;
-  }
-
-  // Evaluate if there are less elements to the right than to the left.
-  if (index.lane_s_range <= (max_current_index - max_current_index)) {
-    for (size_t i = index.lane_s_range - 1; i >= min_current_index; i--) {
-      if (FindStraightPredecessor({index.phase, i} /* right_index */).has_value()) {
-        return kTowardsRight;
-      }
-    }
-    return kTowardsLeft;
-  }
-  for (size_t i = index.lane_s_range + 1; i <= max_current_index; i++) {
-    if (FindStraightPredecessor({index.phase, i} /* left_index */).has_value()) {
+  const size_t num_lane_s_ranges = current_phase.lane_s_ranges().size();
+  // Look for the straight predecessor that is the fewest hops away, at both sides.
+  for (size_t hops = 1u; hops < num_lane_s_ranges; ++hops) {
+    const size_t left_index = index.lane_s_range + hops;
+    if (left_index < num_lane_s_ranges && FindStraightPredecessor({index.phase, left_index}).has_value()) {
       return kTowardsLeft;
     }
+    if (index.lane_s_range >= hops && FindStraightPredecessor({index.phase, index.lane_s_range - hops}).has_value()) {
+      return kTowardsRight;
+    }
   }
-  return kTowardsRight;
+  // There is no straight predecessor at any side.
+  return index.lane_s_range == 0u ? kTowardsLeft : kTowardsRight;
 }
 
 namespace {
-- 
2.43.0


From 7b5688b17d5f698eb7cf331999caf923674706ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 22/49] fix: Route::ComputeLaneSRoute() moves start positions
 outside of the route into it

---
 src/maliput/routing/route.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/maliput/routing/route.cc b/src/maliput/routing/route.cc
index 6f13728..5ccfddd 100644
--- a/src/maliput/routing/route.cc
+++ b/src/maliput/routing/route.cc
@@ -214,10 +214,13 @@ api::LaneSRoute Route::ComputeLaneSRoute(const api::RoadPosition& start_position
   const api::LaneSRange end_point(end_position.lane->id(), api::SRange(end_position.pos.s(), end_position.pos.s()));
   const api::LaneSRange start_point(start_position.lane->id(),
                                     api::SRange(start_position.pos.s(), start_position.pos.s()));
-
-  const std::optional<LaneSRangeIndex> start_index = FindLaneSRangeIndex(start_point);
-  MALIPUT_THROW_UNLESS(start_index.has_value());
-
+  std::optional<LaneSRangeIndex> start_index = FindLaneSRangeIndex(start_point);
+  if (!start_index.has_value()) {
+    // The start position is not within this Route, the closest position to it is used instead.
+    const RoutePositionResult result = FindRoutePosition(start_position);
+    start_index = LaneSRangeIndex{static_cast<size_t>(result.phase_index),
+                                  static_cast<size_t>(result.phase_position_result.lane_s_range_index)};
+  }
   const std::optional<LaneSRangeIndex> end_index = FindLaneSRangeIndex(end_point);
   MALIPUT_THROW_UNLESS(end_index.has_value());
 
-- 
2.43.0


From d2520cc466345a18578d28228870e83bd7ce0c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:31 +0000
Subject: [PATCH 23/49] fix: DistanceRouter discards the paths that take a
 U-turn at the start or end segment instead of throwing

---
 src/maliput/base/distance_router.cc | 155 ++++++++++++++--------------
 1 file changed, 79 insertions(+), 76 deletions(-)

diff --git a/src/maliput/base/distance_router.cc b/src/maliput/base/distance_router.cc
index b178bdd..053a772 100644
--- a/src/maliput/base/distance_router.cc
+++ b/src/maliput/base/distance_router.cc
@@ -238,49 +238,82 @@ routing::Phase MakePhase(int index, const routing::graph::Edge& edge, double lan
   return routing::Phase{index, lane_s_range_tolerance, start_positions, end_positions, lane_s_ranges, &road_network};
 }
 
-// Computes all api::RoadPositions for @p ref ref_edge at @p ref_end side when connecting with @p target_edge.
+// Computes all api::RoadPositions for @p ref ref_edge at @p ref_end side when connecting with @p target_end side of
+// @p target_edge.
 //
 // @param ref_edge The reference routing::graph::Edge to compute the api::RoadPositions for.
 // @param ref_end Indicates api::LaneEnd::Which side of the api::Lanes from @p ref_edge to take the positions.
 // @param target_edge The connecting routing::graph::Edge.
-// @return A vector with the api::RoadPositions to that connect @p ref_edge with @p target_edge at @p ref_end side.
-// @throws common::assertion_error When the return vector is empty.
+// @param target_end Indicates api::LaneEnd::Which side of the api::Lanes from @p target_edge connects.
+// @return A vector with the api::RoadPositions to that connect @p ref_edge with @p target_edge at @p ref_end side. It is
+// empty when they do not connect, i.e. it takes a U-turn to go from one to the other.
 std::vector<api::RoadPosition> ComputeAllRoadPositions(const routing::graph::Edge& ref_edge,
                                                        const api::LaneEnd::Which ref_end,
-                                                       const routing::graph::Edge& target_edge) {
-  auto is_lane_connected = [segment = target_edge.segment, end = ref_end](const api::Lane* lane,
-                                                                          bool is_confluent) -> bool {
-    const api::LaneEndSet* lane_end_set =
-        is_confluent ? lane->GetConfluentBranches(end) : lane->GetOngoingBranches(end);
-    for (int i = 0; i < lane_end_set->size(); ++i) {
-      const api::LaneEnd lane_end = lane_end_set->get(i);
-      if (lane_end.lane->segment() == segment) {
-        return true;
-      }
-    }
-    return false;
-  };
-  auto process_positions = [segment = ref_edge.segment, end = ref_end, is_lane_connected](bool is_confluent) {
-    std::vector<api::RoadPosition> positions;
-    for (int i = 0; i < segment->num_lanes(); ++i) {
-      const api::Lane* lane = segment->lane(i);
-      if (is_lane_connected(lane, is_confluent)) {
+                                                       const routing::graph::Edge& target_edge,
+                                                       const api::LaneEnd::Which target_end) {
+  std::vector<api::RoadPosition> positions;
+  for (int i = 0; i < ref_edge.segment->num_lanes(); ++i) {
+    const api::Lane* lane = ref_edge.segment->lane(i);
+    const api::LaneEndSet* lane_end_set = lane->GetOngoingBranches(ref_end);
+    for (int j = 0; j < lane_end_set->size(); ++j) {
+      const api::LaneEnd lane_end = lane_end_set->get(j);
+      if (lane_end.lane->segment() == target_edge.segment && lane_end.end == target_end) {
         positions.emplace_back(lane,
-                               api::LanePosition{end == api::LaneEnd::Which::kStart ? 0. : lane->length(), 0., 0.});
+                               api::LanePosition{ref_end == api::LaneEnd::Which::kStart ? 0. : lane->length(), 0., 0.});
+        break;
       }
     }
-    return positions;
-  };
-  constexpr bool kIsConfluent{true};
-  constexpr bool kIsOngoing{!kIsConfluent};
-  std::vector<api::RoadPosition> positions = process_positions(kIsConfluent);
-  if (positions.empty()) {
-    positions = process_positions(kIsOngoing);
   }
-  MALIPUT_THROW_UNLESS(!positions.empty());
   return positions;
 }
 
+// Gets the api::LaneEnd::Which side of the api::Lanes in @p edge that is at the routing::graph::Node with @p node_id.
+api::LaneEnd::Which GetEndAtNode(const routing::graph::Edge& edge, const routing::graph::NodeId& node_id) {
+  return edge.node_a == node_id ? api::LaneEnd::Which::kStart : api::LaneEnd::Which::kFinish;
+}
+
+// Gets the ID of the routing::graph::Node of @p edge that is opposite to the one with @p node_id.
+routing::graph::NodeId GetOppositeNode(const routing::graph::Edge& edge, const routing::graph::NodeId& node_id) {
+  return edge.node_a == node_id ? edge.node_b : edge.node_a;
+}
+
+// Makes the routing::Phases that traverse @p edge_sequence.
+//
+// @param edge_sequence The sequence of routing::graph::Edges. It must not be empty.
+// @param node_id The ID of the routing::graph::Node where the first two edges connect.
+// @param start The start api::RoadPosition. It must be in the first edge.
+// @param end The end api::RoadPosition. It must be in the last edge.
+// @param lane_s_range_tolerance See routing::Phase() documentation.
+// @param road_network See routing::Phase() documentation.
+// @return The routing::Phases, or an empty vector when consecutive edges do not connect.
+std::vector<routing::Phase> MakePhases(const std::vector<routing::graph::Edge>& edge_sequence,
+                                       routing::graph::NodeId node_id, const api::RoadPosition& start,
+                                       const api::RoadPosition& end, double lane_s_range_tolerance,
+                                       const api::RoadNetwork& road_network) {
+  std::vector<routing::Phase> phases;
+  std::vector<api::RoadPosition> start_positions{start};
+  for (size_t i = 0u; i < edge_sequence.size(); ++i) {
+    const routing::graph::Edge& edge = edge_sequence[i];
+    std::vector<api::RoadPosition> end_positions{end};
+    std::vector<api::RoadPosition> next_start_positions;
+    if (i + 1u < edge_sequence.size()) {
+      const routing::graph::Edge& next_edge = edge_sequence[i + 1u];
+      const api::LaneEnd::Which edge_end = GetEndAtNode(edge, node_id);
+      const api::LaneEnd::Which next_edge_end = GetEndAtNode(next_edge, node_id);
+      end_positions = ComputeAllRoadPositions(edge, edge_end, next_edge, next_edge_end);
+      next_start_positions = ComputeAllRoadPositions(next_edge, next_edge_end, edge, edge_end);
+      if (end_positions.empty() || next_start_positions.empty()) {
+        return {};
+      }
+      node_id = GetOppositeNode(next_edge, node_id);
+    }
+    phases.push_back(MakePhase(static_cast<int>(i), edge, lane_s_range_tolerance, start_positions, end_positions,
+                               road_network));
+    start_positions = next_start_positions;
+  }
+  return phases;
+}
+
 // Optionally introduces routing::graph::Edges at the beginning or end of @p edge_sequence to make sure @p start and
 // @p end are included in it.
 //
@@ -355,56 +388,26 @@ std::vector<routing::Route> DistanceRouter::DoComputeRoutes(
   MALIPUT_THROW_UNLESS(end_node.has_value());
 
   // Obtain the sequences of routing::graph::Edges that connect the start with end, i.e. the routing algorithm.
-  std::vector<std::vector<routing::graph::Edge>> edge_sequences =
+  const std::vector<std::vector<routing::graph::Edge>> edge_sequences =
       routing::graph::FindAllEdgeSequences(graph_, start_node.value(), end_node.value());
 
-  // Amends the routing::graph::Edge sequences by introducing the start and end routing::graph::Edges when
-  // missing due to the direction of travel.
-  edge_sequences = MaybeAddStartAndEndEdges(graph_, start, end, edge_sequences);
-
   std::vector<routing::Route> routes;
-  for (const std::vector<routing::graph::Edge>& edge_sequence : edge_sequences) {
-    // Handles the case when edge_sequence has a length of 1. This implies the route only has one routing::Phase.
-    if (edge_sequence.size() == 1u) {
-      routes.emplace_back(std::vector<routing::Phase>{MakePhase(0, edge_sequence[0], lane_s_range_tolerance_, {start},
-                                                                {end}, road_network_)},
-                          &road_network_);
-      continue;
-    }
-
-    // Handles the case when edge_sequence has a length greater than 1. This implies the route has more than one
-    // routing::Phase.
-    std::vector<routing::Phase> phases;
-    for (int i = 0; i < static_cast<int>(edge_sequence.size()); ++i) {
-      const routing::graph::Edge& edge = edge_sequence[i];
-      if (i == 0) {
-        const std::optional<api::LaneEnd::Which> edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i + 1]);
-        MALIPUT_THROW_UNLESS(edge_end.has_value());
-        phases.push_back(MakePhase(i, edge, lane_s_range_tolerance_, {start},
-                                   ComputeAllRoadPositions(edge, edge_end.value(), edge_sequence[i + 1]),
-                                   road_network_));
-      } else if (i + 1 == static_cast<int>(edge_sequence.size())) {
-        const std::optional<api::LaneEnd::Which> edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i - 1]);
-        MALIPUT_THROW_UNLESS(edge_end.has_value());
-        phases.push_back(MakePhase(i, edge, lane_s_range_tolerance_,
-                                   ComputeAllRoadPositions(edge, edge_end.value(), edge_sequence[i - 1]), {end},
-                                   road_network_));
-      } else {
-        const std::optional<api::LaneEnd::Which> start_edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i - 1]);
-        MALIPUT_THROW_UNLESS(start_edge_end.has_value());
-        const std::optional<api::LaneEnd::Which> finish_edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i + 1]);
-        MALIPUT_THROW_UNLESS(finish_edge_end.has_value());
-        phases.push_back(MakePhase(i, edge, lane_s_range_tolerance_,
-                                   ComputeAllRoadPositions(edge, start_edge_end.value(), edge_sequence[i - 1]),
-                                   ComputeAllRoadPositions(edge, finish_edge_end.value(), edge_sequence[i + 1]),
-                                   road_network_));
-      }
+  for (const std::vector<routing::graph::Edge>& path : edge_sequences) {
+    // Amends the routing::graph::Edge sequence by introducing the start and end routing::graph::Edges when
+    // missing due to the direction of travel.
+    const std::vector<routing::graph::Edge> edge_sequence =
+        MaybeAddStartAndEndEdges(graph_, start, end, {path}).front();
+    // The path leaves start_node through its first routing::graph::Edge. It is the second one when the start
+    // routing::graph::Edge was introduced.
+    const routing::graph::NodeId node_id = edge_sequence.front().segment == path.front().segment
+                                               ? GetOppositeNode(edge_sequence.front(), start_node->id)
+                                               : start_node->id;
+    const std::vector<routing::Phase> phases =
+        MakePhases(edge_sequence, node_id, start, end, lane_s_range_tolerance_, road_network_);
+    // There are no phases when the introduced edges cannot be driven together with the rest of the sequence.
+    if (!phases.empty()) {
+      routes.emplace_back(phases, &road_network_);
     }
-    routes.emplace_back(phases, &road_network_);
   }
 
   // Filter routes based on constraints.
-- 
2.43.0


From a6028aba77eec5a9094f23220466219afc0e78a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 24/49] fix: DistanceRouter matches the positions between
 phases by connection to find lane switches

---
 src/maliput/base/distance_router.cc | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/maliput/base/distance_router.cc b/src/maliput/base/distance_router.cc
index 053a772..33d67c5 100644
--- a/src/maliput/base/distance_router.cc
+++ b/src/maliput/base/distance_router.cc
@@ -107,6 +107,22 @@ bool HasLaneSwitch(const routing::Route& route) {
     }
     return std::nullopt;
   };
+  // Interfaces between routing::Phases are at the ends of the api::Lanes. The positions of both routing::Phases may be
+  // sorted differently.
+  auto get_end = [](const api::RoadPosition& position) {
+    return position.pos.s() <= position.lane->length() / 2. ? api::LaneEnd::Which::kStart
+                                                            : api::LaneEnd::Which::kFinish;
+  };
+  auto is_connected = [get_end](const api::RoadPosition& position, const api::RoadPosition& next_position) -> bool {
+    const api::LaneEndSet* lane_end_set = position.lane->GetOngoingBranches(get_end(position));
+    for (int i = 0; i < lane_end_set->size(); ++i) {
+      const api::LaneEnd lane_end = lane_end_set->get(i);
+      if (lane_end.lane == next_position.lane && lane_end.end == get_end(next_position)) {
+        return true;
+      }
+    }
+    return false;
+  };
   const api::Lane* start_lane = route.start_route_position().lane;
   for (int phase_index = 0; phase_index < route.size(); phase_index++) {
     const routing::Phase& phase = route.Get(phase_index);
@@ -118,7 +134,15 @@ bool HasLaneSwitch(const routing::Route& route) {
     }
     // Update the start_lane for the next iteration.
     if (phase_index != route.size() - 1) {
-      start_lane = route.Get(phase_index + 1).start_positions()[end_position_index.value()].lane;
+      const api::RoadPosition& end_position = phase.end_positions()[end_position_index.value()];
+      const std::vector<api::RoadPosition>& next_positions = route.Get(phase_index + 1).start_positions();
+      const auto next_position_it =
+          std::find_if(next_positions.begin(), next_positions.end(),
+                       [&](const api::RoadPosition& position) { return is_connected(end_position, position); });
+      if (next_position_it == next_positions.end()) {
+        return true;
+      }
+      start_lane = next_position_it->lane;
     }
   }
   return false;
-- 
2.43.0


From 3f0a107ae8222702431b045532c9c4f8dc1fa3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 25/49] fix: the range of a zone must be within its lane also
 against s

A range against s starting beyond the end of the lane was accepted.
---
 src/maliput/base/road_rulebook_loader.cc                     | 1 +
 src/maliput/base/road_rulebook_loader_using_rule_registry.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/maliput/base/road_rulebook_loader.cc b/src/maliput/base/road_rulebook_loader.cc
index fde7abf..6544daf 100644
--- a/src/maliput/base/road_rulebook_loader.cc
+++ b/src/maliput/base/road_rulebook_loader.cc
@@ -174,6 +174,7 @@ SRange ObtainSRange(const Lane* lane, const YAML::Node& lane_node) {
   if (lane_node["SRange"]) {
     const SRange srange = lane_node["SRange"].as<SRange>();
     MALIPUT_THROW_UNLESS(srange.s0() >= 0);
+    MALIPUT_THROW_UNLESS(srange.s0() <= lane->length());
     MALIPUT_THROW_UNLESS(srange.s1() <= lane->length());
     return srange;
   } else {
diff --git a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
index cc5171c..b1de97e 100644
--- a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
+++ b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
@@ -116,6 +116,7 @@ SRange GetSRange(const Lane* lane, const YAML::Node& lane_node) {
   if (lane_node[RuleConstants::kSRange]) {
     const SRange s_range = lane_node[RuleConstants::kSRange].as<SRange>();
     MALIPUT_THROW_UNLESS(s_range.s0() >= 0);
+    MALIPUT_THROW_UNLESS(s_range.s0() <= lane->length());
     MALIPUT_THROW_UNLESS(s_range.s1() <= lane->length());
     return s_range;
   } else {
-- 
2.43.0


From 50c9ecb6dbdb11240330ca91b5ae3e399131b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 26/49] fix: rules start each phase of a loaded ring in their
 default state

The states a phase specified leaked into the phases after it.
---
 src/maliput/base/phase_ring_book_loader.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/maliput/base/phase_ring_book_loader.cc b/src/maliput/base/phase_ring_book_loader.cc
index 65ff2f3..d1b12a5 100644
--- a/src/maliput/base/phase_ring_book_loader.cc
+++ b/src/maliput/base/phase_ring_book_loader.cc
@@ -222,10 +222,6 @@ PhaseRing BuildPhaseRing(const RoadRulebook* rulebook, const TrafficLightBook* t
 
   const std::unordered_map<Rule::Id, DiscreteValueRule> discrete_rules =
       GetRightOfWayTypeRules(rulebook, phase_ring_node["Rules"]);
-  // First get default states of all rules.
-  // Then, override the defaults with the states specified in the YAML
-  // document.
-  DiscreteValueRuleStates discrete_rule_states = CreateDefaultRuleStates(discrete_rules);
 
   const YAML::Node& phases_node = phase_ring_node["Phases"];
   MALIPUT_THROW_UNLESS(phases_node.IsDefined());
@@ -235,6 +231,12 @@ PhaseRing BuildPhaseRing(const RoadRulebook* rulebook, const TrafficLightBook* t
     MALIPUT_THROW_UNLESS(phase_node.IsMap());
     MALIPUT_THROW_UNLESS(phase_node["ID"].IsDefined());
     const Phase::Id phase_id(phase_node["ID"].as<std::string>());
+
+    // First get default states of all rules.
+    // Then, override the defaults with the states specified in the YAML
+    // document.
+    DiscreteValueRuleStates discrete_rule_states = CreateDefaultRuleStates(discrete_rules);
+
     const YAML::Node& rule_states_node = phase_node["RightOfWayRuleStates"];
     // RightOfWayRuleStates might not be added in the yaml.
     if (rule_states_node.IsDefined()) {
-- 
2.43.0


From 24fe142f2d40290aaa4dae8a75bca2dd8c6e46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 27/49] fix: a phase ring with a rule without right of way
 states is an error

It aborted the process.
---
 src/maliput/base/phase_ring_book_loader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/base/phase_ring_book_loader.cc b/src/maliput/base/phase_ring_book_loader.cc
index d1b12a5..288c1ac 100644
--- a/src/maliput/base/phase_ring_book_loader.cc
+++ b/src/maliput/base/phase_ring_book_loader.cc
@@ -120,7 +120,7 @@ DiscreteValueRule::DiscreteValue GetDefaultState(const std::vector<DiscreteValue
       return *it;
     }
   }
-  MALIPUT_ABORT_MESSAGE("The rule has no states.");
+  MALIPUT_THROW_MESSAGE("The rule has no right of way states.");
 }
 
 // Given a set of rules, determine default states for each rule and return them
-- 
2.43.0


From 02dab33fab14beaeffd9f900a4917422bdc8a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 28/49] fix: cover the whole surface of a lane whose bounds
 change in generated meshes

---
 src/maliput/utility/generate_obj.cc | 60 ++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/maliput/utility/generate_obj.cc b/src/maliput/utility/generate_obj.cc
index 54138a5..1ffee5c 100644
--- a/src/maliput/utility/generate_obj.cc
+++ b/src/maliput/utility/generate_obj.cc
@@ -214,7 +214,8 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
     {
       double r00 = 0.;
       double r10 = 0.;
-      while ((r00 < rb0.max()) && (r10 < rb1.max())) {
+      // The bounds may differ at s0 and s1, advance until both of them are reached.
+      while ((r00 < rb0.max()) || (r10 < rb1.max())) {
         const double r01 = std::min(r00 + grid_unit, rb0.max());
         const double r11 = std::min(r10 + grid_unit, rb1.max());
         //
@@ -223,22 +224,34 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
         //          v     |          +r <--o
         // (s0,r01) o --> * (s0,r00)
         //
-        SrhFace srh_face({{s0, r00, elevation(s0, r00)},
-                          {s1, r10, elevation(s1, r10)},
-                          {s1, r11, elevation(s1, r11)},
-                          {s0, r01, elevation(s0, r01)}},
-                         {0., 0., 1.});
-        mesh->PushFace(srh_face.ToGeoFace(lane));
+        // When the bound has already been reached at one of the ends, the quad collapses into a triangle.
+        if (r01 == r00) {
+          SrhFace srh_face({{s0, r00, elevation(s0, r00)}, {s1, r10, elevation(s1, r10)}, {s1, r11, elevation(s1, r11)}},
+                           {0., 0., 1.});
+          mesh->PushFace(srh_face.ToGeoFace(lane));
+        } else if (r11 == r10) {
+          SrhFace srh_face({{s0, r00, elevation(s0, r00)}, {s1, r10, elevation(s1, r10)}, {s0, r01, elevation(s0, r01)}},
+                           {0., 0., 1.});
+          mesh->PushFace(srh_face.ToGeoFace(lane));
+        } else {
+          SrhFace srh_face({{s0, r00, elevation(s0, r00)},
+                            {s1, r10, elevation(s1, r10)},
+                            {s1, r11, elevation(s1, r11)},
+                            {s0, r01, elevation(s0, r01)}},
+                           {0., 0., 1.});
+          mesh->PushFace(srh_face.ToGeoFace(lane));
+        }
 
-        r00 += grid_unit;
-        r10 += grid_unit;
+        r00 = r01;
+        r10 = r11;
       }
     }
     // Right side of lane (r <= 0).
     {
       double r00 = 0.;
       double r10 = 0.;
-      while ((r00 > rb0.min()) && (r10 > rb1.min())) {
+      // The bounds may differ at s0 and s1, advance until both of them are reached.
+      while ((r00 > rb0.min()) || (r10 > rb1.min())) {
         const double r01 = std::max(r00 - grid_unit, rb0.min());
         const double r11 = std::max(r10 - grid_unit, rb1.min());
         //
@@ -247,15 +260,26 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
         //          v     |           o--> -r
         // (s0,r00) * --> o (s0,r01)
         //
-        SrhFace srh_face({{s0, r00, elevation(s0, r00)},
-                          {s0, r01, elevation(s0, r01)},
-                          {s1, r11, elevation(s1, r11)},
-                          {s1, r10, elevation(s1, r10)}},
-                         {0., 0., 1.});
-        mesh->PushFace(srh_face.ToGeoFace(lane));
+        // When the bound has already been reached at one of the ends, the quad collapses into a triangle.
+        if (r01 == r00) {
+          SrhFace srh_face({{s0, r00, elevation(s0, r00)}, {s1, r11, elevation(s1, r11)}, {s1, r10, elevation(s1, r10)}},
+                           {0., 0., 1.});
+          mesh->PushFace(srh_face.ToGeoFace(lane));
+        } else if (r11 == r10) {
+          SrhFace srh_face({{s0, r00, elevation(s0, r00)}, {s0, r01, elevation(s0, r01)}, {s1, r10, elevation(s1, r10)}},
+                           {0., 0., 1.});
+          mesh->PushFace(srh_face.ToGeoFace(lane));
+        } else {
+          SrhFace srh_face({{s0, r00, elevation(s0, r00)},
+                            {s0, r01, elevation(s0, r01)},
+                            {s1, r11, elevation(s1, r11)},
+                            {s1, r10, elevation(s1, r10)}},
+                           {0., 0., 1.});
+          mesh->PushFace(srh_face.ToGeoFace(lane));
+        }
 
-        r00 -= grid_unit;
-        r10 -= grid_unit;
+        r00 = r01;
+        r10 = r11;
       }
     }
   }
-- 
2.43.0


From b4a4550a0a4a06885e026dd6cc2715bbdfe5258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 29/49] fix: do not leave faces shorter than the tolerance at
 the bounds of generated meshes

---
 src/maliput/utility/generate_obj.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/maliput/utility/generate_obj.cc b/src/maliput/utility/generate_obj.cc
index 1ffee5c..a039b2d 100644
--- a/src/maliput/utility/generate_obj.cc
+++ b/src/maliput/utility/generate_obj.cc
@@ -201,6 +201,13 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
   MALIPUT_PROFILE_FUNC();
   const double linear_tolerance = lane->segment()->junction()->road_geometry()->linear_tolerance();
   const double s_max = lane->length();
+  // Advance one `grid_unit` at most, without leaving a remainder shorter than `linear_tolerance`.
+  const auto next_left = [grid_unit, linear_tolerance](double r, const api::RBounds& rb) {
+    return r + grid_unit > rb.max() - linear_tolerance ? rb.max() : r + grid_unit;
+  };
+  const auto next_right = [grid_unit, linear_tolerance](double r, const api::RBounds& rb) {
+    return r - grid_unit < rb.min() + linear_tolerance ? rb.min() : r - grid_unit;
+  };
   for (double s0 = 0, s1; s0 < s_max; s0 = s1) {
     s1 = s0 + grid_unit;
     if (s1 > s_max - linear_tolerance) {
@@ -216,8 +223,8 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
       double r10 = 0.;
       // The bounds may differ at s0 and s1, advance until both of them are reached.
       while ((r00 < rb0.max()) || (r10 < rb1.max())) {
-        const double r01 = std::min(r00 + grid_unit, rb0.max());
-        const double r11 = std::min(r10 + grid_unit, rb1.max());
+        const double r01 = next_left(r00, rb0);
+        const double r11 = next_left(r10, rb1);
         //
         // (s1,r11) o <-- o (s1,r10)       ^ +s
         //          |     ^                |
@@ -252,8 +259,8 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
       double r10 = 0.;
       // The bounds may differ at s0 and s1, advance until both of them are reached.
       while ((r00 > rb0.min()) || (r10 > rb1.min())) {
-        const double r01 = std::max(r00 - grid_unit, rb0.min());
-        const double r11 = std::max(r10 - grid_unit, rb1.min());
+        const double r01 = next_right(r00, rb0);
+        const double r11 = next_right(r10, rb1);
         //
         // (s1,r10) o <-- o (s1,r11)  ^ +s
         //          |     ^           |
-- 
2.43.0


From fd1ca08f70503f3f88ed7b2529e318f2a3aa961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 30/49] fix: generate meshes of lanes with no width at one end
 or on one side

---
 src/maliput/utility/generate_obj.cc | 49 ++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/maliput/utility/generate_obj.cc b/src/maliput/utility/generate_obj.cc
index a039b2d..7145344 100644
--- a/src/maliput/utility/generate_obj.cc
+++ b/src/maliput/utility/generate_obj.cc
@@ -191,8 +191,13 @@ void GenerateOptimizedRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid
         {{s0, r00, elevation(s0, r00)}, {s0, r01, elevation(s0, r01)}, {s1, r10, elevation(s1, r10)}}, {0., 0., 1.});
     SrhFace second_triangle(
         {{s0, r01, elevation(s0, r01)}, {s1, r11, elevation(s1, r11)}, {s1, r10, elevation(s1, r10)}}, {0., 0., 1.});
-    mesh->PushFace(first_triangle.ToGeoFace(lane));
-    mesh->PushFace(second_triangle.ToGeoFace(lane));
+    // A triangle is degenerate when there is no width at the end it leans on.
+    if (r00 != r01) {
+      mesh->PushFace(first_triangle.ToGeoFace(lane));
+    }
+    if (r10 != r11) {
+      mesh->PushFace(second_triangle.ToGeoFace(lane));
+    }
   }
 }
 
@@ -314,15 +319,19 @@ void CoverLaneWithQuads(GeoMesh* mesh, const api::Lane* lane, double grid_unit,
   }
 }
 
-// Adds faces to @p mesh which draw stripes along the lane_bounds() of
-// @p lane.
+// Adds faces to @p left_mesh and @p right_mesh which draw stripes along the
+// lane_bounds() of @p lane. Stripes may overlap where the lane is narrow, thus
+// each one has its own mesh.
 //
-// @param mesh  the GeoMesh which will receive the faces
+// @param left_mesh  the GeoMesh which will receive the faces of the left stripe
+// @param right_mesh  the GeoMesh which will receive the faces of the right
+//                    stripe
 // @param lane  the api::Lane to provide the bounds and surface
 // @param grid_unit  longitudinal size (s dimension) of each face
 // @param h_offset  h value of each vertex (height above road surface)
 // @param stripe_width  width (r dimension) of each stripe
-void StripeLaneBounds(GeoMesh* mesh, const api::Lane* lane, double grid_unit, double h_offset, double stripe_width) {
+void StripeLaneBounds(GeoMesh* left_mesh, GeoMesh* right_mesh, const api::Lane* lane, double grid_unit, double h_offset,
+                      double stripe_width) {
   const double half_stripe = 0.5 * stripe_width;
   const double linear_tolerance = lane->segment()->junction()->road_geometry()->linear_tolerance();
   const double s_max = lane->length();
@@ -342,7 +351,7 @@ void StripeLaneBounds(GeoMesh* mesh, const api::Lane* lane, double grid_unit, do
                         {s1, rb1.max() + half_stripe, h_offset},
                         {s0, rb0.max() + half_stripe, h_offset}},
                        {0., 0., 1.});
-      mesh->PushFace(srh_face.ToGeoFace(lane));
+      left_mesh->PushFace(srh_face.ToGeoFace(lane));
     }
     // Right side of lane.
     {
@@ -351,7 +360,7 @@ void StripeLaneBounds(GeoMesh* mesh, const api::Lane* lane, double grid_unit, do
                         {s1, rb1.min() + half_stripe, h_offset},
                         {s0, rb0.min() + half_stripe, h_offset}},
                        {0., 0., 1.});
-      mesh->PushFace(srh_face.ToGeoFace(lane));
+      right_mesh->PushFace(srh_face.ToGeoFace(lane));
     }
   }
 }
@@ -394,8 +403,8 @@ void DrawLaneArrow(GeoMesh* mesh, const api::Lane* lane, double grid_unit, doubl
   for (int si = 0; si < num_units; ++si) {
     double s0 = s_offset + (si * s_unit);
     double s1 = s_offset + ((si + 1.) * s_unit);
-    // Left side of lane.
-    {
+    // Left side of lane, if there is any.
+    if (rl_size > 0.) {
       double r00 = 0.;
       double r10 = 0.;
       for (int ri = 0; ri < (num_r_units - 1); ++ri) {
@@ -421,8 +430,8 @@ void DrawLaneArrow(GeoMesh* mesh, const api::Lane* lane, double grid_unit, doubl
       SrhFace srh_face({{s0, r00, h_offset}, {s1, r10, h_offset}, {s0, r00 + rl_unit, h_offset}}, {0., 0., 1.});
       mesh->PushFace(srh_face.ToGeoFace(lane));
     }
-    // Right side of lane.
-    {
+    // Right side of lane, if there is any.
+    if (rr_size > 0.) {
       double r00 = 0.;
       double r10 = 0.;
       for (int ri = 0; ri < (num_r_units - 1); ++ri) {
@@ -737,9 +746,11 @@ void RenderSegment(const api::Segment* segment, const ObjFeatures& features, Geo
       lane_mesh->AddFacesFrom(SimplifyMesh(haze_mesh, features));
     }
     if (features.draw_stripes) {
-      GeoMesh stripes_mesh;
-      StripeLaneBounds(&stripes_mesh, lane, grid_unit, features.stripe_elevation, features.stripe_width);
-      marker_mesh->AddFacesFrom(SimplifyMesh(stripes_mesh, features));
+      GeoMesh left_stripe_mesh, right_stripe_mesh;
+      StripeLaneBounds(&left_stripe_mesh, &right_stripe_mesh, lane, grid_unit, features.stripe_elevation,
+                       features.stripe_width);
+      marker_mesh->AddFacesFrom(SimplifyMesh(left_stripe_mesh, features));
+      marker_mesh->AddFacesFrom(SimplifyMesh(right_stripe_mesh, features));
     }
     if (features.draw_arrows) {
       GeoMesh arrows_mesh;
@@ -857,9 +868,11 @@ std::pair<mesh::GeoMesh, Material> BuildMesh(const api::RoadGeometry* rg, const
       const double grid_unit =
           PickGridUnit(lane, features.max_grid_unit, features.min_grid_resolution, linear_tolerance);
       if (features.draw_stripes) {
-        GeoMesh stripes_mesh;
-        StripeLaneBounds(&stripes_mesh, lane, grid_unit, features.stripe_elevation, features.stripe_width);
-        mesh.AddFacesFrom(SimplifyMesh(stripes_mesh, features));
+        GeoMesh left_stripe_mesh, right_stripe_mesh;
+        StripeLaneBounds(&left_stripe_mesh, &right_stripe_mesh, lane, grid_unit, features.stripe_elevation,
+                         features.stripe_width);
+        mesh.AddFacesFrom(SimplifyMesh(left_stripe_mesh, features));
+        mesh.AddFacesFrom(SimplifyMesh(right_stripe_mesh, features));
       }
       if (features.draw_arrows) {
         GeoMesh arrows_mesh;
-- 
2.43.0


From cdcbb71fa4fc1f123e62a09122ec04d088c179e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 31/49] fix: reject malformed text of a vector with an
 assertion_error

---
 src/maliput/math/vector.cc | 47 ++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/maliput/math/vector.cc b/src/maliput/math/vector.cc
index d4d0f83..2a68b35 100644
--- a/src/maliput/math/vector.cc
+++ b/src/maliput/math/vector.cc
@@ -33,6 +33,7 @@
 #include <functional>
 #include <limits>
 #include <numeric>
+#include <stdexcept>
 
 namespace maliput {
 namespace math {
@@ -56,6 +57,7 @@ Derived VectorBase<N, Derived>::FromStr(const std::string& vector_str) {
   static constexpr char kLeftBrace = '{';
   static constexpr char kRightBrace = '}';
   static constexpr char kComma = ',';
+  static constexpr const char* kWhiteSpaces = " \t\n\v\f\r";
 
   // @{ Checks vector_str format.
   MALIPUT_THROW_UNLESS(std::count(vector_str.begin(), vector_str.end(), kLeftBrace) == 1);
@@ -63,27 +65,32 @@ Derived VectorBase<N, Derived>::FromStr(const std::string& vector_str) {
   MALIPUT_THROW_UNLESS(std::count(vector_str.begin(), vector_str.end(), kComma) == N - 1);
   // @}
 
-  std::array<double, N> ret;
-  if (ret.size() == 1) {
-    // 1-D vector.
-    const std::string value_str = vector_str.substr(1, vector_str.find_first_of(kRightBrace) - 1);
-    ret[0] = std::stod(value_str);
-  } else {
-    std::size_t previous_comma_pos{0};
-    for (size_t i = 0; i < ret.size(); ++i) {
-      // Extracts each number.
-      std::string value_str{};
-      const std::size_t comma_pos = vector_str.find_first_of(kComma, previous_comma_pos + 1);
-      if (i == ret.size() - 1) {
-        // Last value.
-        value_str = vector_str.substr(previous_comma_pos + 1, vector_str.find_first_of(kRightBrace) - 1);
-      } else {
-        value_str = vector_str.substr(previous_comma_pos + 1, comma_pos - 1);
-      }
-
-      ret[i] = std::stod(value_str);
-      previous_comma_pos = comma_pos;
+  // Reads the number in [begin; end), which may only be surrounded by white spaces.
+  const auto read_number = [&vector_str](std::size_t begin, std::size_t end) {
+    const std::string value_str = vector_str.substr(begin, end - begin);
+    std::size_t length{};
+    double value{};
+    try {
+      value = std::stod(value_str, &length);
+    } catch (const std::logic_error&) {
+      MALIPUT_THROW_MESSAGE("'" + value_str + "' is not a number.");
     }
+    MALIPUT_THROW_UNLESS(value_str.find_first_not_of(kWhiteSpaces, length) == std::string::npos);
+    return value;
+  };
+
+  // @{ Checks that there is nothing but white spaces out of the braces.
+  const std::size_t right_brace_pos = vector_str.find_first_of(kRightBrace);
+  std::size_t pos = vector_str.find_first_not_of(kWhiteSpaces);
+  MALIPUT_THROW_UNLESS(vector_str[pos] == kLeftBrace);
+  MALIPUT_THROW_UNLESS(vector_str.find_first_not_of(kWhiteSpaces, right_brace_pos + 1) == std::string::npos);
+  // @}
+
+  std::array<double, N> ret;
+  for (std::size_t i = 0; i < N; ++i) {
+    const std::size_t end_pos = i == N - 1 ? right_brace_pos : vector_str.find_first_of(kComma, pos + 1);
+    ret[i] = read_number(pos + 1, end_pos);
+    pos = end_pos;
   }
   return Derived{ret};
 }
-- 
2.43.0


From 3465dca5e6e8a817f8b6cababb3c770713ebe643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 32/49] fix: rotate a vector along -z into its opposite

---
 src/maliput/math/quaternion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/math/quaternion.cc b/src/maliput/math/quaternion.cc
index 42eed34..5e2cfbf 100644
--- a/src/maliput/math/quaternion.cc
+++ b/src/maliput/math/quaternion.cc
@@ -717,7 +717,7 @@ void Quaternion::SetFromTwoVectors(const Vector3& a, const Vector3& b) {
           other = Vector3(0, 0, 1);
         }
       } else {
-        if (a.y() < a.z()) {
+        if (a_abs.y() < a_abs.z()) {
           other = Vector3(0, 1, 0);
         } else {
           other = Vector3(0, 0, 1);
-- 
2.43.0


From 149877badea6983511003e9aade8271957c9841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 33/49] fix: tell infinite from finite values when comparing
 with a relative tolerance

---
 src/maliput/math/compare.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maliput/math/compare.cc b/src/maliput/math/compare.cc
index aefa626..22cb453 100644
--- a/src/maliput/math/compare.cc
+++ b/src/maliput/math/compare.cc
@@ -77,7 +77,7 @@ common::ComparisonResult<math::VectorBase<N, Derived>> CompareVectors(const math
       const auto max_value = std::max(std::abs(v1[i]), std::abs(v2[i]));
       const auto relative_tolerance = tolerance * std::max(1., max_value);
 
-      if (delta > relative_tolerance) {
+      if (std::isinf(delta) || delta > relative_tolerance) {
         return {"Value at (" + std::to_string(i) + ") exceeds tolerance: " + std::to_string(v1[i]) + " vs. " +
                 std::to_string(v2[i]) + ", diff = " + std::to_string(delta) + ", tolerance = " +
                 std::to_string(tolerance) + ", relative tolerance = " + std::to_string(relative_tolerance) +
@@ -131,7 +131,7 @@ common::ComparisonResult<math::Matrix<N>> CompareMatrices(const math::Matrix<N>&
         const auto max_value = std::max(std::abs(m1[ii][jj]), std::abs(m2[ii][jj]));
         const auto relative_tolerance = tolerance * std::max(1., max_value);
 
-        if (delta > relative_tolerance) {
+        if (std::isinf(delta) || delta > relative_tolerance) {
           return {"Value at (" + std::to_string(ii) + ", " + std::to_string(jj) +
                   ") exceeds tolerance: " + std::to_string(m1[ii][jj]) + " vs. " + std::to_string(m2[ii][jj]) +
                   ", diff = " + std::to_string(delta) + ", tolerance = " + std::to_string(tolerance) +
-- 
2.43.0


From 5de194d9e6c0c8f3fc865391e1a7b6835086224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 34/49] fix: create directories like mkdir -p, and do not read
 directories for ever

---
 src/maliput/common/filesystem.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 8632bf2..6d609c6 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -144,7 +144,7 @@ void Path::append(const std::string& path_) {
 }
 
 void Path::normalize() {
-    if (path.back() == '/' && path.length() > 1) {
+    if (path.length() > 1 && path.back() == '/') {
         path = path.substr(0, path.length() - 1);
     }
 }
@@ -175,6 +175,8 @@ bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
         while (true) {
             char c = is.get();
             if (is.eof()) { break; }
+            // Reading fails when the path is a directory.
+            if (!is.good()) { return false; }
             ss << c;
         }
         read_to = ss.str();
@@ -184,7 +186,7 @@ bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
 }
 
 bool Filesystem::create_directory_recursive(const Path &path) {
-    size_t pos = 1;
+    size_t pos = 0;
     std::string temp(path.get_path());
 
     if (temp == "") {
@@ -200,7 +202,8 @@ bool Filesystem::create_directory_recursive(const Path &path) {
             return false;
         }
     }
-    return create_directory(Path(temp));
+    // Like mkdir -p, an existing directory is not a failure.
+    return path.is_directory() || create_directory(Path(temp));
 }
 
 std::string Filesystem::get_env_path(const std::string &env_var) {
-- 
2.43.0


From 5841df0374c1975ac3bd89593c086aa06286c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 35/49] fix: compare the contents of right of way states, not
 just their number

---
 src/maliput/api/rules/compare.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index d91cd16..34ed7a9 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -45,6 +45,13 @@ namespace rules {
 common::ComparisonResult<RuleStates> IsEqual(const RuleStates& a, const RuleStates& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.size()", "b.size()", a.size(), b.size()));
+  for (const auto& rule_state : a) {
+    const auto b_it = b.find(rule_state.first);
+    MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b.cend())", "true", (b_it != b.cend()), true));
+    if (b_it != b.cend()) {
+      MALIPUT_ADD_RESULT(c, api::IsEqual("rule_state.second", "b_it->second", rule_state.second, b_it->second));
+    }
+  }
   return {c.result()};
 }
 
-- 
2.43.0


From a0ee76ad7fc964e028c8507ad9fc7ce230ee06c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 36/49] fix: compare every member of the discrete values of
 rules

---
 src/maliput/api/rules/compare.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index 34ed7a9..30cd218 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -59,7 +59,7 @@ common::ComparisonResult<RuleStates> IsEqual(const RuleStates& a, const RuleStat
 
 common::ComparisonResult<DiscreteValueRule::DiscreteValue> IsEqual(const DiscreteValueRule::DiscreteValue& a,
                                                                    const DiscreteValueRule::DiscreteValue& b) {
-  if (a.value != b.value) {
+  if (a != b) {
     return {"DiscreteValues are different: " + a.value + " != " + b.value};
   }
   return {std::nullopt};
-- 
2.43.0


From 65dc36ed8b1eb021b37e5e37ccb5d58d805fc53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 37/49] fix: report the discrete value rule states that are
 missing instead of throwing

---
 src/maliput/api/rules/compare.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index 30cd218..9d61cb1 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -71,7 +71,11 @@ common::ComparisonResult<std::unordered_map<Rule::Id, DiscreteValueRule::Discret
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.size()", "b.size()", a.size(), b.size()));
   for (const auto& discrete_value_rule_state : a) {
-    MALIPUT_ADD_RESULT(c, IsEqual(b.at(discrete_value_rule_state.first), discrete_value_rule_state.second));
+    const auto b_it = b.find(discrete_value_rule_state.first);
+    MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b.cend())", "true", (b_it != b.cend()), true));
+    if (b_it != b.cend()) {
+      MALIPUT_ADD_RESULT(c, IsEqual(discrete_value_rule_state.second, b_it->second));
+    }
   }
   return {c.result()};
 }
-- 
2.43.0


From 599ab3a9707bdb810af6f3bdb97676e81b89ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 38/49] fix: report the bulb states that are missing instead of
 reading them

---
 src/maliput/api/rules/compare.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index 9d61cb1..a7eb60d 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -389,10 +389,14 @@ common::ComparisonResult<std::optional<BulbStates>> IsEqual(const std::optional<
                                                             const std::optional<BulbStates>& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.has_value()", "b.has_value()", a.has_value(), b.has_value()));
-  if (a.has_value()) {
+  if (a.has_value() && b.has_value()) {
     MALIPUT_ADD_RESULT(c, api::IsEqual("a->size()", "b->size()", a->size(), b->size()));
     for (const auto& bulb_state : *a) {
-      MALIPUT_ADD_RESULT(c, IsEqual(b->at(bulb_state.first), bulb_state.second));
+      const auto b_it = b->find(bulb_state.first);
+      MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b->cend())", "true", (b_it != b->cend()), true));
+      if (b_it != b->cend()) {
+        MALIPUT_ADD_RESULT(c, IsEqual(bulb_state.second, b_it->second));
+      }
     }
   }
   return {c.result()};
-- 
2.43.0


From 96c549914033000fba04955cb5da1e6fa4ffee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 39/49] fix: report an optional number that is missing instead
 of throwing

---
 src/maliput/api/rules/compare.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index a7eb60d..d4d702b 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -406,7 +406,7 @@ common::ComparisonResult<std::optional<double>> IsEqual(const std::optional<doub
                                                         const std::optional<double>& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.has_value()", "b.has_value()", a.has_value(), b.has_value()));
-  if (a.has_value()) {
+  if (a.has_value() && b.has_value()) {
     MALIPUT_ADD_RESULT(c, api::IsEqual("a.value()", "b.value()", a.value(), b.value()));
   }
   return {c.result()};
-- 
2.43.0


From ef4f6f594402943b68cd6505936a7b897cff6a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 40/49] fix: report the related bulb groups that only the
 second rule has

---
 src/maliput/api/rules/compare.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index d4d702b..1b1d136 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -348,6 +348,8 @@ common::ComparisonResult<std::unordered_map<TrafficLight::Id, std::vector<BulbGr
       if (b_it == b.cend()) {
         break;
       }
+      MALIPUT_ADD_RESULT(c, api::IsEqual("traffic_light_bulb_group.second.size()", "b_it->second.size()",
+                                         traffic_light_bulb_group.second.size(), b_it->second.size()));
       for (const BulbGroup::Id& bulb_group_id : traffic_light_bulb_group.second) {
         const auto& b_bulb_group_id_it = std::find(b_it->second.cbegin(), b_it->second.cend(), bulb_group_id);
         MALIPUT_ADD_RESULT(c, api::IsEqual("(b_bulb_group_id_it != b_it->second.cend())", "true",
-- 
2.43.0


From 2dc14784f965e94b527e3cf20fcb1319d7d78ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 41/49] fix: forget the partial results of an integration that
 throws

---
 .../systems/analysis/initial_value_problem.cc    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/maliput/drake/systems/analysis/initial_value_problem.cc b/src/maliput/drake/systems/analysis/initial_value_problem.cc
index 617b990..f6f2d2e 100644
--- a/src/maliput/drake/systems/analysis/initial_value_problem.cc
+++ b/src/maliput/drake/systems/analysis/initial_value_problem.cc
@@ -134,7 +134,13 @@ VectorX<T> InitialValueProblem<T>::Solve(const T& tf, const OdeContext& values)
   }
 
   // Integrates up to the requested time.
-  integrator_->IntegrateWithMultipleStepsToTime(tf);
+  try {
+    integrator_->IntegrateWithMultipleStepsToTime(tf);
+  } catch (...) {
+    // Drops the partial results, no later solution can start from them.
+    ResetCachedState(safe_values);
+    throw;
+  }
 
   // Retrieves the state vector. This cast is safe because the
   // ContinuousState<T> of a LeafSystem<T> is flat i.e. it is just
@@ -235,7 +241,13 @@ std::unique_ptr<DenseOutput<T>> InitialValueProblem<T>::DenseSolve(const T& tf,
   integrator_->StartDenseIntegration();
 
   // Steps the integrator through the entire interval.
-  integrator_->IntegrateWithMultipleStepsToTime(tf);
+  try {
+    integrator_->IntegrateWithMultipleStepsToTime(tf);
+  } catch (...) {
+    // Drops the partial results, no later solution can start from them.
+    ResetCachedState(safe_values);
+    throw;
+  }
 
   // Stops dense integration to prevent future updates to
   // the dense output just built and yields it to the caller.
-- 
2.43.0


From 8d6992ccecde61fd9d939af4ccfb748eff4a3d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 42/49] fix: accept an inverse that ends a rounding error
 before its range

---
 .../drake/inverse_arc_length_integrator.cc       | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/maliput/drake/inverse_arc_length_integrator.cc b/src/maliput/drake/inverse_arc_length_integrator.cc
index b3b19a9..c4c4d1c 100644
--- a/src/maliput/drake/inverse_arc_length_integrator.cc
+++ b/src/maliput/drake/inverse_arc_length_integrator.cc
@@ -29,6 +29,10 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/drake/inverse_arc_length_integrator.h"
 
+#include <algorithm>
+#include <cmath>
+#include <limits>
+
 #include <Eigen/Dense>
 #include <maliput/common/logger.h>
 #include <maliput/common/maliput_throw.h>
@@ -97,10 +101,14 @@ std::function<double(double)> InverseArcLengthIntegrator::InverseFunction(double
   const std::shared_ptr<systems::ScalarDenseOutput<double>> dense_output{
       impl_->scalar_initial_value_problem->DenseSolve(s1, context)};
   MALIPUT_THROW_UNLESS(dense_output->start_time() <= s0);
-  MALIPUT_THROW_UNLESS(dense_output->end_time() >= s1 - epsilon);
-  return [dense_output, tolerance, s0, s1](double s) -> double {
-    // Saturates s to lie within the [s0, s1] interval.
-    const double saturated_s = maliput::math::saturate(s, s0, s1);
+  // Rounding errors in the last step may end the dense output slightly before s1.
+  const double end = std::min(s1, dense_output->end_time());
+  const double rounding = 4. * std::numeric_limits<double>::epsilon() *
+                          std::max(std::abs(dense_output->start_time()), std::abs(s1));
+  MALIPUT_THROW_UNLESS(end >= s1 - std::max(epsilon, rounding));
+  return [dense_output, tolerance, s0, end](double s) -> double {
+    // Saturates s to lie within the [s0, end] interval.
+    const double saturated_s = maliput::math::saturate(s, s0, end);
     MALIPUT_THROW_UNLESS(std::abs(saturated_s - s) < tolerance);
     return dense_output->EvaluateScalar(saturated_s);
   };
-- 
2.43.0


From f1cb274862524eb48d1cf035fa8a63b2e2ec8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 43/49] fix: compare lane ends without a lane

---
 src/maliput/api/compare.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maliput/api/compare.cc b/src/maliput/api/compare.cc
index 736e94e..6b8b519 100644
--- a/src/maliput/api/compare.cc
+++ b/src/maliput/api/compare.cc
@@ -238,9 +238,12 @@ common::ComparisonResult<LaneEnd> IsLaneEndEqual(const LaneEnd& lane_end1, const
   auto which_to_string = [](const LaneEnd::Which end) {
     return end == LaneEnd::Which::kStart ? std::string("kStart") : std::string("kFinish");
   };
+  auto lane_to_string = [](const Lane* lane) {
+    return lane == nullptr ? std::string("nullptr") : lane->id().string();
+  };
   if (lane_end1.lane != lane_end2.lane) {
-    return {"lane_end1.lane is different from lane_end2.lane. lane_end1.lane: " + lane_end1.lane->id().string() +
-            " vs. lane_end2.lane: " + lane_end2.lane->id().string() + "\n"};
+    return {"lane_end1.lane is different from lane_end2.lane. lane_end1.lane: " + lane_to_string(lane_end1.lane) +
+            " vs. lane_end2.lane: " + lane_to_string(lane_end2.lane) + "\n"};
   }
   if (lane_end1.end != lane_end2.end) {
     return {"lane_end1.end is different from lane_end2.end. lane_end1.end: " + which_to_string(lane_end1.end) +
-- 
2.43.0


From c962a5f59ba1d6ca9bbdeb951e1be7fe0f18fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:57 +0000
Subject: [PATCH 44/49] fix: check the indexing of branch points once, also
 without junctions

---
 src/maliput/api/compare.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/maliput/api/compare.cc b/src/maliput/api/compare.cc
index 6b8b519..932c67a 100644
--- a/src/maliput/api/compare.cc
+++ b/src/maliput/api/compare.cc
@@ -349,11 +349,11 @@ std::optional<std::string> CheckIdIndexing(const RoadGeometry* road_geometry) {
                                       road_geometry->ById().GetLane(lane->id()), lane));
       }
     }
-    for (int bi = 0; bi < road_geometry->num_branch_points(); ++bi) {
-      const api::BranchPoint* branch_point = road_geometry->branch_point(bi);
-      MALIPUT_ADD_RESULT(c, IsEqual("road_geometry->ById().GetBranchPoint(branch_point->id())", "branch_point",
-                                    road_geometry->ById().GetBranchPoint(branch_point->id()), branch_point));
-    }
+  }
+  for (int bi = 0; bi < road_geometry->num_branch_points(); ++bi) {
+    const api::BranchPoint* branch_point = road_geometry->branch_point(bi);
+    MALIPUT_ADD_RESULT(c, IsEqual("road_geometry->ById().GetBranchPoint(branch_point->id())", "branch_point",
+                                  road_geometry->ById().GetBranchPoint(branch_point->id()), branch_point));
   }
   return c.result();
 }
-- 
2.43.0


From 0b90e46056293cc6ed907c5b8d3fc83fe9bcd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 45/49] fix: add each monomial once when substituting a
 variable of a polynomial

---
 src/maliput/drake/common/polynomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index 61175a3..c98c9fd 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -257,8 +257,8 @@ Polynomial<T> Polynomial<T>::Substitute(const VarType& orig, const Polynomial<T>
         } else {
           m *= Polynomial(1.0, {t});
         }
-        p += m;
       }
+      p += m;
     } else {
       // Then this monomial is not changed; add it in directly.
       p += Polynomial(source_monomial.coefficient, source_monomial.terms);
-- 
2.43.0


From 060a13b935803e4e6244ecb4d8d09b78b23d61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 46/49] fix: merge adjacent terms of the same variable of a
 polynomial

---
 src/maliput/drake/common/polynomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index c98c9fd..095d68d 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -60,7 +60,7 @@ Polynomial<T>::Polynomial(const T coefficient, const vector<Term>& terms) {
     if ((i > 0) && (m.terms[i].var != m.terms[0].var)) {
       is_univariate_ = false;
     }
-    for (int j = 0; j < (i - 1); j++) {  // merge any duplicate vars
+    for (int j = 0; j < i; j++) {  // merge any duplicate vars
       if (m.terms[i].var == m.terms[j].var) {
         m.terms[j].power += m.terms[i].power;
         m.terms.erase(m.terms.begin() + i);
-- 
2.43.0


From f4f57ad3b635fae9d151d0395a4a95dcb328ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 47/49] fix: a polynomial whose coefficient is not 1 is not a
 simple variable

---
 src/maliput/drake/common/polynomial.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index 095d68d..a72afbd 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -177,6 +177,7 @@ bool Polynomial<T>::IsAffine() const {
 template <typename T>
 typename Polynomial<T>::VarType Polynomial<T>::GetSimpleVariable() const {
   if (monomials_.size() != 1) return 0;
+  if (monomials_[0].coefficient != 1) return 0;
   if (monomials_[0].terms.size() != 1) return 0;
   if (monomials_[0].terms[0].power != 1) return 0;
   return monomials_[0].terms[0].var;
-- 
2.43.0


From ab298c9eb8f5f65f87191275dbeed70d5f8b4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:08 +0000
Subject: [PATCH 48/49] fix: multiply piecewise polynomials coefficient-wise

---
 src/maliput/drake/common/trajectories/piecewise_polynomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/drake/common/trajectories/piecewise_polynomial.cc b/src/maliput/drake/common/trajectories/piecewise_polynomial.cc
index a8c8d81..000c424 100644
--- a/src/maliput/drake/common/trajectories/piecewise_polynomial.cc
+++ b/src/maliput/drake/common/trajectories/piecewise_polynomial.cc
@@ -155,7 +155,7 @@ PiecewisePolynomial<T>& PiecewisePolynomial<T>::operator*=(const PiecewisePolyno
   if (!this->SegmentTimesEqual(other))
     throw runtime_error("Multiplication not yet implemented when segment times are not equal");
   for (size_t i = 0; i < polynomials_.size(); i++) {
-    polynomials_[i] *= other.polynomials_[i];
+    polynomials_[i] = polynomials_[i].cwiseProduct(other.polynomials_[i]).eval();
   }
   return *this;
 }
-- 
2.43.0


From 051fcfe157dcb8e708ddff5fd64240177accd696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:19 +0000
Subject: [PATCH 49/49] fix: compare polynomials whatever the order of the
 variables of their monomials

---
 src/maliput/drake/common/polynomial.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/drake/common/polynomial.cc b/src/maliput/drake/common/polynomial.cc
index a72afbd..1b3be3d 100644
--- a/src/maliput/drake/common/polynomial.cc
+++ b/src/maliput/drake/common/polynomial.cc
@@ -513,7 +513,7 @@ boolean<T> Polynomial<T>::CoefficientsAlmostEqual(const Polynomial<T>& other, co
     bool found_matching_term = false;
     for (size_t i = 0; i < monomials_.size(); i++) {
       if (monomial_has_match[i]) continue;
-      if (m.terms == monomials_[i].terms) {
+      if (m.HasSameExponents(monomials_[i])) {
         found_matching_term = true;
         if (tol_type == ToleranceType::kAbsolute) {
           comparison = comparison && abs(m.coefficient - monomials_[i].coefficient) <= tol;
-- 
2.43.0

