// Road topologies: segments of a few lanes whose lane ends are partitioned, in every way, into two-sided branch points.
#pragma once

#include <memory>
#include <set>
#include <string>
#include <vector>

#include "maliput/api/road_network.h"
#include "maliput/api/rules/rule_registry.h"
#include "maliput/base/intersection_book.h"
#include "maliput/base/manual_discrete_value_rule_state_provider.h"
#include "maliput/base/manual_phase_provider.h"
#include "maliput/base/manual_phase_ring_book.h"
#include "maliput/base/manual_range_value_rule_state_provider.h"
#include "maliput/base/manual_rulebook.h"
#include "maliput/base/traffic_light_book.h"
#include "mc.h"
#include "world.h"

namespace topo {

namespace api = maliput::api;
using maliput::math::Vector3;

inline std::unique_ptr<api::RoadNetwork> Network(std::unique_ptr<const api::RoadGeometry> rg) {
  using namespace maliput;
  static const ManualRulebook rules;
  const auto* r = rg.get();
  return std::make_unique<api::RoadNetwork>(
      std::move(rg), std::make_unique<ManualRulebook>(), std::make_unique<TrafficLightBook>(), std::make_unique<IntersectionBook>(r),
      std::make_unique<ManualPhaseRingBook>(), std::make_unique<ManualPhaseProvider>(), std::make_unique<api::rules::RuleRegistry>(),
      std::make_unique<ManualDiscreteValueRuleStateProvider>(&rules), std::make_unique<ManualRangeValueRuleStateProvider>(&rules));
}

// A point for each branch point: all distances are different.
inline Vector3 Point(int b) {
  static const double x[] = {0., 7., 19., 3., 41., 31., 53., 11., 67., 23., 71., 43.};
  static const double y[] = {0., 2., 11., 29., 5., 37., 17., 59., 47., 13., 61., 73.};
  return Vector3(x[b], y[b], b % 3);
}

struct Topology {
  std::vector<int> widths;  // Lanes per segment.
  int lanes{};
  int blocks{};
  std::vector<int> segment;       // Of each lane.
  std::vector<int> block, side;   // Of each lane end: 2 * lane + end (0: start, 1: finish).
  std::vector<std::vector<int>> lanes_of;  // Per segment.
  unsigned joined{};                       // Bit s: segment s is in the junction of segment s - 1.
  std::string text;

  static std::string Name(int lane) { return std::string(1, static_cast<char>('a' + lane)); }
  std::string SegName(int s) const { return "s" + std::to_string(s); }
  double Length(int lane) const { return (Point(block[2 * lane]) - Point(block[2 * lane + 1])).norm(); }
  bool Opposite(int e, int f) const { return block[e] == block[f] && side[e] != side[f]; }
};

// Chooses a topology. Lanes of a segment have different branch points at each extent. With `geometric`, no lane starts
// and finishes at the same branch point (it would have no length).
inline Topology Choose(mc::Ctx& c, const std::vector<int>& widths, bool geometric) {
  Topology t;
  t.widths = widths;
  for (size_t s = 0; s < widths.size(); ++s) {
    t.lanes_of.emplace_back();
    for (int k = 0; k < widths[s]; ++k) {
      t.lanes_of.back().push_back(t.lanes);
      t.segment.push_back(s);
      ++t.lanes;
    }
  }
  for (int e = 0; e < 2 * t.lanes; ++e) {
    // The alternatives that are left: (block, side) such that no restriction is violated.
    std::vector<std::pair<int, int>> options;
    for (int b = 0; b < t.blocks; ++b) {
      bool ok = true;
      for (int f = 0; f < e; ++f) {
        if (t.block[f] != b) continue;
        if (t.segment[f / 2] == t.segment[e / 2] && f % 2 == e % 2) ok = false;
        if (geometric && f / 2 == e / 2) ok = false;
      }
      if (ok) {
        options.push_back({b, 0});
        options.push_back({b, 1});
      }
    }
    options.push_back({t.blocks, 0});
    const auto o = c.pick(options);
    t.block.push_back(o.first);
    t.side.push_back(o.second);
    if (o.first == t.blocks) ++t.blocks;
  }
  for (int b = 0; b < t.blocks; ++b) {
    t.text += b ? " " : "";
    for (int sd = 0; sd < 2; ++sd) {
      for (int e = 0; e < 2 * t.lanes; ++e) {
        if (t.block[e] == b && t.side[e] == sd) t.text += Topology::Name(e / 2) + (e % 2 ? "f" : "s");
      }
      t.text += sd ? "" : "|";
    }
  }
  t.text += " /";
  for (int w : widths) t.text += std::to_string(w);
  return t;
}

// Chooses which segments share a junction.
inline void Join(mc::Ctx& c, Topology* t) {
  for (size_t s = 1; s < t->widths.size(); ++s) {
    if (!c.choose(2)) continue;
    t->joined |= 1u << s;
    t->text += " j" + std::to_string(s);
  }
}

inline std::unique_ptr<world::World> Build(const Topology& t, bool geometric, double tolerance = 1. / 64.) {
  auto w = std::make_unique<world::World>(tolerance);
  for (size_t s = 0; s < t.widths.size(); ++s) {
    if (!(t.joined >> s & 1u)) w->Junction("j" + std::to_string(s));
    w->Segment(t.SegName(s));
    for (int l : t.lanes_of[s]) {
      world::LaneSpec spec;
      spec.id = Topology::Name(l);
      if (geometric) {
        const Vector3 p = Point(t.block[2 * l]), q = Point(t.block[2 * l + 1]), d = q - p;
        spec.length = d.norm();
        spec.pose.origin = p;
        spec.pose.yaw = std::atan2(d.y(), d.x());
        spec.pose.pitch = std::asin(d.z() / d.norm());
      }
      w->Lane(spec);
    }
  }
  for (int b = 0; b < t.blocks; ++b) {
    std::vector<world::EndRef> sides[2];
    for (int e = 0; e < 2 * t.lanes; ++e) {
      if (t.block[e] == b) sides[t.side[e]].push_back({Topology::Name(e / 2), e % 2 ? world::kFinish : world::kStart});
    }
    w->Branch("bp" + std::to_string(b), sides[0], sides[1]);
  }
  return w;
}

// Nodes of the undirected graph of segments: classes of branch points that are at the same extent of some segment.
struct Nodes {
  explicit Nodes(const Topology& t) : node(t.blocks) {
    for (int b = 0; b < t.blocks; ++b) node[b] = b;
    for (const auto& ls : t.lanes_of) {
      for (int end = 0; end < 2; ++end) {
        for (int l : ls) Join(t.block[2 * ls[0] + end], t.block[2 * l + end]);
      }
    }
  }
  void Join(int a, int b) {
    const int from = node[a], to = node[b];
    for (int& n : node) {
      if (n == from) n = to;
    }
  }
  // Node of an extent of a segment.
  int Of(const Topology& t, int segment, int end) const { return node[t.block[2 * t.lanes_of[segment][0] + end]]; }
  std::vector<int> node;
};

// How two extents of different segments meet: 0 not at all, 1 face to face (drivable), 2 side by side, 3 mixed.
inline int Meet(const Topology& t, int s, int s_end, int q, int q_end) {
  int r = 0;
  for (int l : t.lanes_of[s]) {
    for (int m : t.lanes_of[q]) {
      const int e = 2 * l + s_end, f = 2 * m + q_end;
      if (t.block[e] == t.block[f]) r |= t.side[e] != t.side[f] ? 1 : 2;
    }
  }
  return r;
}

}  // namespace topo
