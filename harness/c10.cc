// Road position queries against a brute-force reference over closed-form lanes, for every strategy.
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>

#include "maliput/geometry_base/brute_force_find_road_positions_strategy.h"
#include "maliput/geometry_base/brute_force_strategy.h"
#include "maliput/geometry_base/filter_positions.h"
#include "maliput/geometry_base/kd_tree_strategy.h"
#include "maliput/geometry_base/strategy_base.h"
#include "mc.h"
#include "world.h"

using namespace maliput;
using api::InertialPosition;
using api::RoadPosition;
using api::RoadPositionResult;
using math::Vector3;
using world::LaneSpec;

namespace {

constexpr double kTol = 1. / 64.;
constexpr double kTie = 1e-12;
constexpr double kEps = 1e-9;
const double kInf = std::numeric_limits<double>::infinity();

LaneSpec L(const std::string& id, double x, double y, double z, double yaw, double len, double half = 1., double h0 = 0., double h1 = 4.,
           double pitch = 0., double roll = 0., double taper = 1.) {
  LaneSpec s;
  s.id = id;
  s.taper = taper;
  s.pose = {Vector3(x, y, z), yaw, pitch, roll};
  s.length = len;
  s.lane_min = -half;
  s.lane_max = half;
  s.seg_min = -half - .5;
  s.seg_max = half + .5;
  s.h_min = h0;
  s.h_max = h1;
  return s;
}

const double kQ = M_PI / 2.;
// Each road is one segment.
const std::vector<std::vector<LaneSpec>>& Roads() {
  static const std::vector<std::vector<LaneSpec>> r{
      {L("a0", 0, -1, 0, 0, 8), L("a1", 0, 1, 0, 0, 8)},                         // Two parallel lanes along x.
      {L("b0", 8, -1, 0, 0, 8), L("b1", 8, 1, 0, 0, 8)},                         // Their continuation.
      {L("c", 4, -4, 0, kQ, 8, 1.)},                                             // Crosses them, on the same plane.
      {L("d", 4, 6, 2, -kQ, 12, 2., 0., 4.)},                                    // Bridge within their volume.
      {L("e", 0, 0, 8, 0, 16, .5, -2., 1.)},                                     // Thin, far above, has volume below.
      {L("f", 16, 3, 0, 2 * kQ, 16, 1., 0., 4.)},                                // Opposite direction, with a gap.
      {L("g", -2, -2, 0, 0, 3, 4., 0., 0.)},                                     // Flat: no volume.
      {L("h", 0, -6, 0, 0, 8, 1., 0., 2., .5)},                                  // Climbs.
      {L("k", 0, 6, 0, 0, 8, 1., 0., 2., 0., .5), L("l", 0, 8, 0, 0, 8, .75)},   // Banked.
      {L("m", 0, 3, 0, 0, 8, .5, 0., 4., 0., 0., 5.), L("n", 8, -7, 0, 0, 8, 2., 0., 1., 0., 0., 0.)},  // Widens; narrows to nothing.
  };
  return r;
}


const std::vector<double>& KdSteps() {
  static const std::vector<double> t{.5, 1., 3., 20.};
  return t;
}

// What the API documents, from the lanes' own inverse mapping.
struct Ref {
  const api::Lane* lane;
  api::LanePositionResult r;
};

bool StrictlyInside(const Ref& x) {
  const auto b = x.lane->lane_bounds(x.r.lane_position.s());
  return x.r.lane_position.r() > b.min() + kEps && x.r.lane_position.r() < b.max() - kEps;
}

std::string Show(const Vector3& v) {
  std::ostringstream o;
  o << v.x() << "," << v.y() << "," << v.z();
  return o.str();
}

bool Same(const RoadPositionResult& got, const Ref& want) {
  return got.road_position.lane == want.lane && (got.road_position.pos.srh() - want.r.lane_position.srh()).norm() <= kEps &&
         (got.nearest_position.xyz() - want.r.nearest_position.xyz()).norm() <= kEps && std::fabs(got.distance - want.r.distance) <= kEps;
}

void CheckFind(mc::Ctx& c, const std::vector<RoadPositionResult>& got, const std::vector<Ref>& all, double radius, const std::string& what) {
  std::map<const api::Lane*, const RoadPositionResult*> by;
  for (const auto& g : got) {
    c.expect(by.emplace(g.road_position.lane, &g).second, "lane-twice", [&] { return what + " lane " + g.road_position.lane->id().string() + " reported twice"; });
  }
  const double limit = radius == 0. ? kTol : radius;
  for (const auto& a : all) {
    const bool in = by.count(a.lane) > 0;
    c.expect(in == (a.r.distance <= limit), in ? "lane-too-far" : "lane-missing",
             [&] { return what + " lane " + a.lane->id().string() + " at distance " + std::to_string(a.r.distance); });
    if (in) c.expect(Same(*by[a.lane], a), "result", [&] { return what + " wrong position in lane " + a.lane->id().string(); });
    c.nontrivial(in);
    by.erase(a.lane);
  }
  c.expect(by.empty(), "unknown-lane", [&] { return what; });
}

// All the queries about point `q` of the backend's frame.
void CheckPoint(mc::Ctx& c, const world::World& w, const Vector3& q, const Vector3& t, const std::string& what, bool brute, const std::vector<double>& radii) {
  const InertialPosition p = InertialPosition::FromXyz(q + t);
  auto at = [&] { return what + " at " + Show(p.xyz()); };
  std::vector<Ref> all;
  std::map<const api::Lane*, double> reported;
  double d_min = kInf;
  for (const auto* l : w.order) {
    // Closed form.
    const auto& sp = l->spec;
    const Vector3 v = q - sp.pose.origin;
    auto dot = [](const Vector3& a, const Vector3& b) { return a.x() * b.x() + a.y() * b.y() + a.z() * b.z(); };
    auto clamp = [](double q, double lo, double hi) { return std::min(std::max(q, lo), hi); };
    auto nearest = [&](double lo, double hi) {
      double s = clamp(dot(v, l->s_hat), 0., sp.length), r = clamp(dot(v, l->r_hat), lo, hi);
      if (sp.taper != 1.) world::NearestInTrapezoid(dot(v, l->s_hat), dot(v, l->r_hat), lo, hi, sp.length, sp.taper, &s, &r);
      return api::LanePosition(s, r, clamp(dot(v, l->h_hat), sp.h_min, sp.h_max));
    };
    const api::LanePosition lp = nearest(sp.lane_min, sp.lane_max);
    const Vector3 near = l->Backend(lp.s(), lp.r(), lp.h()) + t;
    all.push_back({l, {lp, InertialPosition::FromXyz(near), (near - p.xyz()).norm()}});
    const auto got = l->ToLanePosition(p);
    c.op(3);
    c.expect(Same({{l, got.lane_position}, got.nearest_position, got.distance}, all.back()), "frames-lane", at);
    reported[l] = got.distance;
    c.expect((l->ToInertialPosition(lp).xyz() - near).norm() <= kEps, "frames-inertial", at);
    const api::LanePosition sp2 = nearest(sp.seg_min, sp.seg_max);
    const Vector3 sn = l->Backend(sp2.s(), sp2.r(), sp2.h()) + t;
    const auto sg = l->ToSegmentPosition(p);
    c.expect((sg.lane_position.srh() - sp2.srh()).norm() <= kEps && (sg.nearest_position.xyz() - sn).norm() <= kEps &&
                 std::fabs(sg.distance - (sn - p.xyz()).norm()) <= kEps, "frames-segment", at);
    d_min = std::min(d_min, all.back().r.distance);
  }
  // Nearest.
  c.op();
  RoadPositionResult got;
  c.expect(!mc::Throws([&] { got = w.rg->ToRoadPosition(p); }), "nearest-throws", at);
  const Ref* chosen = nullptr;
  for (const auto& a : all) if (a.lane == got.road_position.lane) chosen = &a;
  c.expect(chosen != nullptr && Same(got, *chosen), "nearest-result", at);
  c.expect(chosen->r.distance <= d_min + kEps, "not-nearest", [&] {
    return at() + " chose " + chosen->lane->id().string() + " at " + std::to_string(chosen->r.distance) + " instead of " + std::to_string(d_min);
  });
  std::vector<const Ref*> ties;
  for (const auto& a : all) if (a.r.distance <= d_min + kTie / 4.) ties.push_back(&a);
  bool near_tie = false;  // Too close to call: distances that only differ by rounding.
  for (const auto& a : all) near_tie = near_tie || (a.r.distance > d_min + kTie / 4. && a.r.distance < d_min + kEps);
  if (!near_tie && ties.size() > 1) {
    c.nontrivial();
    double h_min = kInf;
    for (const auto* a : ties) h_min = std::min(h_min, a->r.lane_position.h());
    c.expect(chosen->r.lane_position.h() <= h_min + kEps, "not-minimum-height", [&] { return at() + " chose " + chosen->lane->id().string(); });
    for (const auto* a : ties) {
      if (a->r.lane_position.h() > h_min + kEps) continue;
      const bool strict = StrictlyInside(*a);
      if (!strict) continue;
      c.expect(std::fabs(chosen->r.lane_position.r()) <= std::fabs(a->r.lane_position.r()) + kEps, "not-best-tie",
               [&] { return at() + " chose " + chosen->lane->id().string() + " instead of " + a->lane->id().string(); });
    }
  }
  // Hints.
  for (const auto& a : all) {
    c.op();
    c.expect(Same(w.rg->ToRoadPosition(p, RoadPosition(a.lane, api::LanePosition(1., 0., 0.))), a), "hint", at);
  }
  // In a radius.
  for (double r : radii) {
    c.op();
    std::vector<RoadPositionResult> found;
    auto desc = [&] { std::ostringstream o; o << at() << " radius " << r; return o.str(); };
    c.expect(!mc::Throws([&] { found = w.rg->FindRoadPositions(p, r); }), "find-throws", desc);
    // Closer to the border than the arithmetic can tell, but not exactly on it.
    const double limit = r == 0. ? kTol : r;
    auto unclear = [&](const Ref& a) { return std::fabs(a.r.distance - limit) < kEps && !(a.r.distance == limit && reported[a.lane] == limit); };
    bool border = false;
    for (const auto& a : all) border = border || unclear(a);
    if (border) {
      // Drop the ones on the border from both sides.
      std::vector<Ref> keep;
      for (const auto& a : all) if (!unclear(a)) keep.push_back(a);
      std::vector<RoadPositionResult> f2;
      for (const auto& f : found) for (const auto& a : keep) if (a.lane == f.road_position.lane) f2.push_back(f);
      CheckFind(c, f2, keep, r, desc());
    } else {
      CheckFind(c, found, all, r, desc());
    }
    if (brute) {
      c.op();
      const auto f3 = geometry_base::BruteForceFindRoadPositionsStrategy(w.rg.get(), p, r);
      c.expect(f3.size() == found.size(), "free-function-size", desc);
      if (!border) CheckFind(c, f3, all, r, "free function " + desc());
      // Filters keep what they accept, in order.
      for (int mask = 0; mask < (1 << std::min<size_t>(found.size(), 4)); ++mask) {
        std::vector<const api::Lane*> accept;
        for (size_t i = 0; i < found.size(); ++i) if (mask >> (i % 4) & 1) accept.push_back(found[i].road_position.lane);
        c.op();
        const auto kept = geometry_base::FilterRoadPositionResults(
            found, [&](const RoadPositionResult& q) { return std::count(accept.begin(), accept.end(), q.road_position.lane) > 0; });
        c.expect(kept.size() == accept.size(), "filter-size", desc);
        for (size_t i = 0; i < accept.size() && i < kept.size(); ++i) {
          const Ref* want = nullptr;
          for (const auto& a : all) if (a.lane == accept[i]) want = &a;
          c.expect(want != nullptr && Same(kept[i], *want), "filter-content", desc);
        }
      }
    }
  }
}

void Queries(mc::Ctx& c) {
  const int n = static_cast<int>(Roads().size());
  const int max_roads = mc::Thorough() ? 3 : 2;
  // A subset of roads, in increasing order; the junction grouping does not matter.
  std::vector<int> roads;
  int next = 0;
  for (int k = 0; k < max_roads; ++k) {
    const int pick = c.choose(n - next + 1);  // The last one: no more.
    if (pick == n - next) break;
    roads.push_back(next + pick);
    next += pick + 1;
    if (next >= n) break;
  }
  c.assume(!roads.empty());
  const bool moved = c.flip();
  const Vector3 t = moved ? Vector3(4., -8., 2.) : Vector3(0., 0., 0.);
  const bool reversed = roads.size() > 1 && c.flip();  // Order of construction.
  const int strategy = c.choose(1 + static_cast<int>(KdSteps().size()));
  if (reversed) std::reverse(roads.begin(), roads.end());

  world::World w(kTol, kTol, 1., t);
  const bool one_junction = strategy == 0;
  if (one_junction) w.Junction("j");
  std::string what;
  for (int r : roads) {
    if (!one_junction) w.Junction("j" + std::to_string(r));
    w.Segment("s" + std::to_string(r));
    for (const auto& s : Roads()[r]) w.Lane(s), what += s.id + " ";
  }
  what += (moved ? "moved " : "") + std::string(strategy == 0 ? "brute-force" : "kd-tree step " + std::to_string(KdSteps()[strategy - 1]));
  c.trace([&] { return "lanes: " + what; });
  if (strategy == 0) {
    if (moved) w.rg->InitializeStrategy<geometry_base::BruteForceStrategy>();  // Otherwise the default.
  } else {
    w.rg->InitializeStrategy<geometry_base::KDTreeStrategy>(KdSteps()[strategy - 1]);
  }
  c.state(what + Show(t) + (reversed ? "r" : ""));

  const std::vector<double> xs{-3., -1. / 128., 0., 1., 3., 4.5, 5.25, 8., 13., 17.};
  const std::vector<double> ys{-8., -5.5, -2. - 1. / 128., -2., -1., -.25, 0., .5, 1.25, 2. + 1. / 128, 3., 7.};
  const std::vector<double> zs{-1., -1. / 128., 0., 1., 2., 2.5, 4., 5., 6.75, 9.};
  const std::vector<double> radii{0., 1. / 128., .5, 2., 6., kInf};
  // Where the documentation does not pick one segment (equal heights), any of the candidates with the least |r|.
  for (double x : xs) {
    for (double y : ys) {
      for (double z : zs) {
        CheckPoint(c, w, Vector3(x, y, z), t, what, strategy == 0, radii);
      }
    }
  }
  c.op(3);
  const InertialPosition o(1., 1., 1.);
  c.expect(mc::Throws([&] { w.rg->ToRoadPosition(o, RoadPosition(nullptr, api::LanePosition(1., 0., 0.))); }), "null-hint-accepted", [&] { return what; });
  for (double bad : {-1., -1e-6, -kInf}) c.expect(mc::Throws([&] { w.rg->FindRoadPositions(o, bad); }), "negative-radius-accepted", [&] { return what; });
  c.expect(mc::Throws([&] { geometry_base::BruteForceFindRoadPositionsStrategy(w.rg.get(), o, -1.); }), "negative-radius-accepted");
  c.expect(mc::Throws([&] { geometry_base::BruteForceFindRoadPositionsStrategy(nullptr, o, 1.); }), "null-road-accepted");
}

// Roads of many lanes, segments and junctions, here and far away: none of them is out of the search.
void Many(mc::Ctx& c) {
  const int nj = c.pick(mc::Thorough() ? std::vector<int>{1, 2, 3, 5, 8, 17} : std::vector<int>{1, 3, 8});
  const int ns = c.pick(mc::Thorough() ? std::vector<int>{1, 2, 3, 4, 6, 9} : std::vector<int>{1, 3, 6});
  const int nl = c.pick(mc::Thorough() ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 13} : std::vector<int>{1, 2, 4, 7});
  const int far = c.choose(3);
  const Vector3 t = far == 0 ? Vector3(0., 0., 0.) : far == 1 ? Vector3(1024., -20480., 32.) : Vector3(-2., 3., 128.);
  const int strategy = c.choose(3);
  const bool stacked = c.flip();  // The segments of a junction lie side by side, or on top of each other.
  world::World w(kTol, kTol, 1., t);
  for (int j = 0; j < nj; ++j) {
    w.Junction("j" + std::to_string(j));
    for (int s = 0; s < ns; ++s) {
      w.Segment("j" + std::to_string(j) + "s" + std::to_string(s));
      for (int l = 0; l < nl; ++l)
        w.Lane(L("j" + std::to_string(j) + "s" + std::to_string(s) + "l" + std::to_string(l), 20. * j, 2. * l + (stacked ? 0. : (2. * nl + 1.) * s), stacked ? 6. * s : 0., 0., 16.));
    }
  }
  const std::string what = std::to_string(nj) + " junctions x " + std::to_string(ns) + (stacked ? " stacked" : "") + " segments x " + std::to_string(nl) + " lanes, frame " + Show(t) + " strategy " + std::to_string(strategy);
  c.trace([&] { return what; });
  c.state(what);
  if (strategy == 0) w.rg->InitializeStrategy<geometry_base::BruteForceStrategy>();
  if (strategy == 1) w.rg->InitializeStrategy<geometry_base::KDTreeStrategy>(4.);
  if (strategy == 2) w.rg->InitializeStrategy<geometry_base::KDTreeStrategy>(1.5);
  // About the middle of some lanes, within them and above; far from all of them.
  const int n = static_cast<int>(w.order.size());
  for (const int i : std::set<int>{0, 1 % n, n / 3, n / 2, 2 * n / 3, std::max(0, n - 2), n - 1}) {
    const Vector3 o = w.order[i]->spec.pose.origin;
    for (const Vector3& d : {Vector3(8., .25, 0.), Vector3(3., -.5, 5.), Vector3(15., 0., 1.)}) CheckPoint(c, w, o + d, t, what, strategy == 0, {0., 2., 25., kInf});
  }
  for (const Vector3& q : {Vector3(-200., 3., 40.), Vector3(512., -1024., 0.), Vector3(30., 600., -700.)}) CheckPoint(c, w, q, t, what, strategy == 0, {0., 512., kInf});
}

// The order in which candidates are preferred.
void Closer(mc::Ctx& c) {
  world::World w(kTol);
  w.Junction("j").Segment("s0");
  w.Lane(L("x", 0, 0, 0, 0, 8, 2.));
  w.Lane(L("y", 0, 4, 0, 0, 8, 4., 0., 4., 0., 0., 0.));  // 3 m at s = 2, where the candidates are.
  w.Segment("s1");
  w.Lane(L("z", 0, 8, 0, 0, 8, 1., 0., 4., 0., 0., 5.));  // 2 m at s = 2.
  const std::vector<const api::Lane*> lanes{w["x"], w["y"], w["z"]};
  const std::vector<double> half{2., 3., 2.};
  struct Cand {
    int lane;
    double d, r, h;
  };
  auto pick = [&] {
    Cand q;
    q.lane = c.choose(3);
    q.d = c.pick(std::vector<double>{0., 1., 1. + 1e-13, 1. + 1e-11, 1. + 1e-5, 2.});
    q.r = c.pick(std::vector<double>{-4., -3., -2.5, -2., -1., 0., .5, 1., 2., 2.5, 3., 4.});
    q.h = c.pick(std::vector<double>{0., 1e-13, 1e-5, 1., -1.});
    return q;
  };
  const Cand n = pick();
  const Cand o = pick();
  auto make = [&](const Cand& q) {
    return RoadPositionResult{RoadPosition(lanes[q.lane], api::LanePosition(2., q.r, q.h)), InertialPosition(0., 0., 0.), q.d};
  };
  c.op();
  c.trace([&] { std::ostringstream s; s << "new " << n.lane << " d " << n.d << " r " << n.r << " h " << n.h << "; old " << o.lane << " d " << o.d << " r " << o.r << " h " << o.h; return s.str(); });
  c.state(mc::H() << n.lane << o.lane << static_cast<uint64_t>(n.d * 64) << static_cast<uint64_t>((o.d + 9) * 64));
  const bool got = geometry_base::IsNewRoadPositionResultCloser(make(n), make(o));
  if (std::fabs(n.d - o.d) > kTie) {
    c.nontrivial();
    c.expect(got == (n.d < o.d), "distance");
    return;
  }
  if (n.lane / 2 != o.lane / 2 && std::fabs(n.h - o.h) > kTie) {
    c.nontrivial();
    c.expect(got == (n.h < o.h), "height");
    return;
  }
  if (std::fabs(n.r) == half[n.lane] || std::fabs(o.r) == half[o.lane]) return;  // On an edge: neither in nor out.
  const bool ni = std::fabs(n.r) < half[n.lane], oi = std::fabs(o.r) < half[o.lane];
  c.nontrivial();
  c.expect(got == (ni != oi ? ni : std::fabs(n.r) < std::fabs(o.r)), "lateral");
}

void Empty(mc::Ctx& c) {
  const int kind = c.choose(2);
  world::World w(kTol);
  if (kind == 1) w.Junction("j").Segment("s");  // No lanes.
  w.rg->InitializeStrategy<geometry_base::BruteForceStrategy>();
  const double r = c.pick(std::vector<double>{0., 1., kInf});
  c.op(2);
  c.state(kind * 10 + (r > 0.));
  c.expect(w.rg->FindRoadPositions(InertialPosition(0., 0., 0.), r).empty(), "empty-find");
  c.expect(mc::Throws([&] { w.rg->ToRoadPosition(InertialPosition(0., 0., 0.)); }), "empty-nearest-accepted");
  c.expect(mc::Throws([&] { w.rg->InitializeStrategy<geometry_base::KDTreeStrategy>(1.); }), "kd-tree-without-lanes-accepted");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"queries", "all sets of up to 2 (thorough: 3) of 10 roads (parallel, crossing, bridges, gaps, banked, climbing, flat, tapering) in both "
                               "construction orders x frame translations x {brute force, kd-tree with several sampling steps} x a 10x12x10 grid of "
                               "points x 6 radii (zero to infinite) x hints x result filters", Queries},
                   {"many", "roads of up to 8 (thorough 17) junctions x 6 (9) segments x 7 (13) lanes, side by side or stacked, 3 frames, 3 strategies: points about 7 of their lanes, and far ones", Many},
                   {"closer", "all pairs of candidates over 3 lanes x 6 distances x 12 lateral positions x 5 heights", Closer},
                   {"empty", "roads without lanes", Empty}});
}
