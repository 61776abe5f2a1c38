// Routes and phases: construction, positions in a route, relations of its ranges, routes of lanes and connectivity.
#include <algorithm>
#include <cmath>
#include <map>
#include <optional>
#include <ostream>
#include <set>
#include <vector>

#include "mc.h"
#include "maliput/routing/lane_s_range_relation.h"
#include "maliput/routing/phase.h"
#include "maliput/routing/route.h"
#include "mc.h"
#include "topo.h"

using namespace maliput;
using routing::LaneSRangeRelation;
using routing::Phase;
using routing::Route;

namespace {

constexpr double kTol = 1. / 64.;
constexpr double kLength = 8.;
constexpr double kWidth = 4.;
constexpr double kEps = 1e-9;

bool Near(double a, double b) { return std::fabs(a - b) <= kEps; }
double Clamp(double v, double a, double b) { return v < a ? a : v > b ? b : v; }

std::string Str(const api::RoadPosition& p) {
  std::ostringstream os;
  os << (p.lane ? p.lane->id().string() : "null") << "(" << p.pos.s() << "," << p.pos.r() << "," << p.pos.h() << ")";
  return os.str();
}
std::string Str(const api::LaneSRange& r) {
  std::ostringstream os;
  os << r.lane_id().string() << "[" << r.s_range().s0() << "," << r.s_range().s1() << "]";
  return os.str();
}

// One range of a route: a strip of the plane, travelled in the direction +x.
struct Strip {
  const world::StraightLane* lane;
  double y;        // Of its centerline.
  double x0, x1;   // Of the range.
  double X0, X1;   // Of the lane.
  bool flipped;    // The lane goes in the direction -x.
  int phase, index;
  double S(double x) const { return flipped ? X1 - x : x - X0; }
  double X(double s) const { return flipped ? X1 - s : X0 + s; }
  api::LaneSRange Range() const { return api::LaneSRange(lane->id(), api::SRange(S(x0), S(x1))); }
  bool Contains(const api::RoadPosition& p, double tol) const {
    return p.lane == lane && X(p.pos.s()) >= x0 - tol && X(p.pos.s()) <= x1 + tol;
  }
  // Where a point is in the range.
  struct Fit {
    double s, r, h, distance;
    math::Vector3 nearest;
    bool within;  // The lane bounds.
  };
  Fit Find(const math::Vector3& p) const {
    double x = Clamp(p.x(), X0, X1), dy = Clamp(p.y() - y, -kWidth / 2, kWidth / 2), z = Clamp(p.z(), 0., 5.);
    if (x < x0 - kTol || x > x1 + kTol) {
      x = std::fabs(x - x0) <= std::fabs(x - x1) ? x0 : x1;
      dy = z = 0.;
    }
    const math::Vector3 n(x, y + dy, z);
    const double r = flipped ? -dy : dy;
    return {S(x), r, z, (p - n).norm(), n, r >= -kWidth / 2 && r < kWidth / 2};
  }
};

struct Layout {
  std::unique_ptr<world::World> w;
  std::unique_ptr<api::RoadNetwork> rn;
  std::vector<std::vector<Strip>> strips;  // Per phase, right to left in the frame of the segment.
  std::string text;
  const world::StraightLane* far{};
  std::vector<const world::StraightLane*> twins;  // Not connected, at the place of the lanes of the last phase.
};

// A route of `n` phases along +x. With a tilt, the whole road is rotated rigidly afterwards.
Layout MakeLayout(mc::Ctx& c, int phases, bool split_allowed, bool twins = false, const world::Pose& tilt = {}) {
  Layout l;
  world::LaneSpec frame_spec;
  frame_spec.id = "frame";
  frame_spec.pose = tilt;
  const world::StraightLane frame(frame_spec);
  auto rotate = [&](world::LaneSpec* s) {
    const bool back = s->pose.yaw != 0.;
    s->pose.origin = frame.Backend(s->pose.origin.x(), s->pose.origin.y(), s->pose.origin.z());
    s->pose.yaw += tilt.yaw;
    s->pose.pitch = back ? -tilt.pitch : tilt.pitch;
    s->pose.roll = back ? -tilt.roll : tilt.roll;
  };
  l.w = std::make_unique<world::World>(kTol);
  struct Seg {
    int lanes, offset;
    bool flipped;
    double x;
  };
  std::vector<Seg> segs;
  std::vector<std::pair<int, int>> parts;  // Of each phase: segment, part (0: all of it, 1: first half, 2: second half).
  double x = 0.;
  for (int i = 0; i < phases; ++i) {
    if (split_allowed && i > 0 && parts.back().second == 0 && c.flip()) {
      parts.back().second = 1;
      parts.push_back({parts.back().first, 2});
      l.text += " |";
      continue;
    }
    Seg s;
    s.lanes = 1 + c.choose(3);
    s.flipped = c.flip();
    s.x = x;
    s.offset = segs.empty() ? 0 : segs.back().offset - 1 + c.choose(3);
    // Some lane continues another one.
    if (!segs.empty()) c.assume(s.offset < segs.back().offset + segs.back().lanes && segs.back().offset < s.offset + s.lanes);
    x += kLength;
    segs.push_back(s);
    parts.push_back({static_cast<int>(segs.size()) - 1, 0});
    l.text += " " + std::to_string(s.lanes) + "@" + std::to_string(s.offset) + (s.flipped ? "-" : "+");
  }
  std::vector<std::vector<world::StraightLane*>> lanes(segs.size());
  auto add = [&](const Seg& s, const std::string& prefix, std::vector<world::StraightLane*>* out) {
    for (int k = 0; k < s.lanes; ++k) {
      world::LaneSpec spec;
      spec.id = prefix + std::to_string(k);
      spec.length = kLength;
      const int row = s.offset + (s.flipped ? s.lanes - 1 - k : k);
      spec.pose.origin = math::Vector3(s.flipped ? s.x + kLength : s.x, kWidth * row, 0.);
      spec.pose.yaw = s.flipped ? M_PI : 0.;
      rotate(&spec);
      out->push_back(l.w->Lane(spec));
    }
  };
  for (size_t i = 0; i < segs.size(); ++i) {
    l.w->Junction("j" + std::to_string(i));
    l.w->Segment("s" + std::to_string(i));
    add(segs[i], "s" + std::to_string(i) + "_", &lanes[i]);
  }
  l.w->AutoBranch();
  l.w->Junction("jfar");
  l.w->Segment("far");
  world::LaneSpec far;
  far.id = "far";
  far.pose.origin = math::Vector3(2., 40., 0.);
  far.length = kLength;
  rotate(&far);
  l.far = l.w->Lane(far);
  if (twins) {
    l.w->Junction("jtwin");
    l.w->Segment("twin");
    std::vector<world::StraightLane*> t;
    add(segs.back(), "twin_", &t);
    l.twins.assign(t.begin(), t.end());
  }
  l.w->CloseEnds();
  for (int i = 0; i < phases; ++i) {
    const auto [s, part] = parts[i];
    l.strips.emplace_back();
    for (int k = 0; k < segs[s].lanes; ++k) {
      const int row = segs[s].offset + (segs[s].flipped ? segs[s].lanes - 1 - k : k);
      Strip st{lanes[s][k], kWidth * row, segs[s].x, segs[s].x + kLength, segs[s].x, segs[s].x + kLength, segs[s].flipped, i, k};
      if (part == 1) st.x1 -= kLength / 2;
      if (part == 2) st.x0 += kLength / 2;
      // The ends of the route are within the lanes.
      if (i == 0) st.x0 += 1.;
      if (i + 1 == phases) st.x1 -= 1.5;
      l.strips.back().push_back(st);
    }
  }
  l.rn = topo::Network(std::move(l.w->rg));
  return l;
}

api::RoadPosition At(const Strip& s, double x) { return {s.lane, api::LanePosition(s.S(x), 0., 0.)}; }

// Positions at the interface of the phases i and i + 1.
void Interface(const Layout& l, int i, std::vector<api::RoadPosition>* ends, std::vector<api::RoadPosition>* starts) {
  for (const Strip& a : l.strips[i]) {
    for (const Strip& b : l.strips[i + 1]) {
      if (a.y != b.y) continue;
      ends->push_back(At(a, a.x1));
      starts->push_back(At(b, b.x0));
    }
  }
}

Route MakeRoute(const Layout& l, int first, int last) {
  const int n = l.strips.size();
  std::vector<std::vector<api::RoadPosition>> starts(n), ends(n);
  for (int i = 0; i + 1 < n; ++i) Interface(l, i, &ends[i], &starts[i + 1]);
  starts[0] = {At(l.strips[0][first], l.strips[0][first].x0)};
  ends[n - 1] = {At(l.strips[n - 1][last], l.strips[n - 1][last].x1)};
  std::vector<Phase> phases;
  for (int i = 0; i < n; ++i) {
    std::vector<api::LaneSRange> ranges;
    for (const auto& s : l.strips[i]) ranges.push_back(s.Range());
    phases.emplace_back(i, kTol, starts[i], ends[i], ranges, l.rn.get());
  }
  return Route(phases, l.rn.get());
}

void CheckFit(mc::Ctx& c, const std::vector<const Strip*>& all, const Strip* got, const routing::PhasePositionResult& r,
              const math::Vector3& p, const std::function<std::string()>& what) {
  double best = 1e9;
  std::vector<Strip::Fit> fits;
  for (const Strip* s : all) {
    fits.push_back(s->Find(p));
    best = std::min(best, fits.back().distance);
  }
  const Strip::Fit f = got->Find(p);
  c.expect(Near(f.distance, best), "not the closest range", what);
  c.expect(Near(r.distance, best), "distance", what);
  c.expect(Near(r.lane_position.s(), f.s) && Near(r.lane_position.r(), f.r) && Near(r.lane_position.h(), f.h), "lane position", what);
  c.expect((r.inertial_position.xyz() - f.nearest).norm() <= kEps, "inertial position", what);
  for (size_t i = 0; i < all.size(); ++i) {
    if (all[i] == got || all[i]->lane->segment() != got->lane->segment() || !Near(fits[i].distance, best)) continue;
    c.nontrivial();
    c.expect(f.within || !fits[i].within, "a range with the position within its bounds is preferred", what);
    c.expect(f.within != fits[i].within || std::fabs(f.r) <= std::fabs(fits[i].r) + kEps, "the least lateral offset is preferred", what);
  }
}

void Positions(mc::Ctx& c, const Layout& l, const Route& route) {
  std::vector<const Strip*> all;
  for (const auto& ss : l.strips) {
    for (const auto& s : ss) all.push_back(&s);
  }
  const double x_end = l.strips.back()[0].X1;
  std::vector<double> xs, ys;
  for (double x = -2.; x <= x_end + 2.; x += 1.) xs.push_back(x);
  xs.push_back(3.99);
  xs.push_back(4.25);
  for (double y = -10.; y <= 26.; y += 2.) ys.push_back(y);
  for (double y : {-2.5, -1.5, 1., 3., 5.5}) ys.push_back(y);
  for (double x : xs) {
    for (double y : ys) {
      for (double z : {-1., 0., 1.}) {
        c.op();
        const math::Vector3 p(x, y, z);
        auto what = [&] { return l.text + " at " + std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(z); };
        const auto r = route.FindRoutePosition(api::InertialPosition(x, y, z));
        c.expect(r.phase_index >= 0 && r.phase_index < static_cast<int>(l.strips.size()), "phase index", what);
        const auto& ss = l.strips[r.phase_index];
        const int k = r.phase_position_result.lane_s_range_index;
        c.expect(k >= 0 && k < static_cast<int>(ss.size()), "range index", what);
        CheckFit(c, all, &ss[k], r.phase_position_result, p, what);
        for (size_t i = 0; i < l.strips.size(); ++i) {
          std::vector<const Strip*> own;
          for (const auto& s : l.strips[i]) own.push_back(&s);
          const auto pr = route.Get(i).FindPhasePosition(api::InertialPosition(x, y, z));
          c.expect(pr.lane_s_range_index >= 0 && pr.lane_s_range_index < static_cast<int>(own.size()), "range index", what);
          CheckFit(c, own, own[pr.lane_s_range_index], pr, p, what);
        }
      }
    }
  }
  // Road positions.
  for (const auto* lane : l.w->order) {
    for (double s : {0., .5, 1., 2.5, 4., 5.75, 6.5, 7., 8.}) {
      for (double rr : {-1., 0., 2.}) {
        c.op();
        const api::RoadPosition rp(lane, api::LanePosition(s, rr, 0.));
        auto what = [&] { return l.text + " at " + Str(rp); };
        std::vector<const Strip*> in;
        for (const Strip* st : all) {
          if (st->Contains(rp, kTol)) in.push_back(st);
        }
        auto centerline = [&](const Strip& st, const routing::PhasePositionResult& r) {
          c.expect(Near(r.lane_position.s(), s) && Near(r.lane_position.r(), 0.) && Near(r.lane_position.h(), 0.), "position in the centerline", what);
          c.expect((r.inertial_position.xyz() - math::Vector3(st.X(s), st.y, 0.)).norm() <= kEps && Near(r.distance, 0.), "point of the centerline", what);
        };
        const auto r = route.FindRoutePosition(rp);
        c.expect(r.phase_index >= 0 && r.phase_index < static_cast<int>(l.strips.size()), "phase index", what);
        const auto& ss = l.strips[r.phase_index];
        const int k = r.phase_position_result.lane_s_range_index;
        c.expect(k >= 0 && k < static_cast<int>(ss.size()), "range index", what);
        if (!in.empty()) {
          c.nontrivial();
          c.expect(std::find(in.begin(), in.end(), &ss[k]) != in.end(), "range of the position", what);
          centerline(ss[k], r.phase_position_result);
        } else {
          CheckFit(c, all, &ss[k], r.phase_position_result, lane->Backend(s, rr, 0.), what);
        }
        for (size_t i = 0; i < l.strips.size(); ++i) {
          std::vector<const Strip*> own;
          const Strip* contains = nullptr;
          for (const auto& st : l.strips[i]) {
            own.push_back(&st);
            if (st.Contains(rp, kTol)) contains = &st;
          }
          const auto pr = route.Get(i).FindPhasePosition(rp);
          c.expect(pr.lane_s_range_index >= 0 && pr.lane_s_range_index < static_cast<int>(own.size()), "range index", what);
          if (contains) {
            c.expect(own[pr.lane_s_range_index] == contains, "range of the position in the phase", what);
            centerline(*contains, pr);
          } else {
            CheckFit(c, own, own[pr.lane_s_range_index], pr, lane->Backend(s, rr, 0.), what);
          }
          std::vector<api::LaneSRange> ranges = route.Get(i).lane_s_ranges();
          c.expect(routing::ValidatePositionIsInLaneSRanges(rp, ranges, kTol) == (contains != nullptr), "position is in the ranges", what);
        }
      }
    }
  }
  const api::RoadPosition null;
  c.expect(mc::Throws([&] { route.FindRoutePosition(null); }), "null lane in route", l.text.c_str());
  c.expect(mc::Throws([&] { route.Get(0).FindPhasePosition(null); }), "null lane in phase", l.text.c_str());
  c.expect(mc::Throws([&] { route.ComputeLaneSRoute(null); }), "null lane in lane route", l.text.c_str());
}

const char* Name(LaneSRangeRelation r) { return routing::LaneSRangeRelationMapper().at(r); }

void Relations(mc::Ctx& c, const Layout& l, const Route& route) {
  using R = LaneSRangeRelation;
  auto ranges_of = [](const Strip& s) {
    std::vector<api::LaneSRange> v{s.Range()};
    v.push_back(api::LaneSRange(s.lane->id(), api::SRange(s.S(s.x0 + .5), s.S(s.x1 - .5))));
    v.push_back(api::LaneSRange(s.lane->id(), api::SRange(s.S(s.x1 - .5), s.S(s.x0 + .5))));
    return v;
  };
  for (const auto& sa : l.strips) {
    for (const Strip& a : sa) {
      for (const auto& sb : l.strips) {
        for (const Strip& b : sb) {
          std::set<R> want;
          if (a.phase == b.phase) {
            const int d = b.index - a.index;  // To the left.
            if (d == 0) {
              want = {R::kCoincident};
            } else if (std::abs(d) == 1) {
              want = a.flipped ? std::set<R>{R::kAdjacentLeft, R::kAdjacentRight} : std::set<R>{d > 0 ? R::kAdjacentLeft : R::kAdjacentRight};
            } else {
              want = a.flipped ? std::set<R>{R::kLeft, R::kRight} : std::set<R>{d > 0 ? R::kLeft : R::kRight};
            }
          } else if (std::abs(a.phase - b.phase) > 1) {
            want = {R::kUnrelated};
          } else if (b.phase > a.phase) {
            if (a.y == b.y) want = {R::kSucceedingStraight};
            else if (a.flipped) want = {R::kSucceedingLeft, R::kSucceedingRight};
            else want = {b.y > a.y ? R::kSucceedingLeft : R::kSucceedingRight};
          } else {
            if (a.y == b.y) want = {R::kPrecedingStraight};
            else if (a.flipped) want = {R::kPrecedingLeft, R::kPrecedingRight};
            else want = {b.y > a.y ? R::kPrecedingLeft : R::kPrecedingRight};
          }
          for (const auto& ra : ranges_of(a)) {
            for (const auto& rb : ranges_of(b)) {
              c.op();
              const R got = route.ComputeLaneSRangeRelation(ra, rb);
              c.expect(want.count(got), "relation", [&] { return l.text + ": " + Str(rb) + " to " + Str(ra) + " is " + Name(got) + " instead of " + Name(*want.begin()); });
              const R back = route.ComputeLaneSRangeRelation(rb, ra);
              // Exactly one of the two is before the other one, and sides are opposite.
              static const std::map<R, R> opposite{{R::kAdjacentLeft, R::kAdjacentRight}, {R::kAdjacentRight, R::kAdjacentLeft}, {R::kLeft, R::kRight}, {R::kRight, R::kLeft}, {R::kCoincident, R::kCoincident}, {R::kUnrelated, R::kUnrelated}, {R::kSucceedingStraight, R::kPrecedingStraight}, {R::kPrecedingStraight, R::kSucceedingStraight}};
              const auto it = opposite.find(got);
              if (it != opposite.end()) c.expect(back == it->second, "opposite relation", l.text.c_str());
            }
          }
        }
      }
      // Ranges that are not part of the route.
      const api::LaneSRange far(l.far->id(), api::SRange(0., 1.)), unknown(api::LaneId("nowhere"), api::SRange(0., 1.));
      std::vector<api::LaneSRange> out{far, unknown};
      if (a.x0 > a.X0 && a.phase == 0) out.push_back(api::LaneSRange(a.lane->id(), api::SRange(a.S(a.X0), a.S(a.x1))));
      for (const auto& o : out) {
        c.expect(route.ComputeLaneSRangeRelation(a.Range(), o) == R::kUnknown && route.ComputeLaneSRangeRelation(o, a.Range()) == R::kUnknown, "relation to a range outside of the route", [&] { return l.text + " " + Str(o); });
      }
    }
  }
}

// The least number of lane switches from one range to another one, with the lanes that continue one another.
int Switches(const Layout& l, const Strip& from, const Strip& to) {
  std::map<double, int> cost;
  for (const Strip& s : l.strips[from.phase]) cost[s.y] = std::abs(s.index - from.index);
  for (int i = from.phase + 1; i <= to.phase; ++i) {
    std::map<double, int> next;
    for (const Strip& s : l.strips[i]) {
      int best = 1000;
      for (const Strip& e : l.strips[i]) {
        const auto it = cost.find(e.y);
        if (it != cost.end()) best = std::min(best, it->second + std::abs(s.index - e.index));
      }
      next[s.y] = best;
    }
    cost = next;
  }
  return cost.at(to.y);
}

void LaneRoutes(mc::Ctx& c, const Layout& l, const Route& route, int last) {
  std::vector<const Strip*> all;
  for (const auto& ss : l.strips) {
    for (const auto& s : ss) all.push_back(&s);
  }
  const Strip& to = l.strips.back()[last];
  for (const auto* lane : l.w->order) {
    for (double s : {0., .5, 1., 3., 5., 6.5, 7.5, 8.}) {
      c.op();
      const api::RoadPosition from(lane, api::LanePosition(s, 0., 0.));
      auto what = [&] { return l.text + " from " + Str(from) + " to " + to.lane->id().string(); };
      std::vector<const Strip*> firsts;
      for (const Strip* st : all) {
        if (st->Contains(from, kTol)) firsts.push_back(st);
      }
      if (firsts.empty()) {
        c.nontrivial();
        double best = 1e9;
        const auto p = lane->Backend(s, 0., 0.);
        for (const Strip* st : all) best = std::min(best, st->Find(p).distance);
        for (const Strip* st : all) {
          if (Near(st->Find(p).distance, best)) firsts.push_back(st);
        }
      }
      std::optional<api::LaneSRoute> lr;
      std::string text;
      try {
        lr.emplace(route.ComputeLaneSRoute(from));
      } catch (const std::exception& e) {
        c.fail("lane route not found", what() + ": " + e.what());
      }
      for (const auto& r : lr->ranges()) text += " " + Str(r);
      auto full = [&] { return what() + ":" + text; };
      c.expect(!lr->ranges().empty(), "empty lane route", full);
      std::vector<const Strip*> path;
      for (const auto& r : lr->ranges()) {
        const Strip* found = nullptr;
        for (const Strip* st : all) {
          if (st->lane->id() != r.lane_id()) continue;
          const double a = st->X(r.s_range().s0()), b = st->X(r.s_range().s1());
          if (a >= st->x0 - kTol && a <= st->x1 + kTol && b >= st->x0 - kTol && b <= st->x1 + kTol && a <= b) found = st;
        }
        c.expect(found != nullptr, "a range is not part of the route", full);
        path.push_back(found);
      }
      c.expect(std::find(firsts.begin(), firsts.end(), path.front()) != firsts.end(), "first range", full);
      c.expect(path.back() == &to, "last range", full);
      int switches = 0;
      for (size_t i = 0; i + 1 < path.size(); ++i) {
        const Strip &a = *path[i], &b = *path[i + 1];
        const bool straight = b.phase == a.phase + 1 && a.y == b.y;
        const bool side = b.phase == a.phase && std::abs(a.index - b.index) == 1;
        c.expect(straight || side, "consecutive ranges", full);
        switches += side;
      }
      c.expect(switches == Switches(l, *path.front(), to), "number of lane switches", full);
    }
  }
}

void Routes(mc::Ctx& c, int phases, bool split) {
  const Layout l = MakeLayout(c, phases, split);
  c.trace([&] { return l.text; });
  c.state(l.text);
  const int n = l.strips.size();
  for (size_t last = 0; last < l.strips[n - 1].size(); ++last) {
    const int first = last % l.strips[0].size();
    const Route route = MakeRoute(l, first, last);
    c.expect(route.size() == n, "size", l.text.c_str());
    c.expect(route.start_route_position().lane == l.strips[0][first].lane && route.end_route_position().lane == l.strips[n - 1][last].lane, "start and end", l.text.c_str());
    for (int i = 0; i < n; ++i) {
      for (size_t k = 0; k < l.strips[i].size(); ++k) c.expect(route.GetLaneSRange(i, k).lane_id() == l.strips[i][k].lane->id(), "range", l.text.c_str());
    }
    c.expect(route.ValidateEndToEndConnectivity().empty(), "a connected route is reported as not connected", [&] { return l.text + " " + route.ValidateEndToEndConnectivity()[0]; });
    LaneRoutes(c, l, route, last);
    if (last == 0) {
      Positions(c, l, route);
      Relations(c, l, route);
    }
  }
}

// The sides are those of the road, wherever it leads and however it leans.
void Tilted(mc::Ctx& c, int phases) {
  struct T {
    double yaw, pitch, roll;
  };
  static const std::vector<T> tilts{{0., 0., M_PI}, {0., 0., M_PI / 2}, {0., 0., -2.5}, {0., M_PI / 2, 0.}, {0., -M_PI / 2, 0.}, {2., .5, M_PI}, {M_PI / 2, 0., -M_PI / 2}, {-1., -1., 1.}, {M_PI, 0., 0.}, {-M_PI / 2, 0., 0.}, {0.7, 0., 0.}};
  const T t = tilts[c.choose(tilts.size())];
  world::Pose tilt;
  tilt.yaw = t.yaw;
  tilt.pitch = t.pitch;
  tilt.roll = t.roll;
  Layout l = MakeLayout(c, phases, true, false, tilt);
  l.text += " tilted yaw " + std::to_string(t.yaw) + " pitch " + std::to_string(t.pitch) + " roll " + std::to_string(t.roll);
  c.trace([&] { return l.text; });
  c.state(l.text);
  c.nontrivial();
  const int last = l.strips.back().size() - 1;
  const Route route = MakeRoute(l, 0, last);
  c.expect(route.ValidateEndToEndConnectivity().empty(), "a connected route is reported as not connected", l.text.c_str());
  Relations(c, l, route);
}

// Which lists of ranges and positions are a phase.
void Construction(mc::Ctx& c, int max_ranges) {
  static Layout* l = nullptr;
  static std::vector<const world::StraightLane*> lanes;
  if (!l) {
    l = new Layout();
    l->w = std::make_unique<world::World>(kTol);
    std::vector<world::LaneSpec> specs;
    for (int k = 0; k < 4; ++k) {
      world::LaneSpec s;
      s.id = std::string(1, 'a' + k);
      s.pose.origin = math::Vector3(0., kWidth * k, 0.);
      s.length = kLength;
      specs.push_back(s);
    }
    l->w->Road("0", specs);
    for (auto& s : specs) {
      s.id += "x";
      s.pose.origin = s.pose.origin + math::Vector3(kLength, 0., 0.);
    }
    l->w->Road("1", {specs[0]});
    l->w->AutoBranch();
    l->rn = topo::Network(std::move(l->w->rg));
    for (auto* x : l->w->order) lanes.push_back(x);
  }
  struct R {
    int lane;  // 5: unknown.
    double s0, s1;
  };
  std::vector<R> ranges;
  const int n = 1 + c.choose(max_ranges);
  static const std::vector<std::pair<double, double>> extents{{0., 8.}, {8., 2.}, {1., 8. + kTol / 2}, {0., 8.5}};
  int specials = 0;
  for (int i = 0; i < n; ++i) {
    const int lane = c.choose(6);
    const int e = n == 1 ? c.choose(4) : c.choose(3) == 0 ? 0 : 1 + c.choose(3);
    specials += e != 0;
    c.assume(specials <= 2);
    ranges.push_back({lane, extents[e].first, extents[e].second});
  }
  std::vector<api::LaneSRange> v;
  std::string text;
  for (const auto& r : ranges) {
    v.push_back(api::LaneSRange(r.lane == 5 ? api::LaneId("nowhere") : lanes[r.lane]->id(), api::SRange(r.s0, r.s1)));
    text += " " + Str(v.back());
  }
  c.trace([&] { return text; });
  c.state(text);
  auto position_ok = [&](const api::RoadPosition& p, double tol) {
    if (!p.lane) return false;
    for (const auto& r : ranges) {
      if (r.lane == 5 || lanes[r.lane] != p.lane) continue;
      if (p.pos.s() >= std::min(r.s0, r.s1) - tol && p.pos.s() <= std::max(r.s0, r.s1) + tol) return true;
    }
    return false;
  };
  const api::RoadPosition null;
  std::vector<std::vector<api::RoadPosition>> sets{{}, {null}};
  std::vector<api::RoadPosition> single;
  for (int k : {0, 1, 4}) {
    for (double s : {0., .5, 1. - kTol / 2, 2., 8.}) single.push_back({lanes[k], api::LanePosition(s, 0., 0.)});
  }
  for (const auto& p : single) sets.push_back({p});
  for (size_t i = 0; i < single.size(); i += 2) sets.push_back({single[1], single[i]});
  sets.push_back({single[0], null});
  for (double tol : {-kTol, 0., kTol}) {
    // 1: valid, 0: not valid, -1: from left to right or repeated (undecided).
    int valid = tol >= 0.;
    for (const auto& r : ranges) {
      if (r.lane == 5 || std::max(r.s0, r.s1) > kLength + tol) valid = 0;
    }
    for (int i = 0; i + 1 < n && valid; ++i) {
      const int a = ranges[i].lane, b = ranges[i + 1].lane;
      if (a == 4 || b == 4 || std::abs(a - b) != 1) valid = 0;
    }
    for (int i = 0; i + 1 < n && valid; ++i) {
      if (ranges[i + 1].lane < ranges[i].lane) valid = -1;
    }
    if (valid == -1) continue;
    for (size_t i = 0; i < sets.size(); ++i) {
      for (size_t k = 0; k < sets.size(); ++k) {
        if (n > 1 && i != k && i > 3 && k > 3 && (i + k) % 5 != 0) continue;
        bool ok = valid == 1 && !sets[i].empty() && !sets[k].empty();
        for (const auto& p : sets[i]) ok = ok && position_ok(p, tol);
        for (const auto& p : sets[k]) ok = ok && position_ok(p, tol);
        auto what = [&] {
          std::string r = text + " from";
          for (const auto& p : sets[i]) r += " " + Str(p);
          r += " to";
          for (const auto& p : sets[k]) r += " " + Str(p);
          return r + " tolerance " + std::to_string(tol);
        };
        c.op();
        const bool threw = mc::Throws([&] { Phase(0, tol, sets[i], sets[k], v, l->rn.get()); });
        c.expect(threw == !ok, ok ? "a valid phase is rejected" : "an invalid phase is accepted", what);
        if (ok) {
          c.nontrivial();
          const Phase ph(3, tol, sets[i], sets[k], v, l->rn.get());
          c.expect(ph.index() == 3 && ph.lane_s_range_tolerance() == tol && ph.start_positions().size() == sets[i].size() && ph.end_positions().size() == sets[k].size() && ph.lane_s_ranges().size() == v.size(), "phase", what);
          c.expect(mc::Throws([&] { Phase(-1, tol, sets[i], sets[k], v, l->rn.get()); }), "negative index accepted", what);
          c.expect(mc::Throws([&] { Phase(0, tol, sets[i], sets[k], v, nullptr); }), "phase without network accepted", what);
          c.expect(mc::Throws([&] { Phase(0, tol, sets[i], sets[k], {}, l->rn.get()); }), "phase without ranges accepted", what);
          c.expect(mc::Throws([&] { Route({ph}, nullptr); }) && mc::Throws([&] { Route({}, l->rn.get()); }), "invalid route accepted", what);
        }
      }
    }
  }
}

// End to end connectivity: every subset of positions at an interface, each at its place or displaced.
void Connectivity(mc::Ctx& c) {
  const Layout l = MakeLayout(c, 2, true, true);
  c.trace([&] { return l.text; });
  c.state(l.text);
  const bool twin = c.flip();
  const auto &A = l.strips[0], &B = l.strips[1];
  struct P {
    api::RoadPosition p;
    double x, y;
    bool twin;
    int lane;
  };
  // Possible positions: at the interface, or moved back or forward along the lane.
  auto options = [&](const std::vector<Strip>& ss, bool start, bool is_twin) {
    std::vector<P> r;
    for (const Strip& s : ss) {
      const double base = start ? s.x0 : s.x1;
      for (double d : {0., .5}) {
        const double x = base + (start ? d : -d);
        api::RoadPosition p = At(s, x);
        if (is_twin) p.lane = l.twins[s.index];
        r.push_back({p, x, s.y, is_twin, s.index});
      }
    }
    return r;
  };
  const auto ends = options(A, false, false), starts = options(B, true, twin);
  auto choose = [&](const std::vector<P>& o) {
    std::vector<P> r;
    for (size_t i = 0; i < o.size(); i += 2) {
      const int k = c.choose(3);
      if (k) r.push_back(o[i + k - 1]);
    }
    c.assume(!r.empty());
    return r;
  };
  const auto e = choose(ends), s = choose(starts);
  const int n_start = 1 + c.choose(2), n_end = 1 + c.choose(2);
  auto positions = [](const std::vector<P>& ps) {
    std::vector<api::RoadPosition> r;
    for (const auto& p : ps) r.push_back(p.p);
    return r;
  };
  std::vector<api::RoadPosition> first(n_start, At(A[0], A[0].x0)), last;
  std::vector<api::LaneSRange> ra, rb;
  for (const Strip& x : A) ra.push_back(x.Range());
  for (const Strip& x : B) rb.push_back(twin ? api::LaneSRange(l.twins[x.index]->id(), x.Range().s_range()) : x.Range());
  last.assign(n_end, At(B[0], B[0].x1));
  if (twin) {
    for (auto& p : last) p.lane = l.twins[0];
  }
  const Route route({Phase(0, kTol, first, positions(e), ra, l.rn.get()), Phase(1, kTol, positions(s), last, rb, l.rn.get())}, l.rn.get());
  bool want = n_start == 1 && n_end == 1 && e.size() == s.size();
  for (const auto& x : e) {
    bool found = false;
    for (const auto& y : s) {
      // Continuing lanes (or the same one).
      if (x.y == y.y && x.x == y.x && !y.twin) found = true;
    }
    want = want && found;
  }
  c.op();
  if (want) c.nontrivial();
  const auto errors = route.ValidateEndToEndConnectivity();
  c.expect(errors.empty() == want, want ? "a connected route is reported as not connected" : "a disconnected route is reported as connected", [&] {
    std::string t = l.text + " ends";
    for (const auto& x : e) t += " " + Str(x.p);
    t += " starts";
    for (const auto& x : s) t += " " + Str(x.p);
    return t + (errors.empty() ? "" : " " + errors[0]);
  });
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Space> spaces{
      {"construction", "every list of up to 3 ranges (5 lanes, one unknown, 4 extents) x start and end positions x 3 tolerances", [](mc::Ctx& c) { Construction(c, mc::Thorough() ? 4 : 3); }},
      {"route1", "routes of one phase of 1 to 3 lanes, in both directions", [](mc::Ctx& c) { Routes(c, 1, false); }},
      {"route2", "routes of two phases: lanes x offsets x directions, or over one segment", [](mc::Ctx& c) { Routes(c, 2, true); }},
      {"route3", "routes of three phases", [](mc::Ctx& c) { Routes(c, 3, true); }},
      {"tilted", "relations in routes of three phases (thorough: four): lanes x offsets x directions x 11 orientations of the road in space", [](mc::Ctx& c) { Tilted(c, mc::Thorough() ? 4 : 3); }},
      {"connectivity", "routes of two phases: every set of end and start positions, at their place or displaced", Connectivity}};
  if (mc::Thorough()) spaces.push_back({"route4", "routes of four phases", [](mc::Ctx& c) { Routes(c, 4, true); }});
  return mc::Main(argc, argv, spaces);
}
