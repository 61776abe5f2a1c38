// Waypoints along a route: evenly spaced by path length, whatever the ranges, their directions and the boundaries.
#include <cmath>
#include <limits>
#include <vector>

#include "maliput/api/regions.h"
#include "mc.h"
#include "world.h"

using namespace maliput;
using math::Vector3;

namespace {

constexpr double kTol = 1. / 64.;

struct R {
  const char* lane;
  double s0, s1;
};

void Sample(mc::Ctx& c) {
  static const std::vector<R> pool{{"a", 0., 8.},   {"a", 1.5, 4.25}, {"a", 8., 0.}, {"b", 0., 5.}, {"b", 3.5, .25},
                                   {"d", 0., .75},  {"d", 2., 2.},    {"d", 3., 1.}, {"d", .5, .5 + 1. / 128.}};
  const int n = 1 + c.choose(mc::Thorough() ? 5 : 4);
  const double rate = c.pick(std::vector<double>{1. / 256., 1. / 64., .25, .375, 1., 2.5, 3., 8., 13., 100., std::numeric_limits<double>::infinity()});
  const Vector3 t = c.flip() ? Vector3(10., -20., 5.) : Vector3(0., 0., 0.);
  world::World w(kTol, kTol, 1., t);
  auto add = [&](const char* id, double x, double y, double yaw, double len, double pitch) {
    world::LaneSpec s;
    s.id = id;
    s.pose = {Vector3(x, y, 0.), yaw, pitch};
    s.length = len;
    w.Road(id, {s});
  };
  add("a", 0., 0., 0., 8., 0.);
  add("b", 8., 0., M_PI / 2., 5., .25);
  add("d", 3., 7., -M_PI, 3., 0.);
  std::vector<api::LaneSRange> ranges;
  std::vector<R> rs;
  double total = 0.;
  for (int i = 0; i < n; ++i) {
    rs.push_back(c.pick(pool));
    ranges.emplace_back(api::LaneId(rs.back().lane), api::SRange(rs.back().s0, rs.back().s1));
    total += std::fabs(rs.back().s1 - rs.back().s0);
  }
  auto what = [&] {
    std::ostringstream o;
    for (const auto& r : rs) o << r.lane << "[" << r.s0 << "," << r.s1 << "] ";
    o << "rate " << rate;
    return o.str();
  };
  c.trace(what);
  c.state(what() + (t.x() == 0. ? "" : "t"));
  std::vector<api::InertialPosition> got;
  c.op();
  c.expect(!mc::Throws([&] { got = w.rg->SampleAheadWaypoints(api::LaneSRoute(ranges), rate); }), "throws", what);

  // Reference: the point at each path length.
  auto at = [&](double d) {
    for (size_t i = 0; i < rs.size(); ++i) {
      const double len = std::fabs(rs[i].s1 - rs[i].s0);
      if (d <= len || i + 1 == rs.size()) {
        d = std::min(d, len);
        return w[rs[i].lane]->Backend(rs[i].s0 + (rs[i].s1 >= rs[i].s0 ? d : -d), 0., 0.) + t;
      }
      d -= len;
    }
    return Vector3();
  };
  const double step = std::max(kTol, std::min(rate, total));
  std::vector<double> want;
  long k = 0;
  for (; k * step <= total + 1e-9; ++k) want.push_back(std::min(k * step, total));
  const double rest = total - want.back();
  if (rest > kTol + 1e-9) want.push_back(total);
  const bool optional_end = std::fabs(rest - kTol) < 1e-9;
  c.nontrivial(want.size() > 1);
  c.expect(got.size() == want.size() || (optional_end && got.size() == want.size() + 1), "count",
           [&] { return what() + " got " + std::to_string(got.size()) + " want " + std::to_string(want.size()); });
  for (size_t i = 0; i < want.size(); ++i) {
    // At the boundary between two ranges either of the two coinciding path positions is right.
    bool ok = (got[i].xyz() - at(want[i])).norm() <= 1e-9 || (got[i].xyz() - at(want[i] + 1e-9)).norm() <= 1e-8;
    if (!ok) {
      double acc = 0.;
      for (size_t q = 0; q < rs.size() && !ok; ++q) {
        if (std::fabs(acc - want[i]) < 1e-9) ok = (got[i].xyz() - (w[rs[q].lane]->Backend(rs[q].s0, 0., 0.) + t)).norm() <= 1e-9;
        acc += std::fabs(rs[q].s1 - rs[q].s0);
        if (std::fabs(acc - want[i]) < 1e-9) ok = ok || (got[i].xyz() - (w[rs[q].lane]->Backend(rs[q].s1, 0., 0.) + t)).norm() <= 1e-9;
      }
    }
    c.expect(ok, "position", [&] { return what() + " waypoint " + std::to_string(i); });
  }
}

void Rejected(mc::Ctx& c) {
  world::World w(kTol);
  world::LaneSpec s;
  s.id = "a";
  w.Road("a", {s});
  const double rate = c.pick(std::vector<double>{1., 0., -1., -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()});
  const int n = 1 + c.choose(3);
  std::vector<api::LaneSRange> ranges;
  bool known = true;
  for (int i = 0; i < n; ++i) {
    const bool k = c.flip();
    known = known && k;
    ranges.emplace_back(api::LaneId(k ? "a" : "unknown"), api::SRange(0., 2.));
  }
  c.op();
  c.state(mc::H() << static_cast<uint64_t>(rate * 8 + 100) << n << known);
  const bool t = mc::Throws([&] { w.rg->SampleAheadWaypoints(api::LaneSRoute(ranges), rate); });
  c.expect(t == !(rate > 0. && known), t ? "rejected" : "accepted");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"sampling", "all routes of up to 4 (thorough: 5) ranges out of 9 (both directions, partial, degenerate) over 3 lanes x 11 rates x 2 frames", Sample},
                               {"rejected", "non-positive rates and unknown lanes", Rejected}});
}
