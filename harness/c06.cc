// Longitudinal regions: SRange, LaneSRange, LaneSRoute, IsIncluded, IsContiguous.
#include <limits>

#include "maliput/api/regions.h"
#include "mc.h"
#include "world.h"

using namespace maliput;
using api::LaneId;
using api::LaneSRange;
using api::LaneSRoute;
using api::SRange;

namespace {

std::string Str(const SRange& r) { return "[" + std::to_string(r.s0()) + "->" + std::to_string(r.s1()) + "]"; }

double Lo(const SRange& r) { return std::min(r.s0(), r.s1()); }
double Hi(const SRange& r) { return std::max(r.s0(), r.s1()); }

enum class Tri { kYes, kNo, kThrows };

// Closed ranges within `tol` of one another.
Tri RefIntersects(const SRange& a, const SRange& b, double tol) {
  if (tol < 0. && std::min(Hi(a) - Lo(a), Hi(b) - Lo(b)) / 2. < -tol) return Tri::kThrows;
  return Hi(b) < Lo(a) - tol || Lo(b) > Hi(a) + tol ? Tri::kNo : Tri::kYes;
}
// b within a widened by tol.
Tri RefContains(const SRange& a, const SRange& b, double tol) {
  if (tol < 0. && std::min(Hi(a) - Lo(a), Hi(b) - Lo(b)) / 2. < -tol) return Tri::kThrows;
  return Lo(b) >= Lo(a) - tol && Hi(b) <= Hi(a) + tol ? Tri::kYes : Tri::kNo;
}

template <typename F>
Tri Observe(F&& f) {
  try {
    return f() ? Tri::kYes : Tri::kNo;
  } catch (const std::exception&) {
    return Tri::kThrows;
  }
}

void Ranges(mc::Ctx& c) {
  static const std::vector<double> grid = mc::Thorough()
                                              ? std::vector<double>{0., 0.25, 0.5, 1., 1.25, 2., 2.5, 3., 4.}
                                              : std::vector<double>{0., 0.25, 1., 1.25, 2., 3.};
  static const std::vector<double> tols{0., 0.25, 0.5, 1., 1.5, -0.25, -0.5, -1.};
  static const std::vector<double> scales{1., 64., 16384.};
  const double scale = c.pick(scales);
  auto pick = [&](const std::vector<double>& v) { return scale * c.pick(v); };
  const double a0 = pick(grid), a1 = pick(grid), b0 = pick(grid), b1 = pick(grid);
  const SRange a(a0, a1), b(b0, b1);
  const double tol = c.pick(tols) * (scale == 1. || c.flip() ? scale : 1.);
  c.state(mc::H() << (uint64_t)(a.s0() * 4) << (uint64_t)(a.s1() * 4) << (uint64_t)(b.s0() * 4) << (uint64_t)(b.s1() * 4) << (uint64_t)((tol + 2) * 4));
  c.trace([&] { return Str(a) + " vs " + Str(b) + " tolerance " + std::to_string(tol); });
  auto ctx = [&] { return Str(a) + " vs " + Str(b) + " tolerance " + std::to_string(tol); };
  c.op(6);
  c.expect(a.size() == std::fabs(a.s1() - a.s0()) && a.WithS() == (a.s1() > a.s0()), "size-direction", ctx);
  const Tri ri = RefIntersects(a, b, tol);
  if (ri == Tri::kYes) c.nontrivial();
  c.expect(Observe([&] { return a.Intersects(b, tol); }) == ri, "srange-intersects", ctx);
  c.expect(Observe([&] { return b.Intersects(a, tol); }) == ri, "srange-intersects-symmetric", ctx);
  const Tri rc = RefContains(a, b, tol);
  c.expect(Observe([&] { return a.Contains(b, tol); }) == rc, "srange-contains", ctx);
  auto check_intersection = [&](const std::optional<SRange>& got) {
    c.expect(got.has_value() == (ri == Tri::kYes), "srange-get-intersection-presence", ctx);
    if (!got) return;
    const double lo = std::max(Lo(a), Lo(b)), hi = std::min(Hi(a), Hi(b));
    const double slack = std::fabs(tol);
    auto msg = [&] { return ctx() + " got " + Str(*got); };
    c.expect(std::fabs(got->s0() - lo) <= slack && std::fabs(got->s1() - hi) <= slack, "srange-intersection-bounds", msg);
    c.expect((got->s0() == Lo(a) || got->s0() == Lo(b)) && (got->s1() == Hi(a) || got->s1() == Hi(b)),
             "srange-intersection-endpoints", msg);
  };
  if (ri == Tri::kThrows) {
    c.expect(mc::Throws([&] { a.GetIntersection(b, tol); }), "srange-get-intersection-throws", ctx);
  } else {
    check_intersection(a.GetIntersection(b, tol));
  }
  // On lanes.
  const LaneSRange la(LaneId("l1"), a), lb(LaneId("l1"), b), lc(LaneId("l2"), b);
  c.op(7);
  c.expect(la.length() == a.size() && la.lane_id() == LaneId("l1") && la.s_range().s0() == a.s0() && la.s_range().s1() == a.s1(),
           "lane-srange-getters", ctx);
  c.expect(Observe([&] { return la.Intersects(lb, tol); }) == ri, "lane-srange-intersects", ctx);
  c.expect(Observe([&] { return la.Contains(lb, tol); }) == rc, "lane-srange-contains", ctx);
  if (ri != Tri::kThrows) {
    const auto got = la.GetIntersection(lb, tol);
    c.expect(!got || got->lane_id() == LaneId("l1"), "lane-srange-intersection-lane", ctx);
    check_intersection(got ? std::optional<SRange>(got->s_range()) : std::nullopt);
  }
  c.expect(!la.Intersects(lc, tol), "other-lane-intersects", ctx);
  c.expect(!la.Contains(lc, tol), "other-lane-contains", ctx);
  c.expect(!la.GetIntersection(lc, tol), "other-lane-intersection", ctx);
}

// Construction and setters: a range never holds a negative or NaN bound.
void RangeBuild(mc::Ctx& c) {
  static const double nan = std::numeric_limits<double>::quiet_NaN();
  static const std::vector<double> v{0., -0., 1., 2.5, -1e-300, -0.5, -2., nan, 1e300};
  auto bad = [](double x) { return !(x >= 0.); };
  const double s0 = c.pick(v), s1 = c.pick(v);
  std::optional<SRange> r;
  c.op();
  const bool threw = mc::Throws([&] { r.emplace(s0, s1); });
  c.expect(threw == (bad(s0) || bad(s1)), "srange-ctor", [&] { return std::to_string(s0) + "," + std::to_string(s1); });
  if (threw) return;
  double m0 = s0, m1 = s1;
  for (int i = 0; i < 3; ++i) {
    const bool first = c.flip();
    const double x = c.pick(v);
    c.op();
    const bool t = mc::Throws([&] { first ? r->set_s0(x) : r->set_s1(x); });
    c.expect(t == bad(x), "srange-setter-throws", [&] { return std::to_string(x); });
    if (!t) (first ? m0 : m1) = x;
    c.expect(r->s0() == m0 && r->s1() == m1, "srange-setter-value", [&] { return Str(*r); });
    c.nontrivial();
  }
}

// Routes: intersection is existential over all pairs of ranges, whatever their order and number per lane.
void Routes(mc::Ctx& c) {
  static const std::vector<LaneSRange> quick{
      {LaneId("a"), SRange(0., 1.)}, {LaneId("a"), SRange(3., 2.)}, {LaneId("a"), SRange(4., 5.)}, {LaneId("b"), SRange(0., 1.)},
      {LaneId("b"), SRange(2., 3.)}, {LaneId("a"), SRange(1.25, 1.75)}};
  static const std::vector<LaneSRange> thorough{
      {LaneId("a"), SRange(0., 1.)}, {LaneId("a"), SRange(3., 2.)}, {LaneId("a"), SRange(4., 5.)}, {LaneId("b"), SRange(0., 1.)},
      {LaneId("b"), SRange(2., 3.)}, {LaneId("a"), SRange(1.25, 1.75)}, {LaneId("c"), SRange(0., 9.)}, {LaneId("b"), SRange(9., 4.)}};
  const auto& pool = mc::Thorough() ? thorough : quick;
  auto make = [&](int max) {
    std::vector<LaneSRange> v;
    const int n = c.choose(max + 1);
    for (int i = 0; i < n; ++i) v.push_back(c.pick(pool));
    return v;
  };
  const double tol = c.pick(std::vector<double>{0., 0.25, 1.});
  const auto va = make(mc::Thorough() ? 3 : 3);
  const auto vb = make(mc::Thorough() ? 3 : 2);
  const LaneSRoute a(va), b(vb);
  auto str = [](const std::vector<LaneSRange>& v) {
    std::string s;
    for (const auto& r : v) s += r.lane_id().string() + Str(r.s_range()) + " ";
    return s;
  };
  auto ctx = [&] { return "{" + str(va) + "} vs {" + str(vb) + "} tolerance " + std::to_string(tol); };
  c.trace(ctx);
  c.state(ctx());
  double len = 0.;
  for (const auto& r : va) len += r.s_range().size();
  c.op(3);
  c.expect(a.length() == len && a.ranges().size() == va.size(), "route-length", ctx);
  bool ref = false;
  for (const auto& x : va) {
    for (const auto& y : vb) {
      ref = ref || (x.lane_id() == y.lane_id() && RefIntersects(x.s_range(), y.s_range(), tol) == Tri::kYes);
    }
  }
  if (ref) c.nontrivial();
  c.expect(a.Intersects(b, tol) == ref, "route-intersects", ctx);
  c.expect(b.Intersects(a, tol) == ref, "route-intersects-symmetric", ctx);
}

// Routes of many ranges of which at most one range of each meets the other route.
void LongRoutes(mc::Ctx& c) {
  const int max = mc::Thorough() ? 12 : 7;
  const int na = c.choose(max + 1), nb = c.choose(max + 1);
  const int at_a = na == 0 ? -1 : c.choose(na + 1) - 1, at_b = nb == 0 ? -1 : c.choose(nb + 1) - 1;
  const bool same_lane = c.flip();
  const double tol = c.pick(std::vector<double>{0., .25, 1.});
  auto make = [&](int n, int at, double base) {
    std::vector<LaneSRange> v;
    for (int i = 0; i < n; ++i) {
      const LaneId lane(same_lane ? "l" : "l" + std::to_string(i));
      const double s = base + 10. * i;
      v.push_back(i == at ? LaneSRange(LaneId("l"), SRange(1000., 1001.)) : i % 2 ? LaneSRange(lane, SRange(s + 1., s)) : LaneSRange(lane, SRange(s, s + 1.)));
    }
    return v;
  };
  const auto va = make(na, at_a, 0.), vb = make(nb, at_b, 5.);
  const LaneSRoute a(va), b(vb);
  auto ctx = [&] {
    return "routes of " + std::to_string(na) + " and " + std::to_string(nb) + " ranges, the " + std::to_string(at_a) + "-th and the " + std::to_string(at_b) +
           "-th of which meet" + (same_lane ? ", in one lane" : "") + ", tolerance " + std::to_string(tol);
  };
  c.trace(ctx);
  c.state(ctx());
  c.op(3);
  const bool ref = at_a >= 0 && at_b >= 0;
  c.nontrivial(ref);
  c.expect(a.length() == na && b.length() == nb, "route-length", ctx);
  bool same = static_cast<int>(a.ranges().size()) == na;
  for (int i = 0; same && i < na; ++i) same = a.ranges()[i].lane_id() == va[i].lane_id() && a.ranges()[i].s_range().s0() == va[i].s_range().s0() && a.ranges()[i].s_range().s1() == va[i].s_range().s1();
  c.expect(same, "route-ranges", ctx);
  c.expect(a.Intersects(b, tol) == ref, "route-intersects", ctx);
  c.expect(b.Intersects(a, tol) == ref, "route-intersects-symmetric", ctx);
}

constexpr double kTol = 1. / 16.;

std::unique_ptr<world::World> MakeWorld(const math::Vector3& translation) {
  auto w = std::make_unique<world::World>(kTol, 1. / 32., 1., translation);
  w->Road("0", {{"l", {{0., 0., 0.}, 0.}, 10.}, {"m", {{0., 4., 0.}, 0.}, 10.}});
  w->Road("1", {{"n", {{10., 0., 0.}, 0.}, 10.}});
  w->Road("2", {{"x", {{4., -5., 0.}, M_PI / 2.}, 10.}});                    // Crosses l.
  w->Road("3", {{"u", {{0., 0., 8.}, 0.3, 0.2}, 10.}});                      // Rotated and sloped, above.
  w->Road("4", {{"v", {{0., 0., 0.}, 0.}, 10.}});                            // Overlaps l.
  w->AutoBranch();
  w->CloseEnds();
  return w;
}

void Included(mc::Ctx& c) {
  static const auto world_0 = MakeWorld({0., 0., 0.});
  static const auto world_1 = MakeWorld({100., -50., 8.});
  const bool tr = c.flip();
  const auto& w = tr ? world_1 : world_0;
  const math::Vector3 t = tr ? math::Vector3(100., -50., 8.) : math::Vector3(0., 0., 0.);
  static const std::vector<LaneSRange> pool{
      {LaneId("l"), SRange(0., 2.)}, {LaneId("l"), SRange(8., 3.)}, {LaneId("m"), SRange(5., 5.)}, {LaneId("n"), SRange(0., 10.)},
      {LaneId("x"), SRange(1., 5.)}, {LaneId("u"), SRange(2., 6.)}, {LaneId("v"), SRange(4., 10.)}, {LaneId("l"), SRange(9., 10.)}};
  std::vector<LaneSRange> region;
  const int n = 1 + c.choose(mc::Thorough() ? 4 : 3);
  for (int i = 0; i < n; ++i) region.push_back(c.pick(pool));
  static const std::vector<double> xs = mc::Thorough() ? std::vector<double>{-0.125, -0.03125, 0., 2.03125, 2.5, 3., 4., 5., 6.5, 8.5, 9.5, 10.03125, 12.}
                                                       : std::vector<double>{-0.03125, 2.03125, 2.5, 5., 8.5, 9.5, 12.};
  static const std::vector<double> ys{0., 1., 2.03125, 4., 6.125};
  static const std::vector<double> zs{0., 5.03125, 9.};
  std::string ctx_s;
  for (const auto& r : region) ctx_s += r.lane_id().string() + Str(r.s_range()) + " ";
  c.state(ctx_s + (tr ? "t" : ""));
  for (double x : xs)
    for (double y : ys)
      for (double z : zs) {
        const api::InertialPosition p = api::InertialPosition::FromXyz(math::Vector3(x, y, z) + t);
        bool ref = false;
        for (const auto& r : region) {
          const auto lp = (*w)[r.lane_id().string()]->ToLanePosition(p);
          ref = ref || (lp.distance <= kTol && lp.lane_position.s() >= Lo(r.s_range()) - kTol && lp.lane_position.s() <= Hi(r.s_range()) + kTol);
        }
        c.op();
        if (ref) c.nontrivial();
        const bool got = api::IsIncluded(p, region, w->rg.get());
        c.expect(got == ref, "is-included", [&] {
          return "region {" + ctx_s + "} point (" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ") reported " +
                 (got ? "included" : "not included");
        });
      }
  c.op(3);
  c.expect(mc::Throws([&] { api::IsIncluded({}, region, nullptr); }), "is-included-null");
  c.expect(mc::Throws([&] { api::IsIncluded({}, {}, w->rg.get()); }), "is-included-empty");
  auto bad = region;
  bad.emplace_back(LaneId("nope"), SRange(0., 1.));
  c.expect(mc::Throws([&] { api::IsIncluded({0., 0., 0.}, bad, w->rg.get()); }), "is-included-unknown-lane");
}

// Regions of many ranges of which only one has the point, at distances up to exactly the tolerance.
void Region(mc::Ctx& c) {
  static const auto w = MakeWorld({0., 0., 0.});
  const int n = 1 + c.choose(mc::Thorough() ? 12 : 8);
  const int at = c.choose(n + 1) - 1;
  const bool same_lane = c.flip();
  std::vector<LaneSRange> region;
  for (int i = 0; i < n; ++i) {
    region.push_back(i == at ? LaneSRange(LaneId("l"), c.flip() ? SRange(4., 5.) : SRange(5., 4.)) : LaneSRange(LaneId(same_lane || i % 2 ? "l" : "n"), SRange(0., .25 * (i + 1) / n)));
  }
  auto ctx = [&] { return "point in the " + std::to_string(at) + "-th of " + std::to_string(n) + " ranges" + (same_lane ? " of one lane" : ""); };
  c.trace(ctx);
  c.state(ctx());
  c.nontrivial(at >= 0);
  // The lane is straight, along x, and it spans 1 to each side and from 0 up to 5.
  for (double h : {0., 5., 5. + kTol / 2, 5. + kTol, -kTol, -kTol / 2, 5. + 2 * kTol, -2 * kTol}) {
    for (double x : {4.5, 4., 5., 4. - kTol, 5. + kTol, 4. - 2 * kTol, 5. + 2 * kTol}) {
      for (double y : {0., .5}) {
        const bool in = at >= 0 && h >= -kTol && h <= 5. + kTol && x >= 4. - kTol && x <= 5. + kTol;
        c.op();
        c.expect(api::IsIncluded({x, y, h}, region, w->rg.get()) == in, "is-included", [&] { return ctx() + " at " + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(h); });
      }
    }
  }
}

void Contiguous(mc::Ctx& c) {
  // Lane q starts at the end of lane p, up to an offset and a yaw / pitch.
  static const std::vector<double> offs{0., kTol / 2, kTol * 2, -kTol * 2};
  static const std::vector<double> angs{0., 1. / 64., 1. / 8., M_PI, -1. / 8.};
  const double dx = c.pick(offs), dy = c.pick(offs), dz = c.pick(offs), dyaw = c.pick(angs);
  const double dpitch = c.pick(std::vector<double>{0., 1. / 8.});
  const double yaw = c.pick(std::vector<double>{0., 0.7, 2., -3.});
  world::World w(kTol, 1. / 16.);
  w.Road("0", {{"p", {{1., 2., 3.}, yaw, 0.1}, 10.}});
  const auto end = w["p"]->Backend(10., 0., 0.);
  w.Road("1", {{"q", {end + math::Vector3(dx, dy, dz), yaw + dyaw, 0.1 + dpitch}, 10.}});
  w.CloseEnds();
  auto ctx = [&] {
    std::ostringstream o;
    o << "offset " << dx << "," << dy << "," << dz << " dyaw " << dyaw << " dpitch " << dpitch << " yaw " << yaw;
    return o.str();
  };
  c.trace(ctx);
  c.state(ctx());
  const bool close = std::sqrt(dx * dx + dy * dy + dz * dz) < kTol;
  // Sum of the squared angles between the axes of both frames.
  auto ang = [](const world::StraightLane* a, const world::StraightLane* b) {
    auto one = [](const math::Vector3& u, const math::Vector3& v) { return std::atan2(u.cross(v).norm(), u.dot(v)); };
    const double x = one(a->s_hat, b->s_hat), y = one(a->r_hat, b->r_hat), z = one(a->h_hat, b->h_hat);
    return std::sqrt(x * x + y * y + z * z);
  };
  const bool aligned = ang(w["p"], w["q"]) < 1. / 16.;
  auto R = [](const char* l, double a, double b) { return LaneSRange(LaneId(l), SRange(a, b)); };
  c.op(6);
  if (close && aligned) c.nontrivial();
  c.expect(api::IsContiguous(R("p", 3., 10.), R("q", 0., 4.), w.rg.get()) == (close && aligned), "is-contiguous", ctx);
  c.expect(!api::IsContiguous(R("p", 10., 3.), R("q", 0., 4.), w.rg.get()), "is-contiguous-wrong-end-a", ctx);
  c.expect(!api::IsContiguous(R("p", 3., 10.), R("q", 4., 0.), w.rg.get()), "is-contiguous-wrong-end-b", ctx);
  c.expect(api::IsContiguous(R("p", 3., 5.), R("p", 5., 9.), w.rg.get()), "is-contiguous-same-lane", ctx);
  c.expect(!api::IsContiguous(R("p", 3., 5.), R("p", 5.5, 9.), w.rg.get()), "is-contiguous-gap", ctx);
  c.expect(mc::Throws([&] { api::IsContiguous(R("p", 3., 5.), R("zz", 5., 9.), w.rg.get()); }), "is-contiguous-unknown-b");
  c.expect(mc::Throws([&] { api::IsContiguous(R("zz", 3., 5.), R("p", 5., 9.), w.rg.get()); }), "is-contiguous-unknown-a");
  c.expect(mc::Throws([&] { api::IsContiguous(R("p", 3., 5.), R("p", 5., 9.), nullptr); }), "is-contiguous-null");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"ranges", "all pairs of directed ranges over a grid of s values x tolerances (positive, zero, negative) x scales", Ranges},
                   {"range-build", "all constructions and 3-step setter histories over valid/invalid bounds", RangeBuild},
                   {"routes", "all pairs of routes of up to 3 ranges over 3 lanes, with repeated lanes, x tolerances", Routes},
                   {"long-routes", "all pairs of routes of up to 7 (12) ranges, in one lane or many, that meet in at most one range of each", LongRoutes},
                   {"included", "all regions of up to 3-4 lane ranges (overlapping, crossing, repeated lanes, 2 frames) x a point grid", Included},
                   {"region", "regions of up to 8 (12) ranges of which at most one has the point, x points up to exactly the tolerance away", Region},
                   {"contiguous", "all offsets and relative orientations of consecutive lanes over a grid", Contiguous}});
}
