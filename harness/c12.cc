// Bounding regions: containment and overlap mean what they mean for the sets of points of the boxes.
#include <array>
#include <cmath>
#include <limits>
#include <optional>
#include <vector>

#include "maliput/math/axis_aligned_box.h"
#include "maliput/math/bounding_box.h"
#include "maliput/math/overlapping_type.h"
#include "mc.h"

using namespace maliput::math;

namespace {

std::string Show(const Vector3& v) {
  std::ostringstream o;
  o << "(" << v.x() << "," << v.y() << "," << v.z() << ")";
  return o.str();
}

// ---- Axis aligned.

using Iv = std::pair<double, double>;
const std::vector<Iv>& Intervals() {
  static const std::vector<Iv> q{{0, 0}, {0, 1}, {0, 3}, {1, 1}, {1, 2}, {2, 3}, {3, 3}};
  static const std::vector<Iv> t{{0, 0}, {0, 1}, {0, 2}, {0, 3}, {1, 1}, {1, 2}, {1, 3}, {2, 2}, {2, 3}, {3, 3}};
  return mc::Thorough() ? t : q;
}

struct Box {
  Iv i[3];
  Vector3 lo() const { return {i[0].first, i[1].first, i[2].first}; }
  Vector3 hi() const { return {i[0].second, i[1].second, i[2].second}; }
};
Box PickBox(mc::Ctx& c) {
  Box b;
  for (auto& i : b.i) i = c.pick(Intervals());
  return b;
}

double MinCoord(const std::vector<Vector3>& v, int k, bool max) {
  double r = v[0][k];
  for (const auto& p : v) r = max ? std::max(r, p[k]) : std::min(r, p[k]);
  return r;
}

// The same boxes, larger and far from the origin.
struct Frame {
  double scale, offset;
  double operator()(double v) const { return scale * v + offset; }
  Vector3 operator()(const Vector3& v) const { return scale * v + Vector3(offset, -2. * offset, offset / 2.); }
};
Frame PickFrame(mc::Ctx& c) { return c.flip() ? Frame{1., 0.} : Frame{4096., -16384.}; }

AxisAlignedBox Make(const Frame& f, const Box& b, double tol) { return tol < 0. ? AxisAlignedBox(f(b.lo()), f(b.hi())) : AxisAlignedBox(f(b.lo()), f(b.hi()), f.scale * tol); }
AxisAlignedBox Make(const Box& b, double tol) { return tol < 0. ? AxisAlignedBox(b.lo(), b.hi()) : AxisAlignedBox(b.lo(), b.hi(), tol); }

void AlignedSingle(mc::Ctx& c) {
  const Box b = PickBox(c);
  const double tol = c.pick(std::vector<double>{-1., 0., .25});
  const Frame f = PickFrame(c);
  const AxisAlignedBox a = Make(f, b, tol);
  const double t = std::max(tol, 0.);
  auto what = [&] { return Show(b.lo()) + Show(b.hi()); };
  c.trace(what);
  c.state(what() + std::to_string(tol) + std::to_string(f.scale));
  c.op(4);
  c.expect(a.min_corner() == f(b.lo()) && a.max_corner() == f(b.hi()), "corners", what);
  c.expect((a.position() - f(.5 * (b.lo() + b.hi()))).norm() < 1e-12, "position", what);
  const auto v = a.get_vertices();
  c.expect(v.size() == 8, "vertices", what);
  for (int m = 0; m < 8; ++m) {
    const Vector3 want(m & 1 ? b.hi().x() : b.lo().x(), m & 2 ? b.hi().y() : b.lo().y(), m & 4 ? b.hi().z() : b.lo().z());
    bool found = false;
    for (const auto& p : v) found = found || (p - f(want)).norm() < 1e-12;
    c.expect(found, "vertex", what);
  }
  const std::vector<double> g{-.5, -.2, 0., .5, .8, 1., 1.2, 1.5, 1.8, 2., 2.2, 2.5, 3., 3.2, 3.5};
  for (double x : g) for (double y : g) for (double z : g) {
    const Vector3 p(x, y, z);
    bool in = true;
    for (int k = 0; k < 3; ++k) in = in && p[k] >= b.i[k].first - t - 1e-9 && p[k] <= b.i[k].second + t + 1e-9;
    c.op();
    c.nontrivial(in);
    c.expect(a.Contains(f(p)) == in, in ? "point-missing" : "point-outside", [&] { return what() + " " + Show(p); });
  }
}

void AlignedPairs(mc::Ctx& c) {
  const Box b1 = PickBox(c), b2 = PickBox(c);
  const Frame f = PickFrame(c);
  c.trace([&] { return Show(b1.lo()) + Show(b1.hi()) + " with " + Show(b2.lo()) + Show(b2.hi()); });
  c.state(Show(b1.lo()) + Show(b1.hi()) + Show(b2.lo()) + Show(b2.hi()) + std::to_string(f.scale));
  for (double tol : {-1., 0., .25}) {
    const AxisAlignedBox a = Make(f, b1, tol), b = Make(f, b2, tol);
    bool meet = true, inside = true;
    for (int k = 0; k < 3; ++k) {
      meet = meet && std::max(b1.i[k].first, b2.i[k].first) <= std::min(b1.i[k].second, b2.i[k].second);
      inside = inside && b2.i[k].first >= b1.i[k].first && b2.i[k].second <= b1.i[k].second;
    }
    c.op(4);
    c.nontrivial(meet);
    c.expect(a.IsBoxIntersected(b) == meet, "intersected");
    c.expect(a.IsBoxContained(b) == inside, "contained");
    const auto o = a.Overlaps(b);
    c.expect(o == (inside ? OverlappingType::kContained : meet ? OverlappingType::kIntersected : OverlappingType::kDisjointed), "overlaps");
    const auto x = a.GetIntersection(b);
    c.expect(x.has_value() == meet, "intersection");
    if (x) {
      Vector3 lo, hi;
      for (int k = 0; k < 3; ++k) {
        lo[k] = std::max(b1.i[k].first, b2.i[k].first);
        hi[k] = std::min(b1.i[k].second, b2.i[k].second);
      }
      c.expect(x->min_corner() == f(lo) && x->max_corner() == f(hi), "intersection-corner");
    }
  }
}

void Rejected(mc::Ctx& c) {
  c.op();
  const int k = c.choose(14);
  c.state(k);
  const Vector3 z(0., 0., 0.), one(1., 1., 1.);
  const RollPitchYaw rpy(0., 0., 0.);
  const AxisAlignedBox a(z, one);
  const BoundingBox b(z, one, rpy, 0.);
  bool t = false;
  if (k < 3) t = mc::Throws([&] { Vector3 lo(z); lo[k] = 2.; AxisAlignedBox(lo, one); });
  if (k == 3) t = mc::Throws([&] { AxisAlignedBox(z, one, -1e-3); });
  if (k == 4) t = mc::Throws([&] { a.Overlaps(b); });
  if (k == 5) t = mc::Throws([&] { b.Overlaps(a); });
  if (k >= 6 && k < 9) t = mc::Throws([&] { Vector3 s(one); s[k - 6] = -1e-3; BoundingBox(z, s, rpy, 0.); });
  if (k == 9) t = mc::Throws([&] { BoundingBox(z, one, rpy, -1e-3); });
  if (k >= 10) {
    const OverlappingType ts[3] = {OverlappingType::kDisjointed, OverlappingType::kIntersected, OverlappingType::kContained};
    t = true;
    for (auto p : ts) for (auto q : ts) {
      c.op(2);
      t = t && static_cast<unsigned>(p | q) == (static_cast<unsigned>(p) | static_cast<unsigned>(q));
      t = t && static_cast<unsigned>(p & q) == (static_cast<unsigned>(p) & static_cast<unsigned>(q));
    }
  }
  c.expect(t, "accepted", [&] { return std::to_string(k); });
}

// ---- Oriented.

struct Obb {
  Vector3 pos, size, rpy;
};
using M = std::array<std::array<double, 3>, 3>;
M Mul(const M& a, const M& b) {
  M r{};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
// Fixed x-y-z axes: first roll, then pitch, then yaw.
M Rot(const Vector3& rpy) {
  const double cr = std::cos(rpy.x()), sr = std::sin(rpy.x()), cp = std::cos(rpy.y()), sp = std::sin(rpy.y()), cy = std::cos(rpy.z()), sy = std::sin(rpy.z());
  const M rx{{{1, 0, 0}, {0, cr, -sr}, {0, sr, cr}}}, ry{{{cp, 0, sp}, {0, 1, 0}, {-sp, 0, cp}}}, rz{{{cy, -sy, 0}, {sy, cy, 0}, {0, 0, 1}}};
  return Mul(rz, Mul(ry, rx));
}
Vector3 Col(const M& m, int k) { return {m[0][k], m[1][k], m[2][k]}; }
double Dot(const Vector3& a, const Vector3& b) { return a.x() * b.x() + a.y() * b.y() + a.z() * b.z(); }
Vector3 Cross(const Vector3& a, const Vector3& b) { return {a.y() * b.z() - a.z() * b.y(), a.z() * b.x() - a.x() * b.z(), a.x() * b.y() - a.y() * b.x()}; }
std::vector<Vector3> Corners(const Obb& o, const M& r) {
  std::vector<Vector3> v;
  for (int m = 0; m < 8; ++m) {
    v.push_back(o.pos + (m & 1 ? .5 : -.5) * o.size.x() * Col(r, 0) + (m & 2 ? .5 : -.5) * o.size.y() * Col(r, 1) + (m & 4 ? .5 : -.5) * o.size.z() * Col(r, 2));
  }
  return v;
}
// How far p is from being inside (positive: outside, by that much along some axis of the box).
double Outside(const Obb& o, const M& r, const Vector3& p) {
  double d = -std::numeric_limits<double>::infinity();
  for (int k = 0; k < 3; ++k) d = std::max(d, std::fabs(Dot(p - o.pos, Col(r, k))) - .5 * o.size[k]);
  return d;
}
// Largest gap between the projections on any of the candidate separating axes (negative: they overlap on all).
double Gap(const std::vector<Vector3>& v1, const M& r1, const std::vector<Vector3>& v2, const M& r2) {
  std::vector<Vector3> axes;
  for (int i = 0; i < 3; ++i) axes.push_back(Col(r1, i)), axes.push_back(Col(r2, i));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) axes.push_back(Cross(Col(r1, i), Col(r2, j)));
  double gap = -std::numeric_limits<double>::infinity();
  for (auto a : axes) {
    const double n = std::sqrt(Dot(a, a));
    if (n < 1e-6) continue;
    a = (1. / n) * a;
    double lo1 = 1e9, hi1 = -1e9, lo2 = 1e9, hi2 = -1e9;
    for (const auto& p : v1) lo1 = std::min(lo1, Dot(a, p)), hi1 = std::max(hi1, Dot(a, p));
    for (const auto& p : v2) lo2 = std::min(lo2, Dot(a, p)), hi2 = std::max(hi2, Dot(a, p));
    gap = std::max(gap, std::max(lo2 - hi1, lo1 - hi2));
  }
  return gap;
}

const std::vector<Vector3>& Orientations() {
  static const double q = M_PI / 4.;
  static const std::vector<Vector3> quick{{0, 0, 0}, {q, 0, 0}, {0, q, 0}, {0, 0, q}, {2 * q, 0, 0}, {0, 0, 2 * q}, {.3, -.5, 1.1}, {q, q, q}, {0, 0, -.4}, {-1.2, .2, 2.6}};
  static const std::vector<Vector3> thorough = [] {
    std::vector<Vector3> v(quick);
    for (double r : {0., .7, -2.1}) for (double p : {-.6, 0., 1.2}) for (double y : {-1., .2, 3.}) v.push_back({r, p, y});
    return v;
  }();
  return mc::Thorough() ? thorough : quick;
}
const std::vector<Vector3>& Sizes() {
  static const std::vector<Vector3> s{{2, 2, 2}, {4, 1, .5}, {0, 0, 0}, {.5, 3, 0}, {1, 2, 6}};
  return s;
}
std::string Show(const Obb& o) { return "box at " + Show(o.pos) + " size " + Show(o.size) + " rpy " + Show(o.rpy); }

void OrientedSingle(mc::Ctx& c) {
  Obb o;
  o.pos = c.pick(std::vector<Vector3>{{0, 0, 0}, {1, -2, .5}});
  o.size = c.pick(Sizes());
  o.rpy = c.pick(Orientations());
  const double tol = c.pick(std::vector<double>{0., 1e-6, .25});
  const BoundingBox b(o.pos, o.size, RollPitchYaw(o.rpy), tol);
  const M r = Rot(o.rpy);
  auto what = [&] { return Show(o); };
  c.trace(what);
  c.state(what() + std::to_string(tol));
  c.op(4);
  c.expect(b.position() == o.pos && b.box_size() == o.size && b.get_orientation().vector() == o.rpy, "parameters", what);
  const auto v = b.get_vertices();
  c.expect(v.size() == 8, "vertices", what);
  for (const auto& want : Corners(o, r)) {
    bool found = false;
    for (const auto& p : v) found = found || (p - want).norm() < 1e-9;
    c.expect(found, "vertex", what);
  }
  const std::vector<double> g{-3., -1.6, -1.2, -.8, -.3, 0., .2, .45, .9, 1.4, 2.1, 3.3};
  for (double x : g) for (double y : g) for (double z : g) {
    for (int local = 0; local < 2; ++local) {
      const Vector3 d(x, y, z);
      const Vector3 p = o.pos + (local ? x * Col(r, 0) + y * Col(r, 1) + z * Col(r, 2) : d);
      const double out = Outside(o, r, p) - tol;
      if (std::fabs(out) < 1e-9) continue;
      c.op();
      c.nontrivial(out < 0.);
      c.expect(b.Contains(p) == (out < 0.), out < 0. ? "point-missing" : "point-outside", [&] { return what() + " " + Show(p); });
    }
  }
}

void OrientedPairs(mc::Ctx& c) {
  Obb a, b;
  a.size = c.pick(Sizes());
  a.rpy = c.pick(Orientations());
  b.size = c.pick(Sizes());
  b.rpy = c.pick(Orientations());
  a.pos = Vector3(1., -2., .5);
  const M ra = Rot(a.rpy), rb = Rot(b.rpy);
  const auto va = Corners(a, ra);
  c.trace([&] { return Show(a) + " with " + Show(b); });
  c.state(Show(a) + Show(b));
  const std::vector<double> g = mc::Thorough() ? std::vector<double>{-3., -1.75, -1.1, -.4, 0., .3, .7, 1.6, 2.3, 4.} : std::vector<double>{-3., -1.1, 0., .4, 1.6, 2.3};
  for (double x : g) for (double y : g) for (double z : g) {
    b.pos = a.pos + Vector3(x, y, z);
    const auto vb = Corners(b, rb);
    const double gap = Gap(va, ra, vb, rb);
    double out = -1e9;
    for (const auto& p : vb) out = std::max(out, Outside(a, ra, p));
    constexpr double kTol = 1e-9, kBand = 1e-4;  // The implementation tolerates about 1e-6.
    const BoundingBox ba(a.pos, a.size, RollPitchYaw(a.rpy), kTol), bb(b.pos, b.size, RollPitchYaw(b.rpy), kTol);
    auto what = [&] { return Show(a) + " with " + Show(b); };
    c.op(3);
    const bool is = ba.IsBoxIntersected(bb), in = ba.IsBoxContained(bb);
    if (std::fabs(gap) > kBand) {
      c.nontrivial(gap < 0.);
      c.expect(is == (gap < 0.), gap < 0. ? "disjoint-but-meet" : "meet-but-disjoint", what);
      c.expect(bb.IsBoxIntersected(ba) == is, "not-symmetric", what);
    }
    if (std::fabs(out) > kBand) {
      c.nontrivial(out < 0.);
      c.expect(in == (out < 0.), "contained", what);
      if (std::fabs(gap) > kBand) {
        c.expect(ba.Overlaps(bb) == (out < 0. ? OverlappingType::kContained : gap < 0. ? OverlappingType::kIntersected : OverlappingType::kDisjointed), "overlaps", what);
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"aligned-single", "all boxes with sides out of 7 (thorough: 10) intervals x 3 tolerances x 3375 points, at 2 scales", AlignedSingle},
                   {"aligned-pairs", "all pairs of those boxes x 3 tolerances, at 2 scales", AlignedPairs},
                   {"oriented-single", "2 positions x 5 sizes x 10 (thorough: 37) orientations x 3 tolerances x 3456 points", OrientedSingle},
                   {"oriented-pairs", "all pairs of 5 sizes x 10 (thorough: 37) orientations x 216 (thorough: 1000) displacements", OrientedPairs},
                   {"rejected", "invalid corners, sizes, tolerances and kinds; overlap operators", Rejected}});
}
