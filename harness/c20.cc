// Meshes generated from roads: every road within the bounds, with every combination of features.
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <vector>

#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/road_geometry.h"
#include "maliput/geometry_base/segment.h"
#include "maliput/utility/generate_obj.h"
#include "maliput/utility/generate_urdf.h"
#include "mc.h"

using namespace maliput;
using namespace maliput::utility;
using maliput::utility::mesh::GeoMesh;
using math::Vector3;

namespace {

constexpr double kEps = 1e-7;

// The reference line of a segment: an arc (or a line) in the plane z = z0. Its lanes are parallel to it.
struct Line {
  Vector3 origin{0., 0., 0.};
  double yaw{0.}, k{0.}, length{10.};
  double pitch{0.};  // Of straight lines.
  Vector3 At(double u, double v, double h) const {
    double x, y;
    if (k == 0.) {
      x = u * std::cos(pitch) + h * std::sin(pitch);
      y = v;
      h = -u * std::sin(pitch) + h * std::cos(pitch);
    } else {
      x = (1. / k - v) * std::sin(k * u);
      y = 1. / k - (1. / k - v) * std::cos(k * u);
    }
    return {origin.x() + x * std::cos(yaw) - y * std::sin(yaw), origin.y() + x * std::sin(yaw) + y * std::cos(yaw), origin.z() + h};
  }
  // (u, v, h) of a point.
  Vector3 Inverse(const Vector3& p) const {
    const double dx = p.x() - origin.x(), dy = p.y() - origin.y();
    const double x = dx * std::cos(yaw) + dy * std::sin(yaw), y = -dx * std::sin(yaw) + dy * std::cos(yaw);
    const double h = p.z() - origin.z();
    if (k == 0.) return {x, y, h};
    const double sign = k > 0. ? 1. : -1.;
    return {std::atan2(sign * x, sign * (1. / k - y)) / k, 1. / k - sign * std::sqrt(x * x + (1. / k - y) * (1. / k - y)), h};
  }
};

// Bounds that change linearly along the lane.
struct Bounds {
  double min0, min1, max0, max1;
  double Min(double t) const { return min0 + t * (min1 - min0); }
  double Max(double t) const { return max0 + t * (max1 - max0); }
};

class RoadLane : public geometry_base::Lane {
 public:
  RoadLane(const std::string& id, const Line& line, double offset, const Bounds& lane, const Bounds& segment, double h_min, double h_max)
      : geometry_base::Lane(api::LaneId(id)), line(line), offset(offset), lane(lane), segment(segment), h_min(h_min), h_max(h_max) {}
  const Line line;
  const double offset;
  const Bounds lane, segment;  // About the centre line of this lane.
  const double h_min, h_max;
  double slope_s{0.}, slope_r{0.};  // Of the elevation bounds.
  double Scale() const { return 1. - line.k * offset; }
  double Length() const { return line.length * Scale(); }

 private:
  double T(double s) const { return std::min(1., std::max(0., s / Length())); }
  double do_length() const override { return Length(); }
  api::RBounds do_lane_bounds(double s) const override { return {lane.Min(T(s)), lane.Max(T(s))}; }
  api::RBounds do_segment_bounds(double s) const override { return {segment.Min(T(s)), segment.Max(T(s))}; }
  api::HBounds do_elevation_bounds(double s, double r) const override {
    return {h_min - std::fabs(s * slope_s + r * slope_r), h_max + s * slope_s + r * slope_r};
  }
  Vector3 DoToBackendPosition(const api::LanePosition& p) const override { return line.At(p.s() / Scale(), p.r() + offset, p.h()); }
  void DoToLanePositionBackend(const Vector3&, api::LanePosition*, Vector3*, double*) const override { throw Unsupported(); }
  void DoToSegmentPositionBackend(const Vector3&, api::LanePosition*, Vector3*, double*) const override { throw Unsupported(); }
  api::Rotation DoGetOrientation(const api::LanePosition& p) const override {
    return api::Rotation::FromRpy(0., line.pitch, line.yaw + line.k * p.s() / Scale());
  }
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition&, const api::IsoLaneVelocity&) const override { throw Unsupported(); }
  static std::logic_error Unsupported() { return std::logic_error("unsupported"); }
};

struct Road {
  std::unique_ptr<geometry_base::RoadGeometry> rg;
  std::vector<std::vector<RoadLane*>> segments;
  double tolerance;
};

struct P {
  double u, v;
};
double Area2(const std::vector<P>& p) {
  double a = 0.;
  for (size_t i = 0; i < p.size(); ++i) {
    const P &x = p[i], &y = p[(i + 1) % p.size()];
    a += x.u * y.v - x.v * y.u;
  }
  return a;
}
bool Inside(const std::vector<P>& p, double u, double v) {
  bool in = false;
  for (size_t i = 0; i < p.size(); ++i) {
    const P &a = p[i], &b = p[(i + 1) % p.size()];
    if ((a.v > v) != (b.v > v) && u < a.u + (v - a.v) / (b.v - a.v) * (b.u - a.u)) in = !in;
  }
  return in;
}

// A face in the coordinates of a lane: (s, r), and h.
struct Face {
  std::vector<P> p;
  std::vector<double> h;
  std::vector<Vector3> normals;
};
std::vector<Face> InLane(const GeoMesh& mesh, const RoadLane& lane) {
  std::vector<Face> r;
  for (const auto& f : mesh.faces()) {
    Face face;
    for (const auto& v : f.vertices()) {
      const Vector3 q = lane.line.Inverse(mesh.get_vertex(v.vertex_index).v().xyz());
      face.p.push_back({q.x() * lane.Scale(), q.y() - lane.offset});
      face.h.push_back(q.z());
      face.normals.push_back(mesh.get_normal(v.normal_index).n().xyz());
    }
    r.push_back(face);
  }
  return r;
}
std::string Text(const std::vector<Face>& faces) {
  std::ostringstream os;
  for (const auto& f : faces) {
    os << "[";
    for (size_t k = 0; k < f.p.size(); ++k) os << "(" << f.p[k].u << "," << f.p[k].v << "," << f.h[k] << ")";
    os << "]";
  }
  return os.str().substr(0, 1500);
}

struct Region {  // Between two lines, over the whole lane.
  double lo0, lo1, hi0, hi1;
};

struct Want {
  double length;
  std::vector<Region> regions;  // Disjoint.
  double h;
  double slope_s{0.}, slope_r{0.};  // Of h.
  bool down{false};                 // Minus the absolute value, instead.
  double max_step{0.};    // 0: any.
  bool exact{true};   // The surface is covered exactly.
  double slack{0.};   // Of the area, otherwise.
};

// The faces cover the regions exactly once.
void CheckCover(mc::Ctx& c, const std::vector<Face>& faces, const Want& w, const std::string& name) {
  auto text = [&] { return name + ": " + Text(faces); };
  double area = 0., want = 0.;
  for (const auto& r : w.regions) want += w.length * (r.hi0 + r.hi1 - r.lo0 - r.lo1);
  for (const auto& f : faces) {
    double lo_u = 1e9, hi_u = -1e9, lo_v = 1e9, hi_v = -1e9;
    for (size_t k = 0; k < f.p.size(); ++k) {
      const double t = f.p[k].u / w.length;
      bool in = false;
      for (const auto& r : w.regions) {
        in = in || (f.p[k].v >= r.lo0 + t * (r.lo1 - r.lo0) - kEps && f.p[k].v <= r.hi0 + t * (r.hi1 - r.hi0) + kEps);
      }
      c.expect(in && f.p[k].u >= -kEps && f.p[k].u <= w.length + kEps, "a vertex out of bounds", text);
      const double dh = f.p[k].u * w.slope_s + f.p[k].v * w.slope_r;
      c.expect(std::fabs(f.h[k] - (w.down ? w.h - std::fabs(dh) : w.h + dh)) < kEps, "elevation of a vertex", text);
      c.expect(std::fabs(f.normals[k].x()) < kEps && std::fabs(f.normals[k].y()) < kEps && std::fabs(f.normals[k].z() - 1.) < kEps, "normal of a vertex", text);
      lo_u = std::min(lo_u, f.p[k].u);
      hi_u = std::max(hi_u, f.p[k].u);
      lo_v = std::min(lo_v, f.p[k].v);
      hi_v = std::max(hi_v, f.p[k].v);
    }
    const double a = Area2(f.p);
    c.expect(f.p.size() >= 3 && a > -1e-9, "an inverted face", text);
    area += a;
    if (w.max_step > 0.) c.expect(hi_u - lo_u <= w.max_step + kEps, "a face too long", text);
    if (w.max_step > 0.) c.expect(hi_v - lo_v <= w.max_step + 2. + kEps, "a face too wide", text);
  }
  c.expect(std::fabs(area - want) <= w.slack + 1e-6 * (1. + want), "area of the mesh", [&] { return text() + std::to_string(area / 2.) + " instead of " + std::to_string(want / 2.); });
  if (!w.exact) return;
  std::vector<std::array<double, 2>> span;
  for (const auto& f : faces) {
    span.push_back({1e9, -1e9});
    for (const auto& p : f.p) span.back()[0] = std::min(span.back()[0], p.u), span.back()[1] = std::max(span.back()[1], p.u);
  }
  std::vector<const Face*> near;
  for (int i = 0; i < 11; ++i) {
    const double t = (i + .387) / 11.;
    near.clear();
    for (size_t k = 0; k < faces.size(); ++k) {
      if (span[k][0] <= t * w.length && t * w.length <= span[k][1]) near.push_back(&faces[k]);
    }
    for (const auto& r : w.regions) {
      const double lo = r.lo0 + t * (r.lo1 - r.lo0), hi = r.hi0 + t * (r.hi1 - r.hi0);
      for (int k = 0; k < 9; ++k) {
        const double v = lo + (hi - lo) * (k == 0 ? 1e-3 : k == 8 ? 1. - 1e-3 : (k + .271) / 9.);
        int n = 0;
        for (const auto* f : near) n += Inside(f->p, t * w.length, v);
        int regions = 0;  // More than one where stripes overlap.
        for (const auto& q : w.regions) regions += v > q.lo0 + t * (q.lo1 - q.lo0) && v < q.hi0 + t * (q.hi1 - q.hi0);
        c.expect(n == regions, "the surface is not covered once", [&] { return std::to_string(n) + " faces at " + std::to_string(t * w.length) + "," + std::to_string(v) + " " + text(); });
      }
    }
  }
}

double GridUnit(const RoadLane& l, const ObjFeatures& f, double tolerance) {
  double g = f.max_grid_unit;
  g = std::min(g, std::max(tolerance, l.lane.max0 - l.lane.min0) / f.min_grid_resolution);
  g = std::min(g, std::max(tolerance, l.lane.max1 - l.lane.min1) / f.min_grid_resolution);
  g = std::min(g, std::max(tolerance, l.Length()) / f.min_grid_resolution);
  return std::max(g, tolerance);
}

Region Of(const Bounds& b) { return {b.min0, b.min1, b.max0, b.max1}; }

void CheckArrows(mc::Ctx& c, const std::vector<Face>& faces, const RoadLane& l, const ObjFeatures& f, double nudge, const std::string& name) {
  const double L = l.Length();
  const double a = std::min(.3 * L, l.lane.max0 - l.lane.min0), b = std::min(.3 * L, l.lane.max1 - l.lane.min1);
  // Where each one starts, its size, and the width of the lane there.
  struct A {
    double s, size, lo, hi;
  };
  std::vector<A> want;
  auto add = [&](double s, double size) { want.push_back({s, size, .8 * l.lane.Min(s / L), .8 * l.lane.Max(s / L)}); };
  if (nudge + a < L && a > nudge) add(nudge, a);
  if (L - nudge - b > 0. && b > nudge) add(L - nudge - b, b);
  double area = 0., total = 0.;
  for (const auto& x : want) total += x.size * (x.hi - x.lo);
  auto text = [&] { return name + ": " + Text(faces); };
  for (const auto& face : faces) {
    for (size_t k = 0; k < face.p.size(); ++k) {
      bool in = false;
      for (const auto& x : want) {
        const double t = 1. - (face.p[k].u - x.s) / x.size;  // 1 at the base.
        in = in || (t <= 1. + kEps && t >= -kEps && face.p[k].v <= t * x.hi + kEps && face.p[k].v >= t * x.lo - kEps);
      }
      c.expect(in && std::fabs(face.h[k] - f.arrow_elevation) < kEps, "a vertex out of the arrow", text);
    }
    area += Area2(face.p);
  }
  c.expect(std::fabs(area - total) < 1e-6, "area of the arrows", [&] { return text() + std::to_string(area) + " instead of " + std::to_string(total); });
  for (const auto& x : want) {
    for (int i = 0; i < 6; ++i) {
      for (int k = 0; k < 6; ++k) {
        const double t = (i + .39) / 6., q = (k + .27) / 6.;
        const double u = x.s + t * x.size, v = (1. - t) * (x.lo + q * (x.hi - x.lo));
        int n = 0;
        for (const auto& face : faces) n += Inside(face.p, u, v);
        c.expect(n == 1, "the arrow is not covered once", text);
      }
    }
  }
}

struct Split {
  GeoMesh stripes, arrows;
};

std::vector<Face> Subset(const std::vector<Face>& faces, size_t from, size_t n) {
  return std::vector<Face>(faces.begin() + from, faces.begin() + from + n);
}

Road OneRoad(mc::Ctx& c, std::string* desc) {
  Road r;
  r.tolerance = c.flip() ? 0.01 : 0.1;
  r.rg = std::make_unique<geometry_base::RoadGeometry>(api::RoadGeometryId("road"), r.tolerance, 0.01, 1., Vector3(0., 0., 0.));
  Line line;
  line.k = c.pick(std::vector<double>{0., .04, -.04});
  line.length = c.pick(std::vector<double>{9.7, 3.});
  line.yaw = .3;
  line.origin = Vector3(3., -2., .5);
  const int lanes = 1 + c.choose(2);
  // Bounds of the lanes.
  const double l0 = c.pick(std::vector<double>{2., 1.5, 0.}), l1 = c.pick(std::vector<double>{2., 2.7, 1.1});
  const double right = c.flip() ? 0. : -1.7;
  c.assume(l0 > 0. || right < 0. || (r.tolerance > .05 && line.length < 5.));  // A fine grid.
  const double shoulder = c.pick(std::vector<double>{0., .45});
  auto j = r.rg->AddJunction(std::make_unique<geometry_base::Junction>(api::JunctionId("j")));
  auto s = j->AddSegment(std::make_unique<geometry_base::Segment>(api::SegmentId("s")));
  r.segments.emplace_back();
  for (int i = 0; i < lanes; ++i) {
    const double offset = i * 4.;
    Bounds lane, seg;
    if (i == 0) {
      lane = {right, right, l0, l1};
    } else {  // Up to the first lane.
      lane = {l0 - 4., l1 - 4., 1., 1.};
    }
    // The segment, about this lane.
    seg = {right - shoulder - offset, right - shoulder - offset, (lanes == 1 ? l0 : 5.) + shoulder - offset, (lanes == 1 ? l1 : 5.) + shoulder - offset};
    auto* l = s->AddLane(std::make_unique<RoadLane>("l" + std::to_string(i), line, offset, lane, seg, -.25, 5.));
    r.segments.back().push_back(l);
  }
  for (auto* l : r.segments.back()) {
    for (const auto w : {api::LaneEnd::kStart, api::LaneEnd::kFinish}) {
      auto bp = std::make_unique<geometry_base::BranchPoint>(api::BranchPointId(l->id().string() + (w == api::LaneEnd::kStart ? "s" : "f")));
      bp->AddABranch(l, w);
      r.rg->AddBranchPoint(std::move(bp));
    }
  }
  std::ostringstream os;
  os << "k " << line.k << " length " << line.length << " lanes " << lanes << " width " << right << ".." << l0 << "/" << l1 << " shoulder " << shoulder << " tolerance " << r.tolerance;
  *desc = os.str();
  return r;
}

// One segment: what each of its meshes covers.
void Surface(mc::Ctx& c) {
  std::string desc;
  const Road r = OneRoad(c, &desc);
  ObjFeatures f;
  const int grid = c.choose(3);
  f.max_grid_unit = grid == 0 ? 1. : grid == 1 ? .7 : 20.;
  f.min_grid_resolution = grid == 0 ? 1. : grid == 1 ? 3. : 2.;
  f.off_grid_mesh_generation = c.flip();
  const bool simplify = c.flip();
  if (simplify) f.simplify_mesh_threshold = r.tolerance;
  const auto& lanes = r.segments[0];
  const RoadLane& ref = *lanes[0];
  const bool sloped = grid == 0 && !simplify && c.flip();
  for (auto* l : lanes) {
    if (sloped) l->slope_s = .05, l->slope_r = .0625;
  }
  const bool curved = ref.line.k != 0.;
  desc += " grid " + std::to_string(grid) + (f.off_grid_mesh_generation ? " off grid" : "") + (simplify ? " simplified" : "") + (sloped ? " sloped" : "");
  c.trace([&] { return desc; });
  c.op();
  c.state(desc);
  c.nontrivial();
  Want w;
  w.exact = !(simplify && (curved || ref.lane.max0 != ref.lane.max1));
  const auto cover = [&](const GeoMesh& mesh, const RoadLane& frame, const std::vector<Region>& regions, double h, double grid_unit, const std::string& name) {
    w.length = frame.Length();
    w.regions = regions;
    w.h = h;
    w.max_step = simplify || f.off_grid_mesh_generation ? 0. : grid_unit + r.tolerance;
    w.slack = w.exact ? 0. : 4. * r.tolerance * (2. * w.length + 12.) + .06 * w.length * 10.;
    const auto faces = InLane(mesh, frame);
    CheckCover(c, faces, w, desc + " " + name);
    // Faces of the optimized mesh stay close to the surface.
    if (f.off_grid_mesh_generation && !simplify && curved && name != "lanes") {
      for (const auto& face : faces) {
        double lo = 1e9, hi = -1e9;
        for (const auto& p : face.p) lo = std::min(lo, p.u), hi = std::max(hi, p.u);
        const double t = hi - lo;
        if (t <= r.tolerance) continue;
        const double lr = frame.lane.Max(lo / w.length), hr = frame.lane.Max(hi / w.length), lq = frame.lane.Min(lo / w.length), hq = frame.lane.Min(hi / w.length);
        const auto dist = [&](double r0, double r1) { return (frame.ToInertialPosition({lo, r0, 0.}).xyz() - frame.ToInertialPosition({hi, r1, 0.}).xyz()).norm(); };
        c.expect(std::max({std::fabs(dist(0., 0.) - t), std::fabs(dist(lr, hr) - t), std::fabs(dist(lq, hq) - t)}) <= 2. * r.tolerance + kEps, "a face that spans too much of a curve", [&] { return desc + name + std::to_string(t); });
      }
    }
  };
  const double base_grid = f.off_grid_mesh_generation ? r.tolerance : GridUnit(ref, f, r.tolerance);
  cover(BuildMesh(r.rg.get(), f, api::SegmentId("s"), MaterialType::Asphalt).first, ref, {Of(ref.segment)}, 0., base_grid, "segment");
  cover(BuildMesh(r.rg.get(), f, api::SegmentId("s"), MaterialType::GrayedAsphalt).first, ref, {Of(ref.segment)}, 0., base_grid, "grayed segment");
  const auto all = BuildMeshes(r.rg.get(), f);
  cover(all.at("asphalt").first, ref, {Of(ref.segment)}, 0., base_grid, "asphalt");
  for (const auto* l : lanes) {
    const double g = GridUnit(*l, f, r.tolerance);
    cover(BuildMesh(r.rg.get(), f, l->id(), MaterialType::Lane).first, *l, {Of(l->lane)}, f.lane_haze_elevation, g, "lane");
    cover(BuildMesh(r.rg.get(), f, l->id(), MaterialType::Asphalt).first, *l, {Of(l->lane)}, 0., g, "lane asphalt");
  }
  // All lanes, and both elevation bounds, of the whole road.
  {
    std::vector<Region> regions;
    for (const auto* l : lanes) {
      Region x = Of(l->lane);
      x.lo0 += l->offset, x.lo1 += l->offset, x.hi0 += l->offset, x.hi1 += l->offset;
      regions.push_back(x);
    }
    cover(all.at("lane").first, ref, regions, f.lane_haze_elevation, base_grid * 3., "lanes");
  }
  const auto bounds = [&](const GeoMesh& mesh, const Bounds& b, const RoadLane& frame, double g, const std::string& name) {
    GeoMesh half[2];
    for (const auto& face : mesh.faces()) {
      mesh::GeoFace x;
      for (const auto& v : face.vertices()) x.push_vn(mesh.get_vertex(v.vertex_index), mesh.get_normal(v.normal_index));
      half[x.vertices()[0].v().z() > 2.].PushFace(x);
    }
    w.slope_s = frame.slope_s, w.slope_r = frame.slope_r, w.down = true;
    cover(half[0], frame, {Of(b)}, frame.h_min, g, name + " lower");
    w.down = false;
    cover(half[1], frame, {Of(b)}, frame.h_max, g, name + " upper");
    w.slope_s = w.slope_r = 0.;
  };
  bounds(all.at("h_bounds").first, ref.segment, ref, base_grid, "elevation bounds");
  bounds(BuildMesh(r.rg.get(), f, ref.id(), MaterialType::HBounds).first, ref.lane, ref, GridUnit(ref, f, r.tolerance), "lane elevation bounds");
}

// Stripes and arrows of the lanes of a segment.
void Markers(mc::Ctx& c) {
  std::string desc;
  const Road r = OneRoad(c, &desc);
  ObjFeatures f;
  const int grid = c.choose(2);
  f.max_grid_unit = grid == 0 ? 1. : .7;
  f.min_grid_resolution = grid == 0 ? 1. : 3.;
  f.draw_arrows = c.flip();
  f.draw_stripes = !f.draw_arrows;
  f.stripe_width = .125;
  const bool simplify = c.flip();
  if (simplify) f.simplify_mesh_threshold = r.tolerance;
  const bool curved = r.segments[0][0]->line.k != 0.;
  desc += " grid " + std::to_string(grid) + (simplify ? " simplified" : "");
  c.trace([&] { return desc; });
  c.assume(!(simplify && (curved || f.draw_arrows)));
  c.op();
  c.state(desc + (f.draw_arrows ? "a" : "s"));
  c.nontrivial();
  GeoMesh together;
  for (const auto* l : r.segments[0]) {
    const GeoMesh mesh = BuildMesh(r.rg.get(), f, l->id(), c.flip() ? MaterialType::Marker : MaterialType::GrayedMarker).first;
    together.AddFacesFrom(mesh);
    const auto faces = InLane(mesh, *l);
    if (f.draw_arrows) {
      CheckArrows(c, faces, *l, f, r.tolerance, desc);
      continue;
    }
    Want w;
    const double half = .5 * f.stripe_width;
    w.length = l->Length();
    const Bounds& b = l->lane;
    w.regions = {{b.min0 - half, b.min1 - half, b.min0 + half, b.min1 + half}, {b.max0 - half, b.max1 - half, b.max0 + half, b.max1 + half}};
    w.h = f.stripe_elevation;
    w.max_step = simplify ? 0. : GridUnit(*l, f, r.tolerance) + r.tolerance;
    w.exact = !(simplify && (b.max0 != b.max1 || b.min0 != b.min1));
    w.slack = w.exact ? 0. : 4. * r.tolerance * 2. * w.length;
    CheckCover(c, faces, w, desc + " stripes");
  }
  const auto all = BuildMeshes(r.rg.get(), f);
  const GeoMesh& got = all.at("marker").first;
  const auto key = [](const GeoMesh& m) {
    std::multiset<std::string> s;
    for (const auto& face : m.faces()) {
      std::ostringstream os;
      for (const auto& v : face.vertices()) os << m.get_vertex(v.vertex_index).v() << m.get_normal(v.normal_index).n();
      s.insert(os.str());
    }
    return s;
  };
  c.expect(key(got) == key(together), "the markers of the road are not those of its lanes", [&] { return desc; });
}

using Lines = std::vector<std::pair<std::string, std::vector<Vector3>>>;  // Material and vertices of each face.

Lines ReadObj(mc::Ctx& c, const std::string& path, std::string* mtllib) {
  std::ifstream is(path);
  c.expect(is.good(), "no file", [&] { return path; });
  Lines r;
  std::vector<Vector3> vs, ns;
  std::string line, material;
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    std::string w;
    if (!(ls >> w) || w[0] == '#') continue;
    if (w == "v" || w == "vn") {
      double x, y, z;
      c.expect(static_cast<bool>(ls >> x >> y >> z), "a vertex line", line.c_str());
      (w == "v" ? vs : ns).push_back(Vector3(x, y, z));
    } else if (w == "usemtl") {
      ls >> material;
    } else if (w == "mtllib") {
      ls >> *mtllib;
    } else {
      c.expect(w == "f", "an unexpected line", line.c_str());
      r.push_back({material, {}});
      std::string item;
      while (ls >> item) {
        const size_t at = item.find("//");
        c.expect(at != std::string::npos, "a face line", line.c_str());
        const size_t v = std::stoul(item.substr(0, at)), n = std::stoul(item.substr(at + 2));
        c.expect(v >= 1 && v <= vs.size() && n >= 1 && n <= ns.size(), "an index out of range", line.c_str());
        r.back().second.push_back(vs[v - 1]);
        r.back().second.push_back(ns[n - 1]);
      }
    }
  }
  return r;
}

// A network of segments: which features are drawn, highlights, branch points, and the files.
void Network(mc::Ctx& c) {
  const double tolerance = c.flip() ? .01 : .1;
  auto rg = std::make_unique<geometry_base::RoadGeometry>(api::RoadGeometryId("road"), tolerance, .01, 1., Vector3(0., 0., 0.));
  const int shape = c.choose(4);  // 0: one road, 1: two in a row, 2: a fork, 3: a fork of 5.
  std::vector<RoadLane*> lanes;
  const std::vector<Line> lines{{Vector3(0., 0., 0.), 0., 0., 8.}, {Vector3(8., 0., 0.), 0., 0., 6.}, {Vector3(8., 0., 0.), 0., .05, 4.}, {Vector3(8., 0., 0.), .9, 0., 5.}, {Vector3(8., 0., 0.), -.9, 0., 3.}, {Vector3(8., 0., 0.), -.45, 0., 7.}};
  const int n = shape == 3 ? 6 : 1 + shape;
  const int joined = shape == 3 ? c.choose(3) : 0;  // Each segment in its junction, all in one, or two in the first one.
  const double width = 1.5;
  geometry_base::Junction* j{};
  for (int i = 0; i < n; ++i) {
    if (i == 0 || joined == 0 || (joined == 2 && i > 1)) j = rg->AddJunction(std::make_unique<geometry_base::Junction>(api::JunctionId("j" + std::to_string(i))));
    auto s = j->AddSegment(std::make_unique<geometry_base::Segment>(api::SegmentId("s" + std::to_string(i))));
    lanes.push_back(s->AddLane(std::make_unique<RoadLane>("l" + std::to_string(i), lines[i], 0., Bounds{-width, -width, width, width}, Bounds{-2., -2., 2., 2.}, 0., 5.)));
  }
  struct BP {
    std::vector<api::LaneEnd> a, b;
    std::string id;
  };
  std::vector<BP> bps{{{{lanes[0], api::LaneEnd::kStart}}, {}, "start"}, {{{lanes[0], api::LaneEnd::kFinish}}, {}, "middle"}};
  for (int i = 1; i < n; ++i) {
    bps[1].b.push_back({lanes[i], api::LaneEnd::kStart});
    bps.push_back({{}, {{lanes[i], api::LaneEnd::kFinish}}, "end" + std::to_string(i)});
  }
  const bool swapped = c.flip();
  if (swapped) std::swap(bps[1].a, bps[1].b);
  for (const auto& bp : bps) {
    auto b = std::make_unique<geometry_base::BranchPoint>(api::BranchPointId(bp.id));
    for (const auto& e : bp.a) b->AddABranch(const_cast<geometry_base::Lane*>(dynamic_cast<const geometry_base::Lane*>(e.lane)), e.end);
    for (const auto& e : bp.b) b->AddBBranch(const_cast<geometry_base::Lane*>(dynamic_cast<const geometry_base::Lane*>(e.lane)), e.end);
    rg->AddBranchPoint(std::move(b));
  }
  ObjFeatures f;
  const int drawn = shape == 3 && !mc::Thorough() ? c.pick(std::vector<int>{0, 7, 8, 31}) : c.choose(32);
  f.draw_stripes = drawn & 1;
  f.draw_arrows = drawn & 2;
  f.draw_lane_haze = drawn & 4;
  f.draw_branch_points = drawn & 8;
  f.draw_elevation_bounds = drawn & 16;
  const int highlights = shape == 3 && !mc::Thorough() ? c.pick(std::vector<int>{0, 1, 32, 31, 62, 63, 42}) : c.choose(1 << n);  // None: everything is drawn normally.
  for (int i = 0; i < n; ++i) {
    if (highlights & (1 << i)) f.highlighted_segments.push_back(api::SegmentId("s" + std::to_string(i)));
  }
  const bool foreign = c.flip();  // A segment that is not in the road.
  if (foreign) f.highlighted_segments.push_back(api::SegmentId("other"));
  if (c.flip()) f.origin = api::InertialPosition(1., -2., 3.);
  const std::string desc = "shape " + std::to_string(shape) + " features " + std::to_string(drawn) + " highlights " + std::to_string(highlights) + (foreign ? "+" : "") + (swapped ? " swapped" : "");
  c.trace([&] { return desc; });
  c.op();
  c.state(desc);
  c.nontrivial();
  const auto meshes = BuildMeshes(rg.get(), f);
  auto text = [&] { return desc; };
  const bool any = !f.highlighted_segments.empty();
  const std::vector<std::string> names{"asphalt", "lane", "marker", "h_bounds", "branch_point", "grayed_asphalt", "grayed_lane", "grayed_marker", "sidewalk"};
  static const std::map<std::string, std::string> materials{{"asphalt", "bland_asphalt"}, {"lane", "lane_haze"}, {"marker", "marker_paint"}, {"h_bounds", "h_bounds_haze"}, {"branch_point", "branch_point_glow"}, {"grayed_asphalt", "grayed_bland_asphalt"}, {"grayed_lane", "grayed_lane_haze"}, {"grayed_marker", "grayed_marker_paint"}, {"sidewalk", "sidewalk"}};
  c.expect(meshes.size() == names.size(), "keys of the meshes", text);
  for (const auto& x : materials) c.expect(meshes.count(x.first) && meshes.at(x.first).second.name == x.second, "material of a mesh", [&] { return desc + " " + x.first; });
  // Areas tell which segments are in each mesh.
  const auto area = [&](const GeoMesh& m) {
    double a = 0.;
    for (const auto& face : m.faces()) {
      Vector3 s(0., 0., 0.);
      const auto& v = face.vertices();
      for (size_t k = 0; k < v.size(); ++k) s = s + m.get_vertex(v[k].vertex_index).v().xyz().cross(m.get_vertex(v[(k + 1) % v.size()].vertex_index).v().xyz());
      a += s.norm() / 2.;
    }
    return a;
  };
  const auto road_mesh = BuildRoadGeometryMesh(rg.get(), f);
  std::map<std::string, double> want;
  for (const auto& k : names) want[k] = 0.;
  for (int i = 0; i < n; ++i) {
    const bool normal = !any || (highlights & (1 << i));
    const std::string prefix = normal ? "" : "grayed_";
    const std::string lane = lanes[i]->id().string();
    const double asphalt = area(BuildMesh(rg.get(), f, api::SegmentId("s" + std::to_string(i)), normal ? MaterialType::Asphalt : MaterialType::GrayedAsphalt).first);
    c.expect(std::fabs(asphalt - 4. * lines[i].length) < .1, "area of a segment", text);
    want[prefix + "asphalt"] += asphalt;
    const double haze = area(BuildMesh(rg.get(), f, lanes[i]->id(), MaterialType::Lane).first), marker = area(BuildMesh(rg.get(), f, lanes[i]->id(), MaterialType::Marker).first);
    c.expect(f.draw_lane_haze ? std::fabs(haze - 3. * lines[i].length) < .1 : haze == 0., "area of a lane", text);
    const double stripes = f.draw_stripes ? 2. * f.stripe_width * lines[i].length : 0., arrows = f.draw_arrows ? 2. * .4 * 3. * std::min(.3 * lines[i].length, 3.) : 0.;
    c.expect(std::fabs(marker - stripes - arrows) < .1, "area of the markers", text);
    want[prefix + "lane"] += haze;
    want[prefix + "marker"] += marker;
    if (f.draw_elevation_bounds) want["h_bounds"] += 2. * asphalt * 1.;
    // Meshes by lane.
    const auto check = [&](const std::map<std::string, std::pair<GeoMesh, Material>>& m, const std::string& key, bool present, double a, const std::string& material) {
      c.expect(m.count(key) == (present ? 1 : 0), "mesh of a lane", [&] { return desc + " " + key; });
      if (present) c.expect(std::fabs(area(m.at(key).first) - a) < 1e-6 && m.at(key).second.name == material, "contents of the mesh of a lane", [&] { return desc + " " + key; });
    };
    check(road_mesh.lane_lane_mesh, "lane_" + lane, normal, haze, "lane_haze");
    check(road_mesh.lane_grayed_lane_mesh, "grayed_lane_" + lane, !normal, haze, "grayed_lane_haze");
    check(road_mesh.lane_marker_mesh, "marker_" + lane, normal, marker, "marker_paint");
    check(road_mesh.lane_grayed_marker_mesh, "grayed_marker_" + lane, !normal, marker, "grayed_marker_paint");
  }
  for (const auto& k : names) {
    if (k == "branch_point") continue;
    c.expect(std::fabs(area(meshes.at(k).first) - want[k]) < (k == "h_bounds" ? .2 : 1e-6), "area of a mesh", [&] { return desc + " " + k + " " + std::to_string(area(meshes.at(k).first)) + " instead of " + std::to_string(want[k]); });
  }
  c.expect(std::fabs(area(road_mesh.asphalt_mesh.at("asphalt").first) - want["asphalt"]) < 1e-6 && std::fabs(area(road_mesh.grayed_asphalt_mesh.at("grayed_asphalt").first) - want["grayed_asphalt"]) < 1e-6 &&
               std::fabs(area(road_mesh.hbounds_mesh.at("h_bounds").first) - want["h_bounds"]) < .2, "meshes of the road", text);
  // Branch points: a diamond, and two faces per branch.
  size_t ends = 0;
  for (const auto& bp : bps) ends += bp.a.size() + bp.b.size();
  const GeoMesh& glow = meshes.at("branch_point").first;
  c.expect(glow.faces().size() == (f.draw_branch_points ? bps.size() + 2 * ends : 0), "faces of the branch points", text);
  c.expect(road_mesh.branch_point_mesh.size() == (f.draw_branch_points ? bps.size() : 0), "meshes of branch points", text);
  for (const auto& bp : bps) {
    if (!f.draw_branch_points) break;
    const std::string key = "branch_point_" + bp.id;
    c.expect(road_mesh.branch_point_mesh.count(key) == 1, "mesh of a branch point", [&] { return desc + " " + key; });
    const GeoMesh& m = road_mesh.branch_point_mesh.at(key).first;
    c.expect(m.faces().size() == 1 + 2 * (bp.a.size() + bp.b.size()), "faces of a branch point", [&] { return desc + " " + key; });
    const api::LaneEnd e = bp.a.empty() ? bp.b[0] : bp.a[0];
    const Vector3 at = e.lane->ToInertialPosition({e.end == api::LaneEnd::kStart ? 0. : e.lane->length(), 0., f.branch_point_elevation}).xyz();
    for (const auto& face : m.faces()) {
      bool touches = false;
      for (const auto& v : face.vertices()) {
        const Vector3 p = m.get_vertex(v.vertex_index).v().xyz();
        c.expect((p - at).norm() < 4. && std::fabs(p.z() - at.z()) <= .5 * f.branch_point_height + kEps, "a vertex far from the branch point", [&] { return desc + " " + key; });
        touches = touches || (p - at).norm() < .3;
      }
      c.expect(touches, "a branch far from the branch point", [&] { return desc + " " + key; });
    }
    // Each branch points into its lane.
    for (const auto* set : {&bp.a, &bp.b}) {
      for (const auto& end : *set) {
        const double s = end.end == api::LaneEnd::kStart ? 1. : end.lane->length() - 1.;
        const Vector3 into = end.lane->ToInertialPosition({s, 0., f.branch_point_elevation}).xyz();
        int found = 0;
        for (const auto& face : m.faces()) {
          Vector3 sum(0., 0., 0.);
          for (const auto& v : face.vertices()) sum = sum + m.get_vertex(v.vertex_index).v().xyz();
          found += ((sum * (1. / face.vertices().size())) - into).norm() < .75;
        }
        c.expect(found >= 2, "no branch into a lane", [&] { return desc + " " + key; });
      }
    }
  }
  // The files.
  const std::string root = "net" + std::to_string(getpid());
  GenerateUrdfFile(rg.get(), mc::Scratch(), root, f);
  const std::string path = mc::Scratch() + "/" + root;
  std::string mtllib;
  Lines faces = ReadObj(c, path + ".obj", &mtllib);
  std::map<std::string, std::vector<std::vector<Vector3>>> by_material;
  for (const auto& x : faces) by_material[x.first].push_back(x.second);
  c.expect(mtllib == root + ".mtl", "name of the library of materials", text);
  for (const auto& k : names) {
    const GeoMesh& m = meshes.at(k).first;
    const auto& got = by_material[materials.at(k)];
    c.expect(got.size() == m.faces().size(), "faces of a mesh in the file", [&] { return desc + " " + k; });
    for (size_t i = 0; i < got.size(); ++i) {
      const auto& v = m.faces()[i].vertices();
      c.expect(got[i].size() == 2 * v.size(), "vertices of a face in the file", [&] { return desc + " " + k; });
      for (size_t q = 0; q < v.size(); ++q) {
        const Vector3 p = m.get_vertex(v[q].vertex_index).v().xyz() - f.origin.xyz();
        c.expect((got[i][2 * q] - p).norm() <= tolerance / 10. && (got[i][2 * q + 1] - m.get_normal(v[q].normal_index).n().xyz()).norm() <= tolerance / 10., "a vertex in the file", [&] { return desc + " " + k; });
      }
    }
  }
  c.expect(faces.size() == [&] {
    size_t t = 0;
    for (const auto& k : names) t += meshes.at(k).first.faces().size();
    return t;
  }(), "faces in the file", text);
  std::set<std::string> defined;
  {
    std::ifstream is(path + ".mtl");
    std::string line, name;
    while (std::getline(is, line)) {
      std::istringstream ls(line);
      std::string w;
      if (!(ls >> w)) continue;
      if (w == "newmtl") {
        ls >> name;
        c.expect(defined.insert(name).second, "a material is defined twice", text);
      } else if (w == "Ka" || w == "Kd" || w == "Ks") {
        const Material& m = GetMaterialByName(name);
        const Vector3& v = w == "Ka" ? m.ambient : w == "Kd" ? m.diffuse : m.specular;
        double x, y, z;
        c.expect(static_cast<bool>(ls >> x >> y >> z) && (Vector3(x, y, z) - v).norm() < 1e-5, "colour of a material", [&] { return line; });
      } else if (w == "d" || w == "Ns") {
        const Material& m = GetMaterialByName(name);
        double x;
        c.expect(static_cast<bool>(ls >> x) && std::fabs(x - (w == "d" ? 1. - m.transparency : m.shininess)) < tolerance, "value of a material", [&] { return line; });
      }
    }
  }
  for (const auto& x : by_material) c.expect(x.second.empty() || defined.count(x.first), "an undefined material", [&] { return desc + " " + x.first; });
  {
    std::ifstream is(path + ".urdf");
    std::stringstream ss;
    ss << is.rdbuf();
    c.expect(ss.str().find("mesh filename=\"" + root + ".obj\"") != std::string::npos && ss.str().find("robot name=\"road\"") != std::string::npos, "the description of the robot", text);
  }
  for (const std::string e : {".obj", ".mtl", ".urdf"}) std::remove((path + e).c_str());
}

// Branch points next to each other are drawn at different elevations.
void Stacks(mc::Ctx& c) {
  auto rg = std::make_unique<geometry_base::RoadGeometry>(api::RoadGeometryId("road"), .01, .01, 1., Vector3(0., 0., 0.));
  int n = 2 + c.choose(3);
  const bool high = n == 4;  // Many, most of them in one place.
  if (high) n = 7;
  std::string desc;
  ObjFeatures f;
  f.branch_point_height = c.flip() ? .5 : 1.25;
  f.branch_point_elevation = c.flip() ? .5 : 0.;
  const double pitch = c.choose(3) * .35;
  desc += "pitch " + std::to_string(pitch) + " ";
  for (int i = 0; i < n; ++i) {
    auto j = rg->AddJunction(std::make_unique<geometry_base::Junction>(api::JunctionId("j" + std::to_string(i))));
    auto s = j->AddSegment(std::make_unique<geometry_base::Segment>(api::SegmentId("s" + std::to_string(i))));
    Line line;
    line.origin = Vector3(0., i == 0 ? 0. : high ? (c.flip() ? 0. : 1.25) : c.choose(5) * 1.25, high ? 0. : c.choose(2) * .6);
    line.length = 20.;
    line.pitch = pitch;
    desc += std::to_string(line.origin.y()) + "," + std::to_string(line.origin.z()) + " ";
    auto* l = s->AddLane(std::make_unique<RoadLane>("l" + std::to_string(i), line, 0., Bounds{-1., -1., 1., 1.}, Bounds{-1., -1., 1., 1.}, 0., 5.));
    for (const auto w : {api::LaneEnd::kStart, api::LaneEnd::kFinish}) {
      auto bp = std::make_unique<geometry_base::BranchPoint>(api::BranchPointId(l->id().string() + (w == api::LaneEnd::kStart ? "s" : "f")));
      bp->AddABranch(l, w);
      rg->AddBranchPoint(std::move(bp));
    }
  }
  c.trace([&] { return desc; });
  c.op();
  c.state(desc);
  c.nontrivial();
  const auto meshes = BuildMeshes(rg.get(), f);
  const GeoMesh& m = meshes.at("branch_point").first;
  std::vector<Vector3> centres;
  for (size_t i = 0; i < m.faces().size(); i += 3) {  // A diamond and an arrow.
    Vector3 sum(0., 0., 0.);
    const auto& v = m.faces()[i].vertices();
    for (const auto& x : v) sum = sum + m.get_vertex(x.vertex_index).v().xyz();
    sum = sum * (1. / v.size());
    // In the frame of the lanes.
    centres.push_back(Vector3(sum.x() * std::cos(pitch) - sum.z() * std::sin(pitch), sum.y(), sum.x() * std::sin(pitch) + sum.z() * std::cos(pitch)));
  }
  c.expect(static_cast<int>(centres.size()) == 2 * n, "faces of the branch points", [&] { return desc; });
  for (size_t i = 0; i < centres.size(); ++i) {
    const Vector3 at = rg->branch_point(i)->GetASide()->get(0).lane->ToInertialPosition({rg->branch_point(i)->GetASide()->get(0).end == api::LaneEnd::kStart ? 0. : 20., 0., f.branch_point_elevation}).xyz();
    const Vector3 base(at.x() * std::cos(pitch) - at.z() * std::sin(pitch), at.y(), at.x() * std::sin(pitch) + at.z() * std::cos(pitch));
    const double steps = (centres[i].z() - base.z()) / f.branch_point_height;
    c.expect(std::fabs(centres[i].x() - base.x()) < 1e-6 && std::fabs(centres[i].y() - base.y()) < 1e-6 && steps > -1e-6 && std::fabs(steps - std::round(steps)) < 1e-6, "place of a branch point", [&] { return desc; });
    for (size_t k = 0; k < i; ++k) {
      const Vector3 d = centres[i] - centres[k];
      c.expect(std::hypot(d.x(), d.y()) >= 2. - 1e-9 || std::fabs(d.z()) >= f.branch_point_height - 1e-9, "branch points that overlap", [&] { return desc; });
    }
    if (steps > .5) {  // Some other branch point is in the way at every lower place.
      for (int q = 0; q < std::lround(steps); ++q) {
        bool busy = false;
        for (size_t k = 0; k < i; ++k) {
          const Vector3 d = centres[k] - (base + Vector3(0., 0., q * f.branch_point_height));
          busy = busy || (std::hypot(d.x(), d.y()) < 2. + 1e-9 && std::fabs(d.z()) < f.branch_point_height + 1e-9);
        }
        c.expect(busy, "a branch point higher than needed", [&] { return desc; });
      }
    }
  }
}

// Many lanes, segments and junctions: which of them are in each mesh.
void Many(mc::Ctx& c) {
  auto rg = std::make_unique<geometry_base::RoadGeometry>(api::RoadGeometryId("road"), .1, .01, 1., Vector3(0., 0., 0.));
  const int junctions = c.pick(std::vector<int>{1, 2, 5}), segments = c.pick(std::vector<int>{1, 3, 5}), width = c.pick(std::vector<int>{1, 4, 6});
  c.assume(junctions * segments * width < 60);
  std::vector<RoadLane*> lanes;
  std::vector<std::string> ids;
  for (int j = 0; j < junctions; ++j) {
    auto* junction = rg->AddJunction(std::make_unique<geometry_base::Junction>(api::JunctionId("j" + std::to_string(j))));
    for (int k = 0; k < segments; ++k) {
      ids.push_back("s" + std::to_string(ids.size()));
      auto* segment = junction->AddSegment(std::make_unique<geometry_base::Segment>(api::SegmentId(ids.back())));
      Line line;
      line.origin = Vector3(0., 40. * ids.size(), 0.);
      line.length = 4. + ids.size();
      for (int i = 0; i < width; ++i) {
        const double offset = 2. * i;
        lanes.push_back(segment->AddLane(std::make_unique<RoadLane>("l" + std::to_string(lanes.size()), line, offset, Bounds{-1., -1., 1., 1.}, Bounds{-1.5 - offset, -1.5 - offset, 2. * width - .5 - offset, 2. * width - .5 - offset}, 0., 5.)));
      }
    }
  }
  for (auto* l : lanes) {
    for (const auto w : {api::LaneEnd::kStart, api::LaneEnd::kFinish}) {
      auto bp = std::make_unique<geometry_base::BranchPoint>(api::BranchPointId(l->id().string() + (w == api::LaneEnd::kStart ? "s" : "f")));
      bp->AddABranch(l, w);
      rg->AddBranchPoint(std::move(bp));
    }
  }
  const int n = ids.size();
  // Highlighted: none, one, all but one, every other one, or all, in the other order.
  const int kind = c.choose(5), which = kind == 1 || kind == 2 ? c.choose(n) : 0;
  ObjFeatures f;
  std::vector<bool> lit(n);
  for (int i = n - 1; i >= 0; --i) {
    lit[i] = kind == 1 ? i == which : kind == 2 ? i != which : kind == 3 ? i % 2 == 1 : kind == 4;
    if (lit[i]) f.highlighted_segments.push_back(api::SegmentId(ids[i]));
  }
  const bool any = !f.highlighted_segments.empty();
  const std::string desc = std::to_string(junctions) + " junctions of " + std::to_string(segments) + " segments of " + std::to_string(width) + " lanes, highlights " + std::to_string(kind) + "/" + std::to_string(which);
  auto text = [&] { return desc; };
  c.trace(text);
  c.op();
  c.state(desc);
  c.nontrivial();
  const auto area = [&](const GeoMesh& m) {
    double a = 0.;
    for (const auto& face : m.faces()) {
      Vector3 s(0., 0., 0.);
      const auto& v = face.vertices();
      for (size_t k = 0; k < v.size(); ++k) s = s + m.get_vertex(v[k].vertex_index).v().xyz().cross(m.get_vertex(v[(k + 1) % v.size()].vertex_index).v().xyz());
      a += s.norm() / 2.;
    }
    return a;
  };
  std::map<std::string, double> want;
  for (int i = 0; i < n; ++i) {
    const double length = 5. + i;
    const std::string prefix = any && !lit[i] ? "grayed_" : "";
    want[prefix + "asphalt"] += length * (2. * width + 1.);
    want["h_bounds"] += f.draw_elevation_bounds ? 2. * length * (2. * width + 1.) : 0.;
    want[prefix + "lane"] += length * 2. * width;
    want[prefix + "marker"] += width * (2. * f.stripe_width * length + 2. * .4 * 2. * std::min(.3 * length, 2.));
  }
  const auto meshes = BuildMeshes(rg.get(), f);
  for (const std::string k : {"asphalt", "lane", "marker", "h_bounds", "grayed_asphalt", "grayed_lane", "grayed_marker"}) {
    c.expect(meshes.count(k) == 1 && std::fabs(area(meshes.at(k).first) - want[k]) < 1e-3 * (1. + want[k]), "area of a mesh", [&] { return desc + " " + k + " " + std::to_string(area(meshes.at(k).first)) + " instead of " + std::to_string(want[k]); });
  }
  const auto road = BuildRoadGeometryMesh(rg.get(), f);
  c.expect(std::fabs(area(road.asphalt_mesh.at("asphalt").first) - want["asphalt"]) < 1e-3 * (1. + want["asphalt"]) && std::fabs(area(road.grayed_asphalt_mesh.at("grayed_asphalt").first) - want["grayed_asphalt"]) < 1e-3 * (1. + want["grayed_asphalt"]) &&
               std::fabs(area(road.hbounds_mesh.at("h_bounds").first) - want["h_bounds"]) < 1e-3 * (1. + want["h_bounds"]), "meshes of the road", text);
  size_t normal = 0;
  for (size_t l = 0; l < lanes.size(); ++l) {
    const std::string id = lanes[l]->id().string();
    const int i = static_cast<int>(l) / width;
    const double length = 5. + i;
    const bool gray = any && !lit[i];
    normal += !gray;
    const auto& hazes = gray ? road.lane_grayed_lane_mesh : road.lane_lane_mesh;
    const auto& markers = gray ? road.lane_grayed_marker_mesh : road.lane_marker_mesh;
    const auto haze = hazes.find((gray ? "grayed_lane_" : "lane_") + id);
    const auto marker = markers.find((gray ? "grayed_marker_" : "marker_") + id);
    c.expect(haze != hazes.end() && std::fabs(area(haze->second.first) - 2. * length) < 1e-3 * length, "mesh of a lane", [&] { return desc + " " + id; });
    c.expect(marker != markers.end() && std::fabs(area(marker->second.first) - (2. * f.stripe_width * length + 2. * .4 * 2. * std::min(.3 * length, 2.))) < 1e-3 * length, "markers of a lane", [&] { return desc + " " + id; });
  }
  c.expect(road.lane_lane_mesh.size() == normal && road.lane_grayed_lane_mesh.size() == lanes.size() - normal && road.lane_marker_mesh.size() == normal && road.lane_grayed_marker_mesh.size() == lanes.size() - normal, "number of meshes of lanes", text);
  c.expect(road.branch_point_mesh.size() == 2 * lanes.size() && meshes.at("branch_point").first.faces().size() == 6 * lanes.size(), "meshes of branch points", text);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"surface", "segments of 1 or 2 lanes, straight or curved, of constant or changing width, x grids, optimized or not, simplified or not", Surface},
                               {"markers", "stripes and arrows of the same segments", Markers},
                               {"network", "networks of up to 3 segments, and of 6 x drawn features x highlighted segments x origin: meshes and files", Network},
                               {"many", "1, 2 or 5 junctions of 1, 3 or 5 segments of 1, 4 or 6 lanes, x highlighted segments: which are in each mesh", Many},
                               {"stacks", "up to 3 roads, and 7, side by side or on top of each other: branch points", Stacks}});
}
