// A minimal, closed-form road geometry backend on top of maliput::geometry_base: straight lanes in space.
// Everything that is not geometry of a single lane (frames, ids, graph, queries) is the real maliput code.
#pragma once

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "maliput/api/lane_data.h"
#include "maliput/api/road_geometry.h"
#include "maliput/geometry_base/branch_point.h"
#include "maliput/geometry_base/junction.h"
#include "maliput/geometry_base/lane.h"
#include "maliput/geometry_base/road_geometry.h"
#include "maliput/geometry_base/segment.h"
#include "maliput/math/vector.h"

namespace world {

namespace api = maliput::api;
namespace gb = maliput::geometry_base;
using maliput::math::Vector3;
using Which = api::LaneEnd::Which;
constexpr Which kStart = api::LaneEnd::kStart;
constexpr Which kFinish = api::LaneEnd::kFinish;

struct Pose {
  Vector3 origin{0., 0., 0.};  // Of (s, r, h) = (0, 0, 0), in the backend frame.
  double yaw{0.};
  double pitch{0.};  // Positive goes up.
  double roll{0.};   // About the direction of travel.
};

inline double Cos(double a) {  // Exact at multiples of 90 degrees.
  const double q = a / (M_PI / 2.);
  if (q == std::round(q)) {
    const long k = ((std::lround(q) % 4) + 4) % 4;
    return k == 0 ? 1. : k == 2 ? -1. : 0.;
  }
  return std::cos(a);
}
inline double Sin(double a) {
  const double q = a / (M_PI / 2.);
  if (q == std::round(q)) {
    const long k = ((std::lround(q) % 4) + 4) % 4;
    return k == 1 ? 1. : k == 3 ? -1. : 0.;
  }
  return std::sin(a);
}

struct LaneSpec {
  std::string id;
  Pose pose;
  double length{10.};
  double lane_min{-2.}, lane_max{2.};
  double seg_min{-2.}, seg_max{2.};
  double h_min{0.}, h_max{5.};
  double taper{1.};  // Factor of the widths at the finish: they vary linearly.
};

// Nearest point to (ps, pr) of the region with 0 <= s <= length, r0 * w(s) <= r <= r1 * w(s), w from 1 to `taper`.
inline void NearestInTrapezoid(double ps, double pr, double r0, double r1, double length, double taper, double* s, double* r) {
  const double w = 1. + (taper - 1.) * ps / length;
  if (ps >= 0. && ps <= length && pr >= r0 * w && pr <= r1 * w) {
    *s = ps, *r = pr;
    return;
  }
  const double v[4][2] = {{0., r0}, {length, r0 * taper}, {length, r1 * taper}, {0., r1}};
  double best = std::numeric_limits<double>::infinity();
  for (int k = 0; k < 4; ++k) {
    const double *a = v[k], *b = v[(k + 1) % 4];
    const double d[2] = {b[0] - a[0], b[1] - a[1]}, n = d[0] * d[0] + d[1] * d[1];
    double t = n == 0. ? 0. : ((ps - a[0]) * d[0] + (pr - a[1]) * d[1]) / n;
    t = t < 0. ? 0. : (t > 1. ? 1. : t);
    const double qs = a[0] + t * d[0], qr = a[1] + t * d[1], dd = (qs - ps) * (qs - ps) + (qr - pr) * (qr - pr);
    if (dd < best) best = dd, *s = qs, *r = qr;
  }
}

class StraightLane : public gb::Lane {
 public:
  explicit StraightLane(const LaneSpec& spec) : gb::Lane(api::LaneId(spec.id)), spec(spec) {
    const Pose& p = spec.pose;
    s_hat = Vector3(Cos(p.yaw) * Cos(p.pitch), Sin(p.yaw) * Cos(p.pitch), Sin(p.pitch));
    r_hat = Vector3(-Sin(p.yaw), Cos(p.yaw), 0.);
    h_hat = Vector3(-Cos(p.yaw) * Sin(p.pitch), -Sin(p.yaw) * Sin(p.pitch), Cos(p.pitch));
    if (p.roll != 0.) {
      const Vector3 r = Cos(p.roll) * r_hat + Sin(p.roll) * h_hat;
      h_hat = Cos(p.roll) * h_hat - Sin(p.roll) * r_hat;
      r_hat = r;
    }
  }
  LaneSpec spec;
  Vector3 s_hat, r_hat, h_hat;

  Vector3 Backend(double s, double r, double h) const {
    return spec.pose.origin + s * s_hat + r * r_hat + h * h_hat;
  }
  // Number of inverse mappings asked from this lane.
  mutable unsigned long queries{0};

 private:
  double Width(double s) const { return spec.taper == 1. ? 1. : 1. + (spec.taper - 1.) * Clamp(s, 0., spec.length) / spec.length; }
  static double Dot(const Vector3& a, const Vector3& b) { return a.x() * b.x() + a.y() * b.y() + a.z() * b.z(); }
  static double Clamp(double v, double lo, double hi) { return v < lo ? lo : (v > hi ? hi : v); }
  void Inverse(const Vector3& p, double r_min, double r_max, api::LanePosition* lp, Vector3* nearest, double* d) const {
    ++queries;
    const Vector3 v = p - spec.pose.origin;
    double s = Clamp(Dot(v, s_hat), 0., spec.length);
    double r = Clamp(Dot(v, r_hat), r_min, r_max);
    if (spec.taper != 1.) NearestInTrapezoid(Dot(v, s_hat), Dot(v, r_hat), r_min, r_max, spec.length, spec.taper, &s, &r);
    const double h = Clamp(Dot(v, h_hat), spec.h_min, spec.h_max);
    *lp = api::LanePosition(s, r, h);
    *nearest = Backend(s, r, h);
    *d = (p - *nearest).norm();
  }
  double do_length() const override { return spec.length; }
  api::RBounds do_lane_bounds(double s) const override { return {spec.lane_min * Width(s), spec.lane_max * Width(s)}; }
  api::RBounds do_segment_bounds(double s) const override { return {spec.seg_min * Width(s), spec.seg_max * Width(s)}; }
  api::HBounds do_elevation_bounds(double, double) const override { return {spec.h_min, spec.h_max}; }
  Vector3 DoToBackendPosition(const api::LanePosition& p) const override { return Backend(p.s(), p.r(), p.h()); }
  void DoToLanePositionBackend(const Vector3& p, api::LanePosition* lp, Vector3* nearest, double* d) const override {
    Inverse(p, spec.lane_min, spec.lane_max, lp, nearest, d);
  }
  void DoToSegmentPositionBackend(const Vector3& p, api::LanePosition* lp, Vector3* nearest, double* d) const override {
    Inverse(p, spec.seg_min, spec.seg_max, lp, nearest, d);
  }
  api::Rotation DoGetOrientation(const api::LanePosition&) const override {
    return api::Rotation::FromRpy(spec.pose.roll, -spec.pose.pitch, spec.pose.yaw);
  }
  api::LanePosition DoEvalMotionDerivatives(const api::LanePosition&, const api::IsoLaneVelocity& v) const override {
    return {v.sigma_v, v.rho_v, v.eta_v};
  }
};

class RoadGeometry : public gb::RoadGeometry {
 public:
  using gb::RoadGeometry::RoadGeometry;
};

struct EndRef {
  std::string lane;
  Which end;
};

class World {
 public:
  explicit World(double linear_tolerance = 1. / 64., double angular_tolerance = 1. / 64., double scale_length = 1.,
                 const Vector3& translation = Vector3(0., 0., 0.), const std::string& id = "world")
      : rg(std::make_unique<RoadGeometry>(api::RoadGeometryId(id), linear_tolerance, angular_tolerance, scale_length,
                                          translation)) {}
  World& Junction(const std::string& id) {
    j_ = rg->AddJunction(std::make_unique<gb::Junction>(api::JunctionId(id)));
    return *this;
  }
  World& Segment(const std::string& id) {
    s_ = j_->AddSegment(std::make_unique<gb::Segment>(api::SegmentId(id)));
    return *this;
  }
  StraightLane* Lane(const LaneSpec& spec) {
    StraightLane* l = s_->AddLane(std::make_unique<StraightLane>(spec));
    lanes[spec.id] = l;
    order.push_back(l);
    return l;
  }
  // Junction + segment + lanes in one go. Lanes are given from right to left.
  void Road(const std::string& name, const std::vector<LaneSpec>& specs) {
    Junction("j" + name);
    Segment("s" + name);
    for (const auto& s : specs) Lane(s);
  }
  gb::BranchPoint* Branch(const std::string& id, const std::vector<EndRef>& a, const std::vector<EndRef>& b) {
    auto bp = std::make_unique<gb::BranchPoint>(api::BranchPointId(id));
    for (const auto& e : a) bp->AddABranch(lanes.at(e.lane), e.end);
    for (const auto& e : b) bp->AddBBranch(lanes.at(e.lane), e.end);
    return rg->AddBranchPoint(std::move(bp));
  }
  // Closes every lane end that has no branch point with one of its own.
  void CloseEnds() {
    for (auto* l : order) {
      for (Which w : {kStart, kFinish}) {
        if (l->GetBranchPoint(w) == nullptr) Branch("bp-" + l->id().string() + (w == kStart ? "-s" : "-f"), {{l->id().string(), w}}, {});
      }
    }
  }
  // Joins coinciding lane ends (same point) into branch points: tangents decide the side.
  void AutoBranch(double eps = 1e-6) {
    struct E {
      StraightLane* l;
      Which w;
      Vector3 p, t;  // Tangent pointing into the lane.
      bool used;
    };
    std::vector<E> ends;
    for (auto* l : order) {
      ends.push_back({l, kStart, l->Backend(0., 0., 0.), l->s_hat, false});
      ends.push_back({l, kFinish, l->Backend(l->spec.length, 0., 0.), -1. * l->s_hat, false});
    }
    int n = 0;
    for (size_t i = 0; i < ends.size(); ++i) {
      if (ends[i].used) continue;
      std::vector<EndRef> a, b;
      for (size_t k = i; k < ends.size(); ++k) {
        if (ends[k].used || (ends[k].p - ends[i].p).norm() > eps) continue;
        const double dot = ends[k].t.x() * ends[i].t.x() + ends[k].t.y() * ends[i].t.y() + ends[k].t.z() * ends[i].t.z();
        if (std::fabs(dot) < 0.5) continue;  // Unrelated crossing.
        (dot > 0. ? a : b).push_back({ends[k].l->id().string(), ends[k].w});
        ends[k].used = true;
      }
      gb::BranchPoint* bp = Branch("bp" + std::to_string(n++), a, b);
      for (const auto& x : a) {
        if (b.size() == 1) bp->SetDefault({lanes.at(x.lane), x.end}, {lanes.at(b[0].lane), b[0].end});
      }
      for (const auto& x : b) {
        if (a.size() == 1) bp->SetDefault({lanes.at(x.lane), x.end}, {lanes.at(a[0].lane), a[0].end});
      }
    }
  }
  StraightLane* operator[](const std::string& id) const { return lanes.at(id); }

  std::unique_ptr<RoadGeometry> rg;
  std::map<std::string, StraightLane*> lanes;
  std::vector<StraightLane*> order;

 private:
  gb::Junction* j_{};
  gb::Segment* s_{};
};

}  // namespace world
