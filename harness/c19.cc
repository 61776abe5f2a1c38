// Meshes: containers, simplification and text form of every small mesh.
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <vector>

#include "maliput/utility/mesh.h"
#include "maliput/utility/mesh_simplification.h"
#include "mc.h"

using namespace maliput;
using namespace maliput::utility::mesh;
using math::Vector3;

namespace {

Vector3 Cross(const Vector3& a, const Vector3& b) {
  return {a.y() * b.z() - a.z() * b.y(), a.z() * b.x() - a.x() * b.z(), a.x() * b.y() - a.y() * b.x()};
}
double Dot(const Vector3& a, const Vector3& b) { return a.x() * b.x() + a.y() * b.y() + a.z() * b.z(); }
double Norm(const Vector3& a) { return std::sqrt(Dot(a, a)); }
Vector3 Minus(const Vector3& a, const Vector3& b) { return {a.x() - b.x(), a.y() - b.y(), a.z() - b.z()}; }
double LineDistance(const Vector3& p, const Vector3& r, const Vector3& q) { return Norm(Cross(r, Minus(q, p))) / Norm(r); }
std::string Str(const Vector3& v) {
  std::ostringstream os;
  os << "(" << v.x() << "," << v.y() << "," << v.z() << ")";
  return os.str();
}
// Twice the vector area of a polygon.
Vector3 Area(const std::vector<Vector3>& p) {
  Vector3 a(0., 0., 0.);
  for (size_t i = 0; i < p.size(); ++i) {
    const Vector3 c = Cross(p[i], p[(i + 1) % p.size()]);
    a = Vector3(a.x() + c.x(), a.y() + c.y(), a.z() + c.z());
  }
  return a;
}

struct Sheet {
  std::vector<Vector3> points;
  std::vector<std::vector<int>> faces;  // Of points, counter-clockwise seen from above.
  std::vector<Vector3> normals;         // One per face.
  GeoMesh mesh;

  Vector3 At(int f, int k) const { return points[faces[f][k]]; }
  int Size(int f) const { return static_cast<int>(faces[f].size()); }
  std::map<std::pair<int, int>, std::pair<int, int>> edges;  // (from, to) -> (face, edge).
  std::pair<int, int> Across(int f, int k) const {
    const auto it = edges.find({faces[f][(k + 1) % Size(f)], faces[f][k]});
    return it == edges.end() ? std::make_pair(-1, -1) : it->second;
  }
  void Finish(bool vertical) {
    for (size_t f = 0; f < faces.size(); ++f) {
      std::vector<Vector3> p;
      for (int v : faces[f]) p.push_back(points[v]);
      const Vector3 a = Area(p);
      const double n = Norm(a);
      normals.push_back(vertical ? Vector3(0., 0., 1.) : Vector3(a.x() / n, a.y() / n, a.z() / n));
      GeoFace face;
      for (size_t k = 0; k < faces[f].size(); ++k) {
        face.push_vn(GeoVertex(api::InertialPosition::FromXyz(p[k])), GeoNormal(api::InertialPosition::FromXyz(normals[f])));
        edges[{faces[f][k], faces[f][(k + 1) % faces[f].size()]}] = {static_cast<int>(f), static_cast<int>(k)};
      }
      mesh.PushFace(face);
    }
  }
  std::string Text() const {
    std::string t;
    for (size_t f = 0; f < faces.size(); ++f) {
      t += "[";
      for (int v : faces[f]) t += Str(points[v]);
      t += "]" + Str(normals[f]) + " ";
    }
    return t;
  }
  // Distance along the normal of the face, as documented.
  double Off(int f, int k, const Vector3& n, const Vector3& p) const {
    const double c = std::fabs(Dot(n, normals[f]));
    return c == 0. ? 1e9 : std::fabs(Dot(n, Minus(At(f, k), p))) / Norm(n) / c;
  }
  bool Coplanar(int f, const Vector3& n, const Vector3& p, double tolerance) const {
    for (int k = 0; k < Size(f); ++k) {
      if (!(Off(f, k, n, p) < tolerance)) return false;
    }
    return true;
  }
  bool Ambiguous(double tolerance) const {
    for (size_t g = 0; g < faces.size(); ++g) {
      for (size_t f = 0; f < faces.size(); ++f) {
        for (int k = 0; k < Size(f); ++k) {
          if (std::fabs(Off(f, k, normals[g], At(g, 0)) - tolerance) < 1e-9) return true;
        }
      }
    }
    return false;
  }
  // The boundary of a set of faces as (face, vertex), or empty unless it is one simple cycle.
  std::vector<std::pair<int, int>> Contour(const std::set<int>& set) const {
    std::map<int, std::pair<int, int>> out;  // By start point.
    int n = 0;
    for (int f : set) {
      for (int k = 0; k < Size(f); ++k) {
        if (set.count(Across(f, k).first)) continue;
        ++n;
        if (!out.emplace(faces[f][k], std::make_pair(f, k)).second) return {};
      }
    }
    std::vector<std::pair<int, int>> r;
    if (out.empty()) return r;
    int v = out.begin()->first;
    do {
      const auto e = out.at(v);
      r.push_back(e);
      v = faces[e.first][(e.second + 1) % Size(e.first)];
    } while (v != out.begin()->first);
    if (static_cast<int>(r.size()) != n) return {};
    return r;
  }
};

// A grid of w x h unit cells, some of them missing, each one or two faces.
Sheet ChooseSheet(mc::Ctx& c, int w, int h, const std::vector<double>& heights, const std::vector<double>& shifts) {
  Sheet s;
  const int mask = 1 + c.choose((1 << (w * h)) - 1);
  const bool vertical = c.flip();
  const bool triangles = c.flip();
  const int start = mc::Thorough() ? c.choose(triangles ? 3 : 4) : vertical ? 1 : c.choose(2);
  std::set<int> used;
  for (int j = 0; j < h; ++j) {
    for (int i = 0; i < w; ++i) {
      if (!(mask & (1 << (j * w + i)))) continue;
      const int a = j * (w + 1) + i, b = a + 1, d = a + w + 1, e = d + 1;
      std::vector<std::vector<int>> fs;
      if (triangles) {
        fs = {{a, b, e}, {a, e, d}};
      } else {
        fs = {{a, b, e, d}};
      }
      for (auto& f : fs) {
        std::rotate(f.begin(), f.begin() + start % f.size(), f.end());
        for (int v : f) used.insert(v);
        s.faces.push_back(f);
      }
    }
  }
  for (int v = 0; v < (w + 1) * (h + 1); ++v) {
    const double z = used.count(v) ? c.pick(heights) : 0.;
    const double dy = used.count(v) && shifts.size() > 1 ? c.pick(shifts) : 0.;
    s.points.push_back(Vector3(v % (w + 1), v / (w + 1) + dy, z));
  }
  s.Finish(vertical);
  return s;
}

constexpr double kTolerance = 0.1;

void CheckContainers(mc::Ctx& c, const Sheet& s) {
  std::set<int> used;
  for (size_t f = 0; f < s.faces.size(); ++f) {
    c.expect(s.mesh.faces()[f].vertices().size() == s.faces[f].size(), "vertices of a face", [&] { return s.Text(); });
    for (int k = 0; k < s.Size(f); ++k) {
      used.insert(s.faces[f][k]);
      const auto& v = s.mesh.faces()[f].vertices()[k];
      c.expect(s.mesh.get_vertex(v.vertex_index).v().xyz() == s.At(f, k) && s.mesh.get_normal(v.normal_index).n().xyz() == s.normals[f] &&
                   GetMeshFaceVertexPosition(s.mesh, v) == s.At(f, k) && GetMeshFaceVertexNormal(s.mesh, v) == s.normals[f],
               "a vertex of a face", [&] { return s.Text() + std::to_string(f) + "/" + std::to_string(k); });
    }
  }
  c.expect(s.mesh.num_vertices() == static_cast<int>(used.size()) && s.mesh.faces().size() == s.faces.size(), "sizes of the mesh", [&] { return s.Text(); });
}

void CheckAdjacency(mc::Ctx& c, const Sheet& s, const FaceAdjacencyMap& adjacent) {
  c.expect(adjacent.size() == s.faces.size(), "faces of the adjacency map", [&] { return s.Text(); });
  for (size_t f = 0; f < s.faces.size(); ++f) {
    const auto& a = adjacent.at(f);
    c.expect(static_cast<int>(a.size()) == s.Size(f), "edges of the adjacency map", [&] { return s.Text(); });
    for (int k = 0; k < s.Size(f); ++k) {
      const auto e = s.Across(f, k);
      c.expect(a[k].face_index == e.first && a[k].edge_index == e.second, "adjacent edge", [&] { return s.Text() + std::to_string(f) + "/" + std::to_string(k); });
    }
  }
}

// Regions that are exactly flat: what is merged is determined, and the surface stays the same.
void Flat(mc::Ctx& c) {
  const bool wide = !mc::Thorough() || c.flip();
  Sheet s = wide ? ChooseSheet(c, 3, 2, {0., 1.}, {0.}) : ChooseSheet(c, 2, 2, {0., 1., -1.}, {0.});
  c.trace([&] { return s.Text(); });
  c.op();
  // Reference: connected, exactly coplanar faces.
  const int n = s.faces.size();
  std::vector<int> group(n, -1);
  std::vector<std::set<int>> groups;
  for (int f = 0; f < n; ++f) {
    if (group[f] >= 0) continue;
    std::set<int> g{f};
    const Vector3 normal = s.normals[f], p = s.At(f, 0);
    if (s.Coplanar(f, normal, p, 1e-9)) {
      std::vector<int> todo{f};
      while (!todo.empty()) {
        const int x = todo.back();
        todo.pop_back();
        for (int k = 0; k < s.Size(x); ++k) {
          const int y = s.Across(x, k).first;
          if (y >= 0 && !g.count(y) && s.Coplanar(y, normal, p, 1e-9)) {
            g.insert(y);
            todo.push_back(y);
          }
        }
      }
    }
    for (int x : g) group[x] = groups.size();
    groups.push_back(g);
  }
  std::vector<std::vector<std::pair<int, int>>> contours;
  for (const auto& g : groups) {
    contours.push_back(s.Contour(g));
    c.assume(!contours.back().empty());  // Simply connected.
  }
  if (static_cast<int>(groups.size()) < n) c.nontrivial();
  const GeoMesh out = SimplifyMeshFaces(s.mesh, kTolerance);
  auto text = [&] {
    std::string t = s.Text() + " gives ";
    for (const auto& f : out.faces()) {
      t += "[";
      for (const auto& v : f.vertices()) t += Str(out.get_vertex(v.vertex_index).v().xyz());
      t += "] ";
    }
    return t;
  };
  c.expect(out.faces().size() == groups.size(), "number of merged faces", text);
  std::vector<bool> taken(groups.size());
  for (const auto& f : out.faces()) {
    std::vector<Vector3> p;
    for (const auto& v : f.vertices()) p.push_back(out.get_vertex(v.vertex_index).v().xyz());
    c.expect(p.size() >= 3, "a degenerate face", text);
    bool found = false;
    for (size_t g = 0; g < groups.size() && !found; ++g) {
      if (taken[g]) continue;
      // In order, within the contour.
      std::vector<Vector3> q;
      for (const auto& e : contours[g]) q.push_back(s.At(e.first, e.second));
      const auto first = std::find(q.begin(), q.end(), p[0]);
      if (first == q.end()) continue;
      std::rotate(q.begin(), first, q.end());
      size_t k = 0;
      for (const auto& x : q) {
        if (k < p.size() && x == p[k]) ++k;
      }
      if (k != p.size()) continue;
      // Exactly the same region.
      if (Norm(Minus(Area(p), Area(q))) > 1e-9) continue;
      bool normals = true;
      for (const auto& v : f.vertices()) normals = normals && out.get_normal(v.normal_index).n().xyz() == s.normals[*groups[g].begin()];
      if (!normals) continue;
      taken[g] = found = true;
    }
    c.expect(found, "a face that is not the contour of a flat region", text);
  }
  std::string t;
  for (int g : group) t += std::to_string(g);
  c.state(t);
}

// Nearly flat regions: every step of the simplification, against its tolerance.
void CheckSheet(mc::Ctx& c, const Sheet& s, bool available, bool exact) {
  c.assume(!s.Ambiguous(kTolerance));
  c.trace([&] { return s.Text(); });
  CheckContainers(c, s);
  const FaceAdjacencyMap adjacent = ComputeFaceAdjacencyMap(s.mesh.faces());
  CheckAdjacency(c, s, adjacent);
  const int n = s.faces.size();
  const int visited = available ? c.choose(n + 1) - 1 : -1;  // Up to one face is not available.
  for (int f = 0; f < n; ++f) {
    Vector3 normal, p;
    const bool planar = IsMeshFacePlanar(s.mesh, s.mesh.faces()[f], kTolerance, &normal, &p);
    auto text = [&] { return s.Text() + "face " + std::to_string(f) + (visited < 0 ? "" : " without " + std::to_string(visited)); };
    c.expect(normal == s.normals[f] && p == s.At(f, 0) && planar == s.Coplanar(f, normal, p, kTolerance), "planarity", text);
    for (int g = 0; g < n; ++g) {
      c.expect(IsMeshFaceCoplanarWithPlane(s.mesh, s.mesh.faces()[g], normal, p, kTolerance) == s.Coplanar(g, normal, p, kTolerance), "coplanarity", text);
    }
    if (f == visited) continue;
    std::set<int> done;
    if (visited >= 0) done.insert(visited);
    const std::set<int> set = AggregateAdjacentCoplanarMeshFaces(s.mesh, f, adjacent, kTolerance, &done);
    c.op();
    std::set<int> want{f};
    if (planar) {
      std::vector<int> todo{f};
      while (!todo.empty()) {
        const int x = todo.back();
        todo.pop_back();
        for (int k = 0; k < s.Size(x); ++k) {
          const int y = s.Across(x, k).first;
          if (y >= 0 && y != visited && !want.count(y) && s.Coplanar(y, normal, p, kTolerance)) {
            want.insert(y);
            todo.push_back(y);
          }
        }
      }
    }
    c.expect(set == want, "aggregated faces", text);
    std::set<int> all = want;
    if (visited >= 0) all.insert(visited);
    c.expect(done == all, "visited faces", text);
    const auto contour = s.Contour(set);
    if (contour.empty()) continue;
    const FaceEdgeIndex outer = FindOuterFaceEdgeIndex(set, adjacent);
    c.expect(set.count(outer.face_index) == 1 && outer.edge_index >= 0 && outer.edge_index < s.Size(outer.face_index) && set.count(s.Across(outer.face_index, outer.edge_index).first) == 0, "outer edge", text);
    std::vector<std::pair<int, int>> got;
    const auto faces_contour = ComputeMeshFacesContour(set, adjacent);
    for (const auto& x : faces_contour) {
      got.emplace_back(x.face_index, x.vertex_index);
      const auto& v = MeshFaceVertexAt(s.mesh, x);
      c.expect(GetMeshFaceVertexPosition(s.mesh, v) == s.At(x.face_index, x.vertex_index), "vertex of a face", text);
    }
    auto rotated = contour;
    const auto first = std::find(rotated.begin(), rotated.end(), got.empty() ? std::make_pair(-1, -1) : got[0]);
    std::rotate(rotated.begin(), first == rotated.end() ? rotated.begin() : first, rotated.end());
    c.expect(got == rotated, "contour", text);
    // What is kept of the contour.
    const auto kept = SimplifyMeshFacesContour(s.mesh, faces_contour, kTolerance);
    std::vector<Vector3> polygon;
    std::vector<size_t> at;
    size_t i = 0;
    for (const auto& x : kept) {
      while (i < got.size() && got[i] != std::make_pair(x.face_index, x.vertex_index)) ++i;
      c.expect(i < got.size(), "the simplified contour is not part of the contour", text);
      at.push_back(i++);
      polygon.push_back(s.At(x.face_index, x.vertex_index));
    }
    c.expect(kept.size() >= 3, "too few vertices are kept", text);
    for (size_t k = 0; k < at.size(); ++k) {
      const size_t next = k + 1 < at.size() ? at[k + 1] : at[0] + got.size();
      const Vector3 a = polygon[k], b = polygon[(k + 1) % polygon.size()];
      for (size_t m = at[k] + 1; m < next; ++m) {
        const auto e = got[m % got.size()];
        c.expect(LineDistance(a, Minus(b, a), s.At(e.first, e.second)) <= kTolerance + 1e-9, "a vertex that is not redundant was removed", text);
      }
    }
    if (kept.size() < got.size()) c.nontrivial();
    if (exact) {  // Redundant vertices may only be kept next to corners.
      size_t corners = 0;
      for (size_t k = 0; k < contour.size(); ++k) {
        const auto p0 = contour[k], p1 = contour[(k + 1) % contour.size()], p2 = contour[(k + 2) % contour.size()];
        const Vector3 x = s.At(p0.first, p0.second), y = s.At(p1.first, p1.second), z = s.At(p2.first, p2.second);
        corners += Norm(Cross(Minus(y, x), Minus(z, y))) > 1e-9;
      }
      c.expect(kept.size() <= 2 * (corners + 1), "redundant vertices are kept", text);
    }
    const GeoFace merged = MergeMeshFaces(s.mesh, set, adjacent, kTolerance);
    c.expect(merged.vertices().size() == kept.size() && merged.normals().size() == kept.size(), "merged face", text);
    for (size_t k = 0; k < kept.size(); ++k) {
      c.expect(merged.vertices()[k].v().xyz() == polygon[k] && merged.normals()[k].n().xyz() == s.normals[kept[k].face_index], "vertex of the merged face", text);
    }
  }
  if (visited >= 0) return;
  // As a whole: a partition of the faces.
  const GeoMesh out = SimplifyMeshFaces(s.mesh, kTolerance);
  double before = 0., after = 0., perimeter = 0.;
  for (int f = 0; f < n; ++f) {
    std::vector<Vector3> p;
    for (int k = 0; k < s.Size(f); ++k) p.push_back(s.At(f, k));
    before += Area(p).z();
    for (int k = 0; k < s.Size(f); ++k) perimeter += Norm(Minus(p[k], p[(k + 1) % p.size()]));
  }
  bool simple = true;
  for (int f = 0; f < n; ++f) {
    std::set<int> done;
    simple = simple && !s.Contour(AggregateAdjacentCoplanarMeshFaces(s.mesh, f, adjacent, kTolerance, &done)).empty();
  }
  for (const auto& f : out.faces()) {
    std::vector<Vector3> p;
    for (const auto& v : f.vertices()) {
      p.push_back(out.get_vertex(v.vertex_index).v().xyz());
      c.expect(std::find(s.points.begin(), s.points.end(), p.back()) != s.points.end(), "a new vertex", [&] { return s.Text(); });
    }
    after += Area(p).z();
  }
  c.expect(static_cast<int>(out.faces().size()) <= n && !out.faces().empty(), "number of faces", [&] { return s.Text(); });
  if (simple) c.expect(std::fabs(after - before) <= 2. * kTolerance * perimeter, "area", [&] { return s.Text(); });
  c.state(s.Text());
}


void Tolerance(mc::Ctx& c) {
  const int shape = c.choose(3);
  const Sheet s = shape == 0 ? ChooseSheet(c, 2, 2, {0., .06, .3}, {0.}) : shape == 1 ? ChooseSheet(c, 3, 1, {0., .06}, mc::Thorough() ? std::vector<double>{0., .06, -.25} : std::vector<double>{0., -.25}) : ChooseSheet(c, 4, 1, {0.}, mc::Thorough() ? std::vector<double>{0., .06, -.06} : std::vector<double>{0., .12});
  CheckSheet(c, s, shape == 2 || mc::Thorough(), false);
}

// Faces of many edges, and regions of many faces: one vertex at a time off the plane, or off its line.
void Many(mc::Ctx& c) {
  const int edges = c.pick(std::vector<int>{1, 3, 5, 8});  // Along each face.
  const int rows = 1 + c.choose(edges == 1 ? 3 : 4), columns = edges == 1 ? c.pick(std::vector<int>{5, 9, 14}) : 1 + c.choose(2);
  const int w = edges * columns;
  Sheet s;
  const bool vertical = c.flip();
  const int sides = 2 * edges + 2, start = mc::Thorough() ? c.choose(sides) : c.pick(std::vector<int>{0, sides - 1});
  if (!mc::Thorough()) c.assume(!vertical || start == 0);
  const auto at = [&](int i, int j) { return j * (w + 1) + i; };
  for (int j = 0; j < rows; ++j) {
    for (int i = 0; i < columns; ++i) {
      std::vector<int> f;
      for (int k = 0; k <= edges; ++k) f.push_back(at(i * edges + k, j));
      for (int k = edges; k >= 0; --k) f.push_back(at(i * edges + k, j + 1));
      std::rotate(f.begin(), f.begin() + start, f.end());
      s.faces.push_back(f);
    }
  }
  const int points = (w + 1) * (rows + 1);
  const int off = c.choose(points + 1) - 1, by = off < 0 ? 0 : c.choose(4);
  for (int v = 0; v < points; ++v) {
    const double dz = v != off ? 0. : by == 0 ? .06 : by == 1 ? .3 : 0., dy = v != off ? 0. : by == 2 ? .06 : by == 3 ? -.3 : 0.;
    s.points.push_back(Vector3(v % (w + 1), v / (w + 1) + dy, dz));
  }
  s.Finish(vertical);
  CheckSheet(c, s, false, off < 0);
}

void Distances(mc::Ctx& c) {
  static const std::vector<double> coarse{-2., 0., 1.}, fine{-1., 0., .5, 3.};
  auto vec = [&](const std::vector<double>& v) {
    const double x = c.pick(v), y = c.pick(v), z = c.pick(v);
    return Vector3(x, y, z);
  };
  const Vector3 n = vec(fine), p = vec(coarse), q = vec(coarse);
  c.assume(Norm(n) > 0.);
  auto text = [&] { return Str(n) + Str(p) + Str(q); };
  c.op(2);
  c.nontrivial();
  c.expect(std::fabs(DistanceToAPlane(n, p, q) - std::fabs(Dot(n, Minus(q, p))) / Norm(n)) < 1e-9, "distance to a plane", text);
  c.expect(std::fabs(DistanceToALine(p, n, q) - LineDistance(p, n, q)) < 1e-7, "distance to a line", text);
  c.state(text());
}

// Meshes of faces over a few vertices; as text, and read back.
void Text(mc::Ctx& c) {
  static const std::vector<Vector3> points{{0., 0., 0.}, {1.25, -2., 0.5}, {-0.125, 7., 3.}, {100., 0.0625, -1.}, {-0., 0., 0.}};
  static const std::vector<Vector3> normals{{0., 0., 1.}, {0.6, 0., -0.8}, {1., 0., 0.}};
  const int meshes = 1 + c.choose(2);
  const int precision = c.pick(std::vector<int>{0, 2, 5});
  const Vector3 origin = c.flip() ? Vector3(1., -2., 0.5) : Vector3(0., 0., 0.);
  std::ostringstream os;
  int vo = 0, no = 0;
  std::vector<std::vector<std::pair<Vector3, Vector3>>> want;
  std::vector<std::string> materials;
  auto equal = [](const Vector3& a, const Vector3& b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); };
  std::string desc = std::to_string(precision) + Str(origin);
  for (int m = 0; m < meshes; ++m) {
    GeoMesh mesh, other;
    const int faces = c.choose(m == 0 ? 3 : 2);
    std::vector<std::vector<std::pair<Vector3, Vector3>>> mine;
    std::vector<Vector3> vs, ns;
    auto index = [&](std::vector<Vector3>* v, const Vector3& x) {
      for (size_t i = 0; i < v->size(); ++i) {
        if (equal((*v)[i], x)) return static_cast<int>(i);
      }
      v->push_back(x);
      return static_cast<int>(v->size()) - 1;
    };
    for (int f = 0; f < faces; ++f) {
      const int k = 3 + c.choose(2);
      const int first = c.choose(points.size()), step = (f || m) && !mc::Thorough() ? 1 : 1 + c.choose(2), normal = m && !mc::Thorough() ? 2 : c.choose(3);
      GeoFace face;
      std::vector<std::pair<Vector3, Vector3>> w;
      desc += "|";
      for (int i = 0; i < k; ++i) {
        const Vector3 p = points[(first + i * step) % points.size()], nn = normals[normal == 2 ? i % 3 : normal];
        face.push_vn(GeoVertex(api::InertialPosition::FromXyz(p)), GeoNormal(api::InertialPosition::FromXyz(nn)));
        w.emplace_back(p, nn);
        index(&vs, p);
        index(&ns, nn);
        desc += Str(p) + Str(nn);
      }
      mine.push_back(w);
      mesh.PushFace(face);
    }
    const std::string material = m && !mc::Thorough() ? "lines" : c.flip() ? "paint" : "";
    const bool copy = c.flip();
    GeoMesh target;
    if (copy) {  // Through AddFacesFrom(), twice: vertices are shared.
      target.AddFacesFrom(mesh);
      target.AddFacesFrom(mesh);
      const auto once = mine;
      mine.insert(mine.end(), once.begin(), once.end());
    }
    const GeoMesh& used = copy ? target : mesh;
    c.expect(used.num_vertices() == static_cast<int>(vs.size()) && used.num_normals() == static_cast<int>(ns.size()) && used.faces().size() == mine.size(), "unique vertices and normals", [&] { return desc; });
    for (size_t f = 0; f < mine.size(); ++f) {
      for (size_t k = 0; k < mine[f].size(); ++k) {
        const auto& v = used.faces()[f].vertices()[k];
        c.expect(equal(used.get_vertex(v.vertex_index).v().xyz(), mine[f][k].first) && equal(used.get_normal(v.normal_index).n().xyz(), mine[f][k].second), "indexed vertex", [&] { return desc; });
      }
    }
    int v1, n1;
    std::tie(v1, n1) = used.EmitObj(os, material, precision, api::InertialPosition::FromXyz(origin), vo, no);
    c.expect(v1 == vo + static_cast<int>(vs.size()) && n1 == no + static_cast<int>(ns.size()), "offsets", [&] { return desc; });
    vo = v1;
    no = n1;
    for (const auto& f : mine) {
      want.push_back(f);
      materials.push_back(material);
    }
  }
  // Read it back.
  std::istringstream is(os.str());
  std::string line, material;
  std::vector<Vector3> vs, ns;
  size_t f = 0;
  const double eps = 0.5 * std::pow(10., -precision) + 1e-9;
  auto text = [&] { return desc + "\n" + os.str(); };
  bool changed = false;
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    std::string w;
    if (!(ls >> w) || w[0] == '#') continue;
    double x, y, z;
    if (w == "v" || w == "vn") {
      c.expect(static_cast<bool>(ls >> x >> y >> z), "a vertex line", text);
      (w == "v" ? vs : ns).push_back(Vector3(x, y, z));
    } else if (w == "usemtl") {
      ls >> material;
      changed = true;
    } else {
      c.expect(w == "f" && f < want.size(), "an unexpected line", text);
      if (materials[f] != "") c.expect(changed && material == materials[f], "material", text);
      std::string item;
      size_t k = 0;
      while (ls >> item) {
        const size_t at = item.find("//");
        c.expect(at != std::string::npos && k < want[f].size(), "a face line", text);
        const size_t vi = std::stoul(item.substr(0, at)), ni = std::stoul(item.substr(at + 2));
        c.expect(vi >= 1 && vi <= vs.size() && ni >= 1 && ni <= ns.size(), "an index out of range", text);
        const Vector3 p = Minus(want[f][k].first, origin), q = vs[vi - 1], d = Minus(p, q), e = Minus(want[f][k].second, ns[ni - 1]);
        c.expect(std::max({std::fabs(d.x()), std::fabs(d.y()), std::fabs(d.z())}) <= eps && std::max({std::fabs(e.x()), std::fabs(e.y()), std::fabs(e.z())}) <= eps, "a vertex as text", text);
        ++k;
      }
      c.expect(k == want[f].size(), "vertices of a face as text", text);
      ++f;
    }
  }
  c.expect(f == want.size() && static_cast<int>(vs.size()) == vo && static_cast<int>(ns.size()) == no, "number of faces as text", text);
  c.nontrivial();
  c.op();
  c.state(desc);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"flat", "all subsets of a 3x2 (thorough: and 2x2) grid of cells, of quads or triangles, heights 0 or 1 (-1, 0, 1) of each vertex, vertical or face normals, first vertex of the faces", Flat},
                               {"tolerance", "all subsets of 2x2, 3x1 and 4x1 grids, vertices off by less or more than the tolerance, up to one face already visited", Tolerance},
                               {"many", "up to 4x2 faces of up to 18 edges, and 3x14 cells; any vertex off its plane or its line, by less or more than the tolerance", Many},
                               {"distances", "distances to planes and lines of small vectors", Distances},
                               {"text", "meshes of up to 2 faces over 5 vertices and 3 normals, alone or after another one", Text}});
}
