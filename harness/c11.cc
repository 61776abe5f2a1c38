// Spatial index: nearest point and range queries equal the exhaustive search over the indexed points.
#include <cmath>
#include <deque>
#include <limits>
#include <memory>
#include <vector>

#include "maliput/math/axis_aligned_box.h"
#include "maliput/math/kd_tree.h"
#include "maliput/math/vector.h"
#include "mc.h"

using namespace maliput::math;

namespace {

template <std::size_t N>
using Vec = std::conditional_t<N == 3, Vector3, Vector<N>>;

// A coordinate that carries what it was indexed for.
template <std::size_t N>
struct Tagged : public Vec<N> {
  Tagged(const Vec<N>& v, int tag) : Vec<N>(v), tag(tag) {}
  int tag;
};

template <std::size_t N>
double Dist(const Vec<N>& a, const Vec<N>& b) {
  double d = 0.;
  for (std::size_t i = 0; i < N; ++i) d += (a[i] - b[i]) * (a[i] - b[i]);
  return std::sqrt(d);
}

template <std::size_t N>
std::string Show(const std::vector<Vec<N>>& pts) {
  std::ostringstream o;
  for (const auto& p : pts) {
    o << "(";
    for (std::size_t i = 0; i < N; ++i) o << (i ? "," : "") << p[i];
    o << ")";
  }
  return o.str();
}

template <std::size_t N>
void Product(const std::vector<double>& values, std::vector<Vec<N>>* out) {
  std::vector<int> ix(N, 0);
  while (true) {
    Vec<N> v;
    for (std::size_t i = 0; i < N; ++i) v[i] = values[ix[i]];
    out->push_back(v);
    std::size_t k = 0;
    while (k < N && ++ix[k] == static_cast<int>(values.size())) ix[k++] = 0;
    if (k == N) return;
  }
}

template <std::size_t N, typename Tree>
void CheckNearest(mc::Ctx& c, const Tree& tree, const std::vector<Vec<N>>& pts, const std::vector<Vec<N>>& queries) {
  for (const auto& q : queries) {
    double best = std::numeric_limits<double>::infinity();
    for (const auto& p : pts) best = std::min(best, Dist<N>(p, q));
    auto what = [&] { return Show<N>(pts) + " query " + Show<N>({q}); };
    c.op();
    const Tagged<N>& got = tree.nearest_point(Tagged<N>(q, -1));
    c.expect(got.tag >= 0 && got.tag < static_cast<int>(pts.size()) && Dist<N>(pts[got.tag], got) == 0., "not-indexed", what);
    c.expect(Dist<N>(got, q) <= best + 1e-12, "not-nearest", what);
    for (double tol : {1e-9, .25, .75, 1.5, 4.}) {
      c.op();
      const Tagged<N>& g = tree.nearest_point(Tagged<N>(q, -1), tol);
      c.expect(g.tag >= 0 && g.tag < static_cast<int>(pts.size()) && Dist<N>(pts[g.tag], g) == 0., "not-indexed", what);
      c.expect(Dist<N>(g, q) <= std::max(best, tol) + 1e-12, "beyond-tolerance", [&] { return what() + " tolerance " + std::to_string(tol); });
    }
  }
}

template <typename Tree>
void CheckRange(mc::Ctx& c, const Tree& tree, const std::vector<Vector3>& pts, const std::vector<AxisAlignedBox>& boxes) {
  std::vector<int> count(pts.size());
  for (const auto& b : boxes) {
    const Vector3 &lo = b.min_corner(), &hi = b.max_corner();
    auto what = [&] { return Show<3>(pts) + " box " + Show<3>({lo, hi}); };
    c.op();
    const auto found = tree.RangeSearch(b);
    std::fill(count.begin(), count.end(), 0);
    for (const auto* f : found) {
      c.expect(f != nullptr && f->tag >= 0 && f->tag < static_cast<int>(pts.size()), "not-indexed", what);
      ++count[f->tag];
    }
    for (std::size_t i = 0; i < pts.size(); ++i) {
      bool in = true;
      for (int k = 0; k < 3; ++k) in = in && pts[i][k] >= lo[k] && pts[i][k] <= hi[k];
      c.expect(count[i] == (in ? 1 : 0), count[i] > 1 ? "point-twice" : in ? "point-missing" : "point-outside", what);
      c.nontrivial(in);
    }
  }
}

template <std::size_t N>
std::deque<Tagged<N>> Tag(const std::vector<Vec<N>>& pts) {
  std::deque<Tagged<N>> t;
  for (std::size_t i = 0; i < pts.size(); ++i) t.emplace_back(pts[i], static_cast<int>(i));
  return t;
}

const std::vector<AxisAlignedBox>& Boxes() {
  static const auto b = [] {
    std::vector<AxisAlignedBox> r;
    const double inf = std::numeric_limits<double>::infinity();
    const std::vector<std::pair<double, double>> iv{{0, 0}, {0, 1}, {1, 1}, {.5, 2}, {-1, .75}, {-inf, inf}, {3, 4}, {2, 2}, {1, 5}};
    for (const auto& x : iv) for (const auto& y : iv) for (const auto& z : iv) r.emplace_back(Vector3(x.first, y.first, z.first), Vector3(x.second, y.second, z.second));
    return r;
  }();
  return b;
}

template <std::size_t N>
using Points = std::vector<Vec<N>>;

// A sequence of up to `max` points.
template <std::size_t N>
Points<N> Sequence(mc::Ctx& c, const Points<N>& grid, int max) {
  const int n = 1 + c.choose(max);
  Points<N> pts;
  for (int i = 0; i < n; ++i) pts.push_back(c.pick(grid));
  c.trace([&] { return Show<N>(pts); });
  c.state(Show<N>(pts));
  return pts;
}

void Small3(mc::Ctx& c) {
  static const Points<3> grid = [] { Points<3> g; Product<3>({0., 1.}, &g); g.push_back({2., 0., 1.}); g.push_back({2., 2., 2.}); return g; }();
  static const Points<3> queries = [] { Points<3> g; Product<3>({-.5, .25, .5, 1., 2.25}, &g); return g; }();
  const auto pts = Sequence<3>(c, grid, mc::Thorough() ? 5 : 4);
  const auto tags = Tag<3>(pts);
  if (pts.size() % 2) {
    const KDTree3D<Tagged<3>> tree(tags.begin(), tags.end());
    CheckNearest<3>(c, tree, pts, queries);
    CheckRange(c, tree, pts, Boxes());
  } else {
    const KDTree3D<Tagged<3>> tree(std::deque<Tagged<3>>{tags});
    CheckNearest<3>(c, tree, pts, queries);
    CheckRange(c, tree, pts, Boxes());
  }
}

void Small2(mc::Ctx& c) {
  static const Points<2> grid = [] { Points<2> g; Product<2>({0., 1., 2.5}, &g); return g; }();
  static const Points<2> queries = [] { Points<2> g; Product<2>({-1., 0., .5, .75, 1., 1.5, 1.75, 2.5, 3.}, &g); return g; }();
  const auto pts = Sequence<2>(c, grid, mc::Thorough() ? 6 : 5);
  const auto tags = Tag<2>(pts);
  const KDTree<Tagged<2>, 2> tree(tags.begin(), tags.end());
  CheckNearest<2>(c, tree, pts, queries);
}

void Small1(mc::Ctx& c) {
  static const Points<1> grid = [] { Points<1> g; Product<1>({0., 1., 3., 4.}, &g); return g; }();
  static const Points<1> queries = [] { Points<1> g; Product<1>({-1., .25, .5, .75, 1., 2., 2.25, 3.5, 3.75, 9.}, &g); return g; }();
  const auto pts = Sequence<1>(c, grid, mc::Thorough() ? 8 : 7);
  const auto tags = Tag<1>(pts);
  const KDTree<Tagged<1>, 1> tree(tags.begin(), tags.end());
  CheckNearest<1>(c, tree, pts, queries);
}

// Deeper trees: every permutation of fixed sets of points.
template <int kSize>
void Permutations(mc::Ctx& c) {
  static const std::vector<Points<3>> sets{
      {{0, 0, 0}, {1, 4, 2}, {2, 1, 4}, {3, 3, 1}, {4, 2, 3}, {2, 0, 2}, {0, 4, 4}, {4, 0, 0}},   // Spread.
      {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {4, 0, 0}, {1, 0, 0}, {3, 0, 0}, {2, 0, 1}},   // Nearly collinear, repeated.
      {{2, 2, 2}, {2, 2, 0}, {2, 0, 2}, {0, 2, 2}, {2, 2, 4}, {2, 4, 2}, {4, 2, 2}, {2, 2, 2}},   // Many equal coordinates.
  };
  static const Points<3> queries = [] { Points<3> g; Product<3>({-1., .5, 1.75, 2., 3.25, 5.}, &g); return g; }();
  static const auto boxes = [] {
    std::vector<AxisAlignedBox> r;
    const std::vector<std::pair<double, double>> iv{{0, 2}, {2, 2}, {1, 3.5}, {2, 9}, {-9, 9}};
    for (const auto& x : iv) for (const auto& y : iv) for (const auto& z : iv) r.emplace_back(Vector3(x.first, y.first, z.first), Vector3(x.second, y.second, z.second));
    return r;
  }();
  const auto& set = c.pick(sets);
  std::vector<int> left;
  for (int i = 0; i < kSize; ++i) left.push_back(i);
  Points<3> pts;
  while (!left.empty()) {
    const int k = c.choose(static_cast<int>(left.size()));
    pts.push_back(set[left[k]]);
    left.erase(left.begin() + k);
  }
  c.trace([&] { return Show<3>(pts); });
  c.state(Show<3>(pts));
  const auto tags = Tag<3>(pts);
  const KDTree3D<Tagged<3>> tree(tags.begin(), tags.end());
  CheckNearest<3>(c, tree, pts, queries);
  CheckRange(c, tree, pts, boxes);
}

// Large sets: lattices in several insertion orders.
void Large(mc::Ctx& c) {
  const int side = 2 + c.choose(mc::Thorough() ? 5 : 4);
  const int stride = c.pick(std::vector<int>{1, 5, 7, 11, 13});  // Order of insertion.
  const int shape = c.choose(3);
  const double scale = c.pick(std::vector<double>{.25, 1., 4096.});
  const bool whole = c.flip();  // Built of a container, not of iterators.
  Points<3> lattice;
  for (int x = 0; x < side; ++x) for (int y = 0; y < side; ++y) for (int z = 0; z < side; ++z) {
    const double u = shape == 1 ? x * x : x;
    lattice.push_back(scale * Vector3(u, shape == 2 ? (y * 3 + x) % side : y, shape == 2 ? (z * 2 + y) % side : z));
  }
  const int n = static_cast<int>(lattice.size());
  c.assume(n % stride != 0 || stride == 1);
  Points<3> pts;
  for (int i = 0; i < n; ++i) pts.push_back(lattice[static_cast<long>(i) * stride % n]);
  c.state(mc::H() << side << stride << shape << scale << whole);
  const auto tags = Tag<3>(pts);
  const auto made = whole ? std::make_unique<KDTree3D<Tagged<3>>>(std::deque<Tagged<3>>{tags}) : std::make_unique<KDTree3D<Tagged<3>>>(tags.begin(), tags.end());
  const KDTree3D<Tagged<3>>& tree = *made;
  Points<3> queries;
  Product<3>({-1., 0.5, 1., 1.75, 2.25, 3.5, 6.}, &queries);
  for (const auto& q : Points<3>(queries)) queries.push_back(scale * q);
  CheckNearest<3>(c, tree, pts, queries);
  CheckRange(c, tree, pts, Boxes());
}

// More dimensions than those of space.
void Small4(mc::Ctx& c) {
  static const Points<4> grid = [] {
    Points<4> g{{{0., 0., 0., 0.}}, {{0., 0., 0., 3.}}, {{0., 0., 1., 1.}}, {{0., 2., 0., 2.}}, {{1., 0., 0., 5.}}, {{2., 2., 2., 2.}}, {{0., 0., 0., -4.}}, {{-1., 1., 3., 0.}}};
    return g;
  }();
  static const Points<4> queries = [] { Points<4> g; Product<4>({-1.5, .25, 1.75, 3.5}, &g); return g; }();
  const auto pts = Sequence<4>(c, grid, mc::Thorough() ? 6 : 5);
  const auto tags = Tag<4>(pts);
  const KDTree<Tagged<4>, 4> tree(tags.begin(), tags.end());
  CheckNearest<4>(c, tree, pts, queries);
}

// Large sets in four dimensions.
void Large4(mc::Ctx& c) {
  const int stride = c.pick(std::vector<int>{1, 5, 7, 11, 13});
  const int shape = c.choose(2);
  const int most = c.pick(std::vector<int>{9, 17, 40, 81});
  Points<4> lattice;
  Product<4>({0., 1., 2.5}, &lattice);
  Points<4> pts;
  for (int i = 0; i < most; ++i) {
    Vec<4> p = lattice[i * stride % 81];
    if (shape) p[3] = p[3] * 4. + p[0];
    pts.push_back(p);
  }
  c.state(mc::H() << stride << shape << most);
  const auto tags = Tag<4>(pts);
  const KDTree<Tagged<4>, 4> tree(tags.begin(), tags.end());
  Points<4> queries;
  Product<4>({-1.5, .25, 1.75, 3.5, 6.}, &queries);
  CheckNearest<4>(c, tree, pts, queries);
}

// Points almost equally far.
void Ties(mc::Ctx& c) {
  const double eps = c.pick(std::vector<double>{1e-3, 1e-6, 1e-9});
  Points<3> grid;
  for (double x : {-1. - eps, -1., 1., 1. + eps}) {
    grid.push_back(Vector3(x, 0., 0.));
    grid.push_back(Vector3(0., x, 0.));
    grid.push_back(Vector3(0., 0., x));
  }
  // Far themselves; what they split is not.
  grid.push_back(Vector3(1., 2., 0.));
  grid.push_back(Vector3(-1., 0., 2.));
  grid.push_back(Vector3(0., 1., -2.));
  const auto pts = Sequence<3>(c, grid, mc::Thorough() ? 5 : 4);
  const auto tags = Tag<3>(pts);
  const KDTree3D<Tagged<3>> tree(tags.begin(), tags.end());
  Points<3> queries;
  Product<3>({-eps / 4., 0., eps / 4., .5}, &queries);
  CheckNearest<3>(c, tree, pts, queries);
}

void Rejected(mc::Ctx& c) {
  const int k = c.choose(6);
  c.op();
  c.state(k);
  std::vector<Tagged<3>> none;
  std::vector<Tagged<2>> none2;
  const std::vector<Tagged<3>> one{Tagged<3>({1., 2., 3.}, 0)};
  const KDTree3D<Tagged<3>> tree(one.begin(), one.end());
  bool t = false;
  if (k == 0) t = mc::Throws([&] { KDTree3D<Tagged<3>> x(none.begin(), none.end()); });
  if (k == 1) t = mc::Throws([&] { KDTree3D<Tagged<3>> x(none); });
  if (k == 2) t = mc::Throws([&] { KDTree<Tagged<2>, 2> x(none2.begin(), none2.end()); });
  if (k == 3) t = mc::Throws([&] { tree.nearest_point(one[0], 0.); });
  if (k == 4) t = mc::Throws([&] { tree.nearest_point(one[0], -1.); });
  if (k == 5) t = tree.nearest_point(Tagged<3>({9., 9., 9.}, -1)).tag == 0;
  c.expect(t, "rejected", [&] { return std::to_string(k); });
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"small-3d", "all sequences of up to 4 (thorough: 5) points out of 10 (with repetitions) x 125 queries x 6 tolerances x 729 boxes", Small3},
                               {"small-2d", "all sequences of up to 5 (thorough: 6) points out of 9 x 81 queries x 6 tolerances", Small2},
                               {"small-1d", "all sequences of up to 7 (thorough: 8) points out of 4 x 10 queries x 6 tolerances", Small1},
                               {"permutations-7", "all permutations of 3 sets of 7 points x 216 queries x 6 tolerances x 125 boxes", Permutations<7>},
                               {"large", "lattices of up to 125 (thorough: 216) points in several orders, at 3 scales", Large},
                               {"small-4d", "all sequences of up to 5 (thorough: 6) points out of 8 in four dimensions x 256 queries x 6 tolerances", Small4},
                               {"large-4d", "9 to 81 points of a lattice in four dimensions, in several orders, x 625 queries x 6 tolerances", Large4},
                               {"ties", "all sequences of up to 4 (thorough: 5) points out of 15, most of them almost equally far x 64 queries x 6 tolerances", Ties},
                               {"rejected", "empty sets and non-positive tolerances", Rejected}});
}
