// Vectors, matrices, quaternions, roll-pitch-yaw angles and orientations against plain arithmetic written here.
#include <array>
#include <cmath>
#include <limits>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include "maliput/api/lane_data.h"
#include "maliput/common/assertion_error.h"
#include "maliput/common/range_validator.h"
#include "maliput/math/compare.h"
#include "maliput/math/fresnel.h"
#include "maliput/math/matrix.h"
#include "maliput/math/quaternion.h"
#include "maliput/math/roll_pitch_yaw.h"
#include "maliput/math/saturate.h"
#include "maliput/math/vector.h"
#include "mc.h"

using namespace maliput;
using namespace maliput::math;

namespace {

using A3 = std::array<double, 3>;
using M3 = std::array<A3, 3>;

bool Near(double a, double b, double tol = 1e-12) { return std::fabs(a - b) <= tol * std::max({1., std::fabs(a), std::fabs(b)}); }

template <class V>
bool NearV(const V& v, const std::vector<double>& w, double tol = 1e-12) {
  for (size_t i = 0; i < w.size(); ++i) {
    if (!Near(v[i], w[i], tol)) return false;
  }
  return v.size() == w.size();
}

template <size_t N>
bool NearM(const Matrix<N>& m, const std::vector<std::vector<double>>& w, double tol = 1e-12) {
  for (size_t i = 0; i < N; ++i) {
    for (size_t j = 0; j < N; ++j) {
      if (!Near(m[i][j], w[i][j], tol)) return false;
    }
  }
  return true;
}

bool NearM3(const Matrix3& m, const M3& w, double tol = 1e-12) {
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      if (!Near(m[i][j], w[i][j], tol)) return false;
    }
  }
  return true;
}

std::string Text(const std::vector<double>& v) {
  std::string r;
  char b[40];
  for (double x : v) {
    snprintf(b, sizeof b, "%s%.17g", r.empty() ? "" : ",", x);
    r += b;
  }
  return r;
}

// ------------------------------------------------------------------ vectors

template <class V>
V Make(const std::vector<double>& v) {
  V r;
  for (size_t i = 0; i < v.size(); ++i) r[i] = v[i];
  return r;
}

const double kScalars[] = {0., 1., -3., .5};

template <class V, size_t N>
void VectorOf(mc::Ctx& c, const std::vector<double>& a, const std::vector<double>& b, double k) {
  const V u = Make<V>(a), v = Make<V>(b);
  const std::string text = std::to_string(N) + ": " + Text(a) + " ; " + Text(b) + " ; " + Text({k});
  std::vector<double> sum, diff, prod, quot;
  double dot = 0., sq = 0.;
  bool equal = true;
  for (size_t i = 0; i < N; ++i) {
    sum.push_back(a[i] + b[i]);
    diff.push_back(a[i] - b[i]);
    prod.push_back(a[i] * k);
    quot.push_back(k == 0. ? 0. : a[i] / k);
    dot += a[i] * b[i];
    sq += a[i] * a[i];
    equal = equal && a[i] == b[i];
  }
  c.expect(u.size() == N, "size", text);
  c.expect(NearV(u + v, sum), "sum", text);
  c.expect(NearV(u - v, diff), "difference", text);
  c.expect(NearV(u * k, prod) && NearV(k * u, prod), "product by a number", text);
  if (k != 0.) c.expect(NearV(u / k, quot), "quotient", text);
  c.expect(Near(u.dot(v), dot), "dot", text);
  c.expect(Near(u.norm(), std::sqrt(sq)), "norm", text);
  c.expect((u == v) == equal && (u != v) == !equal, "equality", text);
  V w = u;
  w += v;
  c.expect(NearV(w, sum), "+=", text);
  w = u;
  c.expect(w == u, "copy", text);
  if (sq > 0.) {
    w.normalize();
    std::vector<double> unit;
    for (double x : a) unit.push_back(x / std::sqrt(sq));
    c.expect(NearV(w, unit) && NearV(u.normalized(), unit), "normalized", text);
    for (double scale : {1e9, 1e-6}) c.expect(NearV((u * scale).normalized(), unit), "normalized, scaled", text);
  }
  w = u;
  w[N - 1] = 7.;
  c.expect(w[N - 1] == 7. && u[N - 1] == a[N - 1], "element set", text);
  c.expect(mc::Throws([&] { (void)u[N]; }) && mc::Throws([&] { w[N] = 1.; }), "index out of range accepted", text);
  w = v;
  w = u;
  c.expect(w == u && NearV(w, a), "assigned", text);
  for (size_t i = 0; i < N; ++i) {
    w = u;
    w[i] += .25;
    c.expect(w != u && !(w == u), "vectors that differ in an element are equal", text);
  }
  c.expect(NearV(V::Zero(), std::vector<double>(N, 0.)) && NearV(V::Ones(), std::vector<double>(N, 1.)) && NearV(V(), std::vector<double>(N, 0.)),
           "constants", text);
}

template <size_t N>
void Reduce(mc::Ctx& c, const std::vector<double>& a) {
  const Vector<N> u = Make<Vector<N>>(a);
  for (size_t i = 0; i < N; ++i) {
    std::vector<double> w = a;
    w.erase(w.begin() + i);
    c.expect(NearV(u.reduce(i), w), "reduced", Text(a));
  }
  c.expect(mc::Throws([&] { u.reduce(N); }), "reduction out of range accepted", Text(a));
}

void Vectors(mc::Ctx& c) {
  const int n = c.pick<int>({1, 2, 3, 4});
  const int values = n <= 3 ? 4 : (mc::Thorough() ? 4 : 3);
  static const double kValues[] = {0., 1., -2., .5};
  std::vector<double> a, b;
  for (int i = 0; i < n; ++i) a.push_back(kValues[c.choose(values)]);
  for (int i = 0; i < n; ++i) b.push_back(kValues[c.choose(values)]);
  const double k = kScalars[c.choose(4)];
  c.trace([&] { return Text(a) + " ; " + Text(b) + " ; " + Text({k}); });
  c.state(Text(a) + ";" + Text(b) + ";" + Text({k}));
  c.op();
  c.nontrivial(a != b);
  switch (n) {
    case 1:
      VectorOf<Vector<1>, 1>(c, a, b, k);
      break;
    case 2:
      VectorOf<Vector<2>, 2>(c, a, b, k);
      VectorOf<Vector2, 2>(c, a, b, k);
      Reduce<2>(c, a);
      c.expect(Vector2(a[0], a[1]).x() == a[0] && Vector2(a[0], a[1]).y() == a[1], "components", Text(a));
      break;
    case 3: {
      VectorOf<Vector<3>, 3>(c, a, b, k);
      VectorOf<Vector3, 3>(c, a, b, k);
      Reduce<3>(c, a);
      const Vector3 u(a[0], a[1], a[2]), v(b[0], b[1], b[2]);
      c.expect(u.x() == a[0] && u.y() == a[1] && u.z() == a[2], "components", Text(a));
      c.expect(NearV(u.cross(v), {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}), "cross", Text(a) + ";" + Text(b));
      // Points.
      const auto p = api::InertialPosition::FromXyz(u), q = api::InertialPosition(b[0], b[1], b[2]);
      double sq = 0.;
      for (int i = 0; i < 3; ++i) sq += (a[i] - b[i]) * (a[i] - b[i]);
      c.expect(Near(p.Distance(q), std::sqrt(sq)) && Near(p.length(), u.norm()), "distance", Text(a) + ";" + Text(b));
      c.expect((p == q) == (a == b) && (p != q) == (a != b), "points equal", Text(a) + ";" + Text(b));
      c.expect(NearV((p + q).xyz(), {a[0] + b[0], a[1] + b[1], a[2] + b[2]}) && NearV((p - q).xyz(), {a[0] - b[0], a[1] - b[1], a[2] - b[2]}),
               "point sum", Text(a) + ";" + Text(b));
      c.expect(NearV((p * k).xyz(), {a[0] * k, a[1] * k, a[2] * k}) && NearV((k * p).xyz(), {a[0] * k, a[1] * k, a[2] * k}), "point scaled", Text(a));
      break;
    }
    default:
      VectorOf<Vector<4>, 4>(c, a, b, k);
      VectorOf<Vector4, 4>(c, a, b, k);
      Reduce<4>(c, a);
      c.expect(Vector4(a[0], a[1], a[2], a[3]).x() == a[0] && Vector4(a[0], a[1], a[2], a[3]).y() == a[1] && Vector4(a[0], a[1], a[2], a[3]).z() == a[2] &&
                   Vector4(a[0], a[1], a[2], a[3]).w() == a[3],
               "components", Text(a));
  }
  c.expect(NearV(Vector2::UnitX(), {1, 0}) && NearV(Vector2::UnitY(), {0, 1}) && NearV(Vector3::UnitX(), {1, 0, 0}) && NearV(Vector3::UnitY(), {0, 1, 0}) &&
               NearV(Vector3::UnitZ(), {0, 0, 1}) && NearV(Vector4::UnitX(), {1, 0, 0, 0}) && NearV(Vector4::UnitY(), {0, 1, 0, 0}) &&
               NearV(Vector4::UnitZ(), {0, 0, 1, 0}) && NearV(Vector4::UnitW(), {0, 0, 0, 1}),
           "unit vectors", "");
}

template <class V>
void TextOf(mc::Ctx& c, const std::vector<double>& v) {
  const V u = Make<V>(v);
  std::ostringstream os;
  os << u;
  c.expect(os.str() == u.to_str(), "stream", os.str());
  V back;
  const bool threw = mc::Throws([&] { back = V::FromStr(u.to_str()); });
  c.expect(!threw, "written text rejected", u.to_str());
  // to_str() has 15 significant digits.
  c.expect(NearV(back, v, 1e-14) || [&] {
    for (size_t i = 0; i < v.size(); ++i) {
      if (std::fabs(back[i] - v[i]) > 1e-14 * std::fabs(v[i])) return false;
    }
    return true;
  }(), "round trip", u.to_str() + " of " + Text(v));
}

// Text of vectors: what is written is read back, and only the documented format is accepted.
void VectorText(mc::Ctx& c) {
  static const double kValues[] = {0., -1.5, 1. / 3., 1e-7, -123456789.123, 1e300, -2e-300};
  const int n = c.pick<int>({2, 3, 4});
  const int values = n == 4 && !mc::Thorough() ? 5 : 7;
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(kValues[c.choose(values)]);
  c.trace([&] { return Text(v); });
  c.state(Text(v));
  c.op();
  c.nontrivial();
  n == 2 ? TextOf<Vector2>(c, v) : n == 3 ? TextOf<Vector3>(c, v) : TextOf<Vector4>(c, v);
}

// Text of vectors of every dimension: one or two changes to text that is valid.
template <class V>
void Edited(mc::Ctx& c, size_t n) {
  static const std::vector<std::string> kTokens{"{", "}", ",", "1", "-2.5e1", " ", "\t", "\n", "\v", "\f", "\r", "x", "123456789.0625"};
  std::vector<int> t{0};
  for (size_t i = 0; i < n; ++i) {
    if (i) t.push_back(2);
    t.push_back(i % 2 ? 4 : 3);
  }
  t.push_back(1);
  const int edits = c.choose(mc::Thorough() ? 4 : 3);
  for (int e = 0; e < edits; ++e) {
    const int kind = c.choose(3), at = c.choose(t.size() + (kind == 1 ? 1 : 0));  // Erase, insert, replace.
    if (kind == 0) t.erase(t.begin() + at);
    if (kind == 1) t.insert(t.begin() + at, c.choose(kTokens.size()));
    if (kind == 2) t[at] = c.choose(kTokens.size());
    if (t.empty()) c.prune();
  }
  static const double kOf[] = {1., -25.};
  std::string text;
  std::vector<int> s;
  const auto number = [&](int x) { return x == 3 || x == 4 || x == 12; };
  for (size_t i = 0; i < t.size(); ++i) {
    text += kTokens[t[i]];
    if (i > 0 && number(t[i]) && number(t[i - 1])) c.prune();  // Another number.
    if (t[i] < 5 || t[i] > 10) s.push_back(t[i]);
  }
  c.trace([&] { return "\"" + text + "\" of " + std::to_string(n); });
  c.state(text + std::to_string(n));
  c.op();
  bool valid = s.size() == 2 * n + 1 && s.front() == 0 && s.back() == 1;
  for (size_t i = 0; valid && i < n; ++i) valid = number(s[2 * i + 1]) && (i + 1 == n || s[2 * i + 2] == 2);
  c.nontrivial(valid);
  V v;
  bool assertion = false, other = false;
  try {
    v = V::FromStr(text);
  } catch (const maliput::common::assertion_error&) {
    assertion = true;
  } catch (const std::exception& e) {
    other = true;
  }
  c.expect(!other, "malformed text with another exception", text);
  c.expect(assertion == !valid, valid ? "valid text rejected" : "malformed text accepted", text);
  if (!valid) return;
  for (size_t i = 0; i < n; ++i) c.expect(v[i] == (s[2 * i + 1] == 12 ? 123456789.0625 : kOf[s[2 * i + 1] - 3]), "wrong numbers", text);
}

void EditedText(mc::Ctx& c) {
  const int n = c.pick<int>({2, 3, 4});
  n == 2 ? Edited<Vector2>(c, n) : n == 3 ? Edited<Vector3>(c, n) : Edited<Vector4>(c, n);
}

// Matrices from lists of every length.
template <size_t N>
void ListsOf(mc::Ctx& c) {
  using V = Vector<N>;
  const int rows = c.choose(6);
  std::vector<V> r(5);
  for (size_t i = 0; i < 5; ++i) {
    for (size_t j = 0; j < N; ++j) r[i][j] = 10. * (i + 1) + j;
  }
  Matrix<N> m;
  const auto with = [&](auto&& f) {
    switch (rows) {
      case 0: return f(std::initializer_list<V>{});
      case 1: return f(std::initializer_list<V>{r[0]});
      case 2: return f(std::initializer_list<V>{r[0], r[1]});
      case 3: return f(std::initializer_list<V>{r[0], r[1], r[2]});
      case 4: return f(std::initializer_list<V>{r[0], r[1], r[2], r[3]});
      default: return f(std::initializer_list<V>{r[0], r[1], r[2], r[3], r[4]});
    }
  };
  const std::string text = std::to_string(rows) + " rows of " + std::to_string(N);
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.nontrivial();
  const bool threw = mc::Throws([&] { with([&](const std::initializer_list<V>& l) { m = Matrix<N>(l); }); });
  c.expect(threw == (rows != static_cast<int>(N)), "rows of a matrix accepted", text);
  for (size_t i = 0; !threw && i < N; ++i) c.expect(m.row(i) == r[i], "rows of a matrix", text);
}
void Lists(mc::Ctx& c) {
  const int n = c.pick<int>({2, 3, 4});
  n == 2 ? ListsOf<2>(c) : n == 3 ? ListsOf<3>(c) : ListsOf<4>(c);
  const auto bad2 = [&](const std::initializer_list<double>& l) { return mc::Throws([&] { Matrix<2> x(l); (void)x; }); };
  const auto bad3 = [&](const std::initializer_list<double>& l) { return mc::Throws([&] { Matrix<3> x(l); (void)x; }); };
  c.expect(bad2({1., 2., 3.}) && bad2({1., 2., 3., 4., 5.}) && bad2({1., 2.}) && bad2({1., 2., 3., 4., 5., 6.}) && !bad2({1., 2., 3., 4.}), "elements of a 2x2 matrix accepted", "");
  c.expect(bad3({1., 2., 3., 4., 5., 6., 7., 8.}) && bad3({1., 2., 3., 4., 5., 6., 7., 8., 9., 10.}) && bad3({1., 2., 3.}) && !bad3({1., 2., 3., 4., 5., 6., 7., 8., 9.}), "elements of a 3x3 matrix accepted", "");
}

void VectorFormat(mc::Ctx& c) {
  // Every string of up to `length` tokens; the two-dimensional grammar decides which are accepted.
  static const char* kTokens[] = {"{", "}", ",", "1", "-2.5e1", " ", "x"};
  static const double kOf[] = {0, 0, 0, 1., -25.};
  const int length = c.choose(mc::Thorough() ? 9 : 8);
  std::vector<int> t;
  std::string text;
  for (int i = 0; i < length; ++i) {
    t.push_back(c.choose(7));
    text += kTokens[t.back()];
    // Numbers side by side would be another number.
    if (i > 0 && t[i] >= 3 && t[i] <= 4 && t[i - 1] >= 3 && t[i - 1] <= 4) c.prune();
    if (i > 1 && t[i] == 5 && t[i - 1] == 5) c.prune();
  }
  c.trace([&] { return "\"" + text + "\""; });
  c.state(text);
  c.op();
  // Grammar: ws? { ws? number ws? , ws? number ws? } ws?
  std::vector<int> s;
  for (int x : t) {
    if (x != 5) s.push_back(x);
  }
  const auto number = [&](int x) { return x == 3 || x == 4; };
  const bool valid = s.size() == 5 && s[0] == 0 && number(s[1]) && s[2] == 2 && number(s[3]) && s[4] == 1;
  c.nontrivial(valid);
  Vector2 v;
  bool assertion = false, other = false;
  try {
    v = Vector2::FromStr(text);
  } catch (const maliput::common::assertion_error&) {
    assertion = true;
  } catch (const std::exception& e) {
    other = true;
  }
  c.expect(!other, "malformed text with another exception", text);
  c.expect(assertion == !valid, valid ? "valid text rejected" : "malformed text accepted", text);
  if (valid) c.expect(v[0] == kOf[s[1]] && v[1] == kOf[s[3]], "wrong numbers", text);
}

// ----------------------------------------------------------------- matrices

using Mat = std::vector<std::vector<double>>;

double Det(const Mat& m) {  // Leibniz.
  const int n = m.size();
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  double r = 0.;
  do {
    int inversions = 0;
    double x = 1.;
    for (int i = 0; i < n; ++i) {
      x *= m[i][p[i]];
      for (int j = 0; j < i; ++j) inversions += p[j] > p[i];
    }
    r += inversions % 2 ? -x : x;
  } while (std::next_permutation(p.begin(), p.end()));
  return r;
}

Mat Times(const Mat& a, const Mat& b) {
  const size_t n = a.size();
  Mat r(n, std::vector<double>(n, 0.));
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < n; ++j) {
      for (size_t k = 0; k < n; ++k) r[i][j] += a[i][k] * b[k][j];
    }
  }
  return r;
}

std::string TextM(const Mat& m) {
  std::string r;
  for (const auto& x : m) r += "[" + Text(x) + "]";
  return r;
}

template <size_t N>
Matrix<N> MakeM(const Mat& m) {
  Matrix<N> r;
  for (size_t i = 0; i < N; ++i) {
    for (size_t j = 0; j < N; ++j) r[i][j] = m[i][j];
  }
  return r;
}

template <size_t N>
void MatrixOf(mc::Ctx& c, const Mat& a) {
  const Matrix<N> m = MakeM<N>(a);
  const std::string text = TextM(a);
  Mat t(N, std::vector<double>(N)), unit(N, std::vector<double>(N, 0.));
  for (size_t i = 0; i < N; ++i) {
    unit[i][i] = 1.;
    for (size_t j = 0; j < N; ++j) t[i][j] = a[j][i];
  }
  c.expect(NearM(m.transpose(), t), "transpose", text);
  c.expect(NearM(Matrix<N>::Identity(), unit), "identity", text);
  const double det = Det(a);
  c.expect(Near(m.determinant(), det), "determinant", text);
  c.expect(m.is_singular() == (std::fabs(det) < 1e-15), "singular", text);
  for (size_t i = 0; i < N; ++i) {
    std::vector<double> col;
    for (size_t j = 0; j < N; ++j) col.push_back(a[j][i]);
    c.expect(NearV(m.row(i), a[i]) && NearV(m.col(i), col) && NearV(m[i], a[i]), "row or column", text);
  }
  c.expect(mc::Throws([&] { m.row(N); }) && mc::Throws([&] { m.col(N); }) && mc::Throws([&] { (void)m[N]; }), "index out of range accepted", text);
  Mat cofactor(N, std::vector<double>(N)), adjoint = cofactor;
  for (size_t i = 0; i < N; ++i) {
    for (size_t j = 0; j < N; ++j) {
      Mat s;
      for (size_t x = 0; x < N; ++x) {
        if (x == i) continue;
        s.push_back({});
        for (size_t y = 0; y < N; ++y) {
          if (y != j) s.back().push_back(a[x][y]);
        }
      }
      if constexpr (N > 2) {
        const auto reduced = m.reduce(i, j);
        for (size_t x = 0; x + 1 < N; ++x) c.expect(NearV(reduced.row(x), s[x]), "reduced", text);
      }
      cofactor[i][j] = ((i + j) % 2 ? -1. : 1.) * Det(s);
      adjoint[j][i] = cofactor[i][j];
      c.expect(Near(m.cofactor(i, j), cofactor[i][j]), "cofactor", text);
    }
  }
  c.expect(mc::Throws([&] { m.reduce(N, 0); }) && mc::Throws([&] { m.reduce(0, N); }) && mc::Throws([&] { m.cofactor(N, 0); }),
           "reduction out of range accepted", text);
  c.expect(NearM(m.cofactor(), cofactor) && NearM(m.adjoint(), adjoint), "adjoint", text);
  // Assignment and equality, element by element.
  Matrix<N> copy;
  for (size_t i = 0; i < N; ++i) {
    for (size_t j = 0; j < N; ++j) {
      copy = m;
      c.expect(copy == m && NearM(copy, a), "assigned", text);
      copy[i][j] += .25;
      c.expect(copy != m && !(copy == m) && copy[i][j] == a[i][j] + .25 && m[i][j] == a[i][j], "matrices that differ in an element are equal", text);
    }
  }
  copy = m;
  for (size_t i = 0; i < N; ++i) {
    copy[i] = Vector<N>::Ones();
    c.expect(NearV(copy.row(i), std::vector<double>(N, 1.)), "row set", text);
  }
  // Of other magnitudes.
  for (double scale : {1. / 131072., 8192.}) {  // Powers of two.
    Mat b = a;
    std::vector<double> by(N, 1. / scale);
    by[0] = scale * scale;
    double size = 1.;
    for (size_t i = 0; i < N; ++i) {
      double row = 0.;
      for (auto& x : b[i]) x *= by[i], row += std::fabs(x);
      size *= row;
    }
    const Matrix<N> z = MakeM<N>(b);
    double want = det;
    for (double x : by) want *= x;
    c.expect(std::fabs(z.determinant() - want) <= 1e-12 * size, "determinant, scaled", text);
    if (std::fabs(want) <= 1e-13) continue;
    const auto zi = z.inverse();
    bool near = !z.is_singular();
    for (size_t x = 0; x < N; ++x) {
      for (size_t y = 0; y < N; ++y) near = near && Near(zi[x][y] * by[y], adjoint[x][y] / det, 1e-9);
    }
    c.expect(near, "inverse, scaled", text);
  }
  Matrix<N> inverse;
  const bool threw = mc::Throws([&] { inverse = m.inverse(); });
  c.expect(threw == (std::fabs(det) < 1e-15), "inverse of a singular matrix", text);
  if (!threw) {
    Mat i(N, std::vector<double>(N));
    for (size_t x = 0; x < N; ++x) {
      for (size_t y = 0; y < N; ++y) i[x][y] = inverse[x][y];
    }
    c.expect(NearM(MakeM<N>(Times(a, i)), unit, 1e-10) && NearM(MakeM<N>(Times(i, a)), unit, 1e-10), "inverse", text);
  }
}

template <size_t N, class V>
void MatrixAndVector(mc::Ctx& c, const Mat& a, const std::vector<double>& v) {
  const V r = MakeM<N>(a) * Make<V>(v);
  std::vector<double> want(N, 0.);
  for (size_t i = 0; i < N; ++i) {
    for (size_t j = 0; j < N; ++j) want[i] += a[i][j] * v[j];
  }
  c.expect(NearV(r, want), "matrix by vector", TextM(a) + " * " + Text(v));
}

Mat ChooseMat(mc::Ctx& c, int n, const std::vector<double>& values) {
  Mat m(n);
  for (auto& row : m) {
    for (int j = 0; j < n; ++j) row.push_back(values[c.choose(values.size())]);
  }
  return m;
}

void Matrices(mc::Ctx& c) {
  const int n = c.pick<int>({2, 3, 4});
  Mat a = n == 2   ? ChooseMat(c, 2, {0., 1., -2., .5, 3.})
          : n == 3 ? ChooseMat(c, 3, mc::Thorough() ? std::vector<double>{0., 1., -2., .5} : std::vector<double>{0., 1., -2.})
                   : ChooseMat(c, 4, {0., 1.});
  if (n == 4) {  // Not only zeros and ones.
    a[1][2] *= -3.;
    a[3][0] += 2.;
    a[0][3] -= .5;
  }
  c.trace([&] { return TextM(a); });
  c.state(TextM(a));
  c.op();
  c.nontrivial(std::fabs(Det(a)) > 0.);
  const std::vector<double> all{1., -2., 3., .25}, v(all.begin(), all.begin() + n);
  switch (n) {
    case 2:
      MatrixOf<2>(c, a);
      MatrixAndVector<2, Vector2>(c, a, v);
      break;
    case 3:
      MatrixOf<3>(c, a);
      MatrixAndVector<3, Vector3>(c, a, v);
      break;
    default:
      MatrixOf<4>(c, a);
      MatrixAndVector<4, Vector4>(c, a, v);
  }
}

template <size_t N>
void PairOf(mc::Ctx& c, const Mat& a, const Mat& b, double k) {
  const Matrix<N> m = MakeM<N>(a), o = MakeM<N>(b);
  const std::string text = TextM(a) + " ; " + TextM(b) + " ; " + Text({k});
  Mat sum = a, diff = a, scaled = a, quotient = a;
  for (size_t i = 0; i < N; ++i) {
    for (size_t j = 0; j < N; ++j) {
      sum[i][j] += b[i][j];
      diff[i][j] -= b[i][j];
      scaled[i][j] *= k;
      if (k != 0.) quotient[i][j] /= k;
    }
  }
  c.expect(NearM(m + o, sum), "matrix sum", text);
  c.expect(NearM(m - o, diff), "matrix difference", text);
  c.expect(NearM(m * o, Times(a, b)), "matrix product", text);
  c.expect(NearM(m * k, scaled) && NearM(k * m, scaled), "matrix scaled", text);
  if (k != 0.) c.expect(NearM(m / k, quotient), "matrix quotient", text);
  c.expect((m == o) == (a == b) && (m != o) == (a != b), "matrices equal", text);
}

void MatrixPairs(mc::Ctx& c) {
  const int n = c.pick<int>({2, 3, 4});
  const double k = kScalars[c.choose(4)];
  // Dimensions over 2 with one matrix of every 0-1 pattern against a few others.
  static const Mat k3[] = {{{1, 2, 3}, {-4, 5, 6}, {7, 8, -9}}, {{0, 1, 0}, {0, 0, 1}, {1, 0, 0}}, {{2, 0, 0}, {0, -1, 0}, {0, 0, .5}}};
  static const Mat k4[] = {{{1, 2, 3, 4}, {-5, 6, 7, 8}, {9, 10, -11, 12}, {13, 14, 15, 16}}, {{0, 1, 0, 0}, {0, 0, 0, 1}, {1, 0, 0, 0}, {0, 0, 1, 0}}};
  Mat a = n == 2 ? ChooseMat(c, 2, {0., 1., -2., .5}) : ChooseMat(c, n, {0., 1.});
  Mat b = n == 2 ? ChooseMat(c, 2, {0., 1., -2., .5}) : n == 3 ? k3[c.choose(3)] : k4[c.choose(mc::Thorough() ? 2 : 1)];
  const bool swap = n > 2 && c.flip();
  if (swap) std::swap(a, b);
  c.trace([&] { return TextM(a) + TextM(b) + Text({k}); });
  c.state(TextM(a) + TextM(b) + Text({k}));
  c.op();
  c.nontrivial(a != b);
  n == 2 ? PairOf<2>(c, a, b, k) : n == 3 ? PairOf<3>(c, a, b, k) : PairOf<4>(c, a, b, k);
}

// ---------------------------------------------------------------- rotations

M3 MulM(const M3& a, const M3& b) {
  M3 r{};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
    }
  }
  return r;
}

M3 Transposed(const M3& a) {
  M3 r{};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) r[i][j] = a[j][i];
  }
  return r;
}

A3 Apply(const M3& m, const A3& v) {
  A3 r{};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) r[i] += m[i][j] * v[j];
  }
  return r;
}

double Angle(const A3& a, const A3& b) {  // Between two vectors, precise everywhere.
  const A3 x{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
  return std::atan2(std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), a[0] * b[0] + a[1] * b[1] + a[2] * b[2]);
}

// Of a rotation matrix, precise everywhere but next to pi, where it is precise enough.
double AngleOf(const M3& m) {
  const double x = m[2][1] - m[1][2], y = m[0][2] - m[2][0], z = m[1][0] - m[0][1];
  return std::atan2(std::sqrt(x * x + y * y + z * z), m[0][0] + m[1][1] + m[2][2] - 1.);
}

// Rodrigues.
M3 AxisAngle(const A3& axis, double angle) {
  const double l = std::sqrt(axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]);
  const A3 u{axis[0] / l, axis[1] / l, axis[2] / l};
  const double s = std::sin(angle), k = std::cos(angle);
  const M3 cross{{{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}}};
  M3 r{};
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) r[i][j] = (i == j ? k : 0.) + s * cross[i][j] + (1. - k) * u[i] * u[j];
  }
  return r;
}

M3 Rpy(double r, double p, double y) { return MulM(AxisAngle({0, 0, 1}, y), MulM(AxisAngle({0, 1, 0}, p), AxisAngle({1, 0, 0}, r))); }

const A3 kAxes[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, -2}, {1, 1, 0}, {0, -1, 1}, {1, 1, 1}, {-3, 2, .5}, {.01, -.02, 1}, {-1, 1e-4, 0}, {1, 0, -1e-8}, {1e-6, 0, 1}, {1, 1e-6, 0}, {0, 1, 1e-6}, {1e-6, 1, 0}, {2e-4, -1e-4, 3e-4}, {-2e5, 1e5, 3e5}};
const double kAngles[] = {0., M_PI / 2, M_PI, -M_PI / 2, -M_PI, 1., -2., 2 * M_PI / 3, 1e-4, M_PI - 1e-5, 3.5, -4 * M_PI / 3};
const A3 kVectors[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, -2, 3}, {-.5, .25, -4}};

void CheckQuaternion(mc::Ctx& c, const Quaternion& q, const M3& want, const char* key, const std::string& text, double tol = 1e-10) {
  c.expect(Near(q.norm(), 1., 1e-9), "quaternion not of norm one", text);
  c.expect(NearM3(q.ToRotationMatrix(), want, tol), key, text);
  for (const auto& v : kVectors) {
    const Vector3 u(v[0], v[1], v[2]);
    const A3 w = Apply(want, v);
    c.expect(NearV(q.TransformVector(u), {w[0], w[1], w[2]}, tol) && NearV(q * u, {w[0], w[1], w[2]}, tol), key, text);
  }
}

Matrix3 ToMatrix3(const M3& m) {
  Matrix3 r;
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) r[i][j] = m[i][j];
  }
  return r;
}

void CheckRpy(mc::Ctx& c, const RollPitchYaw& rpy, const M3& want, const std::string& text, double tol = 1e-7) {
  const double eps = 1e-12;
  c.expect(std::fabs(rpy.roll_angle()) <= M_PI + eps && std::fabs(rpy.pitch_angle()) <= M_PI / 2 + eps && std::fabs(rpy.yaw_angle()) <= M_PI + eps,
           "angles out of range", text);
  bool near = true;
  const M3 got = Rpy(rpy.roll_angle(), rpy.pitch_angle(), rpy.yaw_angle());
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) near = near && std::fabs(got[i][j] - want[i][j]) <= tol;
  }
  c.expect(near, "roll-pitch-yaw of another rotation", text);
}

// One rotation in every representation.
void Rotations(mc::Ctx& c) {
  const A3 axis = kAxes[c.choose(std::size(kAxes))];
  const double angle = kAngles[c.choose(std::size(kAngles))];
  const double scale = c.pick<double>({1., -1., 3., 1e-3, 1e4});  // Of the quaternion; the same rotation.
  const std::string text = Text({axis[0], axis[1], axis[2]}) + " by " + Text({angle}) + " scaled " + Text({scale});
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.nontrivial(angle != 0.);
  const M3 want = AxisAngle(axis, angle);
  const Quaternion q(angle, Vector3(axis[0], axis[1], axis[2]));
  CheckQuaternion(c, q, want, "axis and angle", text);
  CheckQuaternion(c, Quaternion(ToMatrix3(want)), want, "quaternion of a matrix", text, 1e-7);
  CheckQuaternion(c, q.conjugate(), Transposed(want), "conjugate", text);
  c.expect(NearV(q.coeffs(), {q.w(), q.x(), q.y(), q.z()}) && NearV(q.vec(), {q.x(), q.y(), q.z()}), "coefficients", text);
  c.expect(Quaternion(q.coeffs()) == q && !(Quaternion(q.coeffs()) != q), "of its coefficients", text);
  // Scaled.
  const Quaternion s(q.w() * scale, q.x() * scale, q.y() * scale, q.z() * scale);
  c.expect(Near(s.norm(), std::fabs(scale)) && Near(s.squared_norm(), scale * scale), "norm", text);
  c.expect(NearM3(s.ToRotationMatrix(), want, 1e-10), "matrix of a scaled quaternion", text);
  CheckQuaternion(c, s.normalized(), want, "normalized", text);
  Quaternion n = s;
  n.normalize();
  c.expect(n == s.normalized(), "normalize", text);
  const Quaternion id = s * s.Inverse(), di = s.Inverse() * s;
  c.expect(NearV(id.coeffs(), {1, 0, 0, 0}, 1e-10) && NearV(di.coeffs(), {1, 0, 0, 0}, 1e-10), "inverse", text);
  c.expect((s == q) == (scale == 1.), "quaternions equal", text);
  CheckRpy(c, RollPitchYaw(s), want, text);
  RollPitchYaw set;
  set.SetFromQuaternion(s);
  c.expect(set.vector() == RollPitchYaw(s).vector(), "set from a quaternion", text);
  // An orientation.
  const api::Rotation r = api::Rotation::FromQuat(s);
  CheckQuaternion(c, r.quat(), want, "orientation", text);
  api::Rotation o;
  c.expect(NearM3(o.matrix(), AxisAngle({0, 0, 1}, 0.)), "default orientation", text);
  o.set_quat(s);
  CheckQuaternion(c, o.quat(), want, "orientation set", text);
  c.expect(NearM3(r.matrix(), want, 1e-10), "orientation matrix", text);
  CheckRpy(c, r.rpy(), want, text);
  CheckRpy(c, RollPitchYaw(r.roll(), r.pitch(), r.yaw()), want, text);
  c.expect(NearM3(r.Reverse().matrix(), MulM(want, AxisAngle({0, 0, 1}, M_PI)), 1e-10), "reverse", text);
  for (const auto& v : kVectors) {
    const A3 w = Apply(want, v);
    c.expect(NearV(r.Apply(api::InertialPosition(v[0], v[1], v[2])).xyz(), {w[0], w[1], w[2]}, 1e-10), "applied", text);
  }
}

// Degenerate quaternions.
void Degenerate(mc::Ctx& c) {
  const double angle = kAngles[c.choose(std::size(kAngles))];
  const double tiny = c.pick<double>({0., 1e-20, -1e-17});
  const std::string text = Text({angle, tiny});
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.nontrivial();
  const Quaternion q(angle, Vector3(tiny, 0., 0.));
  c.expect(q == Quaternion::Identity(), "axis of no length", text);
  Quaternion z(tiny, 0., tiny, 0.);
  c.expect(z.normalized() == Quaternion::Identity(), "normalized to identity", text);
  z.normalize();
  c.expect(z == Quaternion::Identity(), "normalize to identity", text);
  z = Quaternion(.1, .2, .3, .4);
  z.set_identity();
  c.expect(z == Quaternion() && z == Quaternion(1, 0, 0, 0), "identity", text);
}

// Pairs of rotations.
void Pairs(mc::Ctx& c) {
  const int axes = mc::Thorough() ? std::size(kAxes) : 8, angles = mc::Thorough() ? std::size(kAngles) : 9;
  const A3 a = kAxes[c.choose(axes)];
  const double x = kAngles[c.choose(angles)];
  const A3 b = kAxes[c.choose(axes)];
  const double y = kAngles[c.choose(angles)];
  const bool negated = c.flip();  // The same rotation with the other quaternion.
  const std::string text = Text({a[0], a[1], a[2]}) + " by " + Text({x}) + " and " + Text({b[0], b[1], b[2]}) + " by " + Text({y}) + (negated ? " negated" : "");
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  const M3 m = AxisAngle(a, x), n = AxisAngle(b, y);
  const Quaternion p(x, Vector3(a[0], a[1], a[2]));
  Quaternion q(y, Vector3(b[0], b[1], b[2]));
  if (negated) q = Quaternion(-q.w(), -q.x(), -q.y(), -q.z());
  CheckQuaternion(c, p * q, MulM(m, n), "product", text);
  Quaternion r = p;
  r *= q;
  c.expect(r == p * q, "*=", text);
  const double d = p.w() * q.w() + p.x() * q.x() + p.y() * q.y() + p.z() * q.z();
  c.expect(Near(p.dot(q), d), "dot", text);
  const double angle = AngleOf(MulM(m, Transposed(n)));
  c.nontrivial(angle > 1e-9);
  c.expect(Near(p.AngularDistance(q), angle, 1e-6), "angular distance", text);
  const double coeffs = std::sqrt(std::max(0., 2. - 2. * d));
  for (double precision : {1e-3, .5, 1.5}) {
    if (std::fabs(coeffs - precision) < 1e-6) continue;
    c.expect(p.IsApprox(q, precision) == (coeffs < precision), "approximately equal", text);
  }
  for (double scale : {2., .5}) {  // Of other norms.
    const Quaternion z(q.w() * scale, q.x() * scale, q.y() * scale, q.z() * scale);
    const double diff = std::sqrt(std::max(0., 1. + scale * scale - 2. * scale * d));
    for (double precision : {.75, 1.5, 3.}) {
      const double bound = precision * std::min(1., scale);
      if (std::fabs(diff - bound) < 1e-6) continue;
      c.expect(p.IsApprox(z, precision) == (diff < bound) && z.IsApprox(p, precision) == (diff < bound), "approximately equal, of other norms", text);
    }
  }
  c.expect(p.IsApprox(q, 1e-3) || !(p == q), "equal but not approximately", text);
  // Along the shortest arc at constant speed.
  for (double t : {0., .25, .5, 1.}) {
    const Quaternion s = p.Slerp(t, q);
    c.expect(Near(s.norm(), 1., 1e-7), "interpolation not of norm one", text);
    c.expect(Near(p.AngularDistance(s), t * angle, 1e-6) && Near(q.AngularDistance(s), (1. - t) * angle, 1e-6), "interpolation", text);
  }
  // Root of the sum of squares of the angles between axes.
  double sq = 0.;
  for (int i = 0; i < 3; ++i) {
    const double e = Angle({m[0][i], m[1][i], m[2][i]}, {n[0][i], n[1][i], n[2][i]});
    sq += e * e;
  }
  const auto u = api::Rotation::FromQuat(p), v = api::Rotation::FromQuat(q);
  c.expect(std::fabs(u.Distance(v) - std::sqrt(sq)) < 1e-6, "orientation distance", text);
  c.expect(Near(u.Distance(v), v.Distance(u)), "orientation distance not symmetric", text);
}

// The rotation of one direction into another.
void FromTwo(mc::Ctx& c) {
  static const double kLengths[] = {1., 5., .1};
  static const double kCoordinates[] = {0., 1., -1., .3};
  A3 a, b;
  for (auto& x : a) x = kCoordinates[c.choose(4)];
  const double k = kLengths[c.choose(3)];
  const int related = c.choose(4);  // Free, parallel, opposite, nearly opposite.
  if (related == 0) {
    for (auto& x : b) x = kCoordinates[c.choose(4)];
  } else {
    b = a;
    for (auto& x : b) x *= related == 1 ? k : -k;
    if (related == 3) b[c.choose(3)] += 1e-5;
  }
  const auto norm = [](const A3& v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); };
  if (norm(a) == 0. || norm(b) == 0.) c.prune();
  for (auto& x : a) x *= k;
  const std::string text = Text({a[0], a[1], a[2]}) + " to " + Text({b[0], b[1], b[2]});
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.nontrivial(related != 1);
  const Vector3 u(a[0], a[1], a[2]), v(b[0], b[1], b[2]);
  const Quaternion q = Quaternion::FromTwoVectors(u, v);
  Quaternion s;
  s.SetFromTwoVectors(u, v);
  c.expect(NearV(s.coeffs(), {q.w(), q.x(), q.y(), q.z()}), "set differs", text);
  c.expect(std::fabs(q.norm() - 1.) < 1e-9, "of two vectors not of norm one", text);
  const Vector3 w = q.TransformVector(u) / norm(a);
  bool near = true;
  for (int i = 0; i < 3; ++i) near = near && std::fabs(w[i] - b[i] / norm(b)) < 1e-7;
  c.expect(near, "of two vectors", text);
  // The shortest way.
  c.expect(std::fabs(q.AngularDistance(Quaternion::Identity()) - Angle(a, b)) < 1e-6, "of two vectors not the shortest", text);
}

// Roll, pitch and yaw.
void Angles(mc::Ctx& c) {
  static const double kTurns[] = {0., M_PI / 2, -M_PI / 2, M_PI, -M_PI, .7, -1.2, 2.5, 1e-6};
  static const double kTilts[] = {0., M_PI / 2, -M_PI / 2, .4, -1.1, M_PI / 2 - 1e-6, -M_PI / 2 + 1e-9, -M_PI / 2 + 1e-5, M_PI / 2 + 1e-5, 1.570796326794896, 2.};
  const double r = kTurns[c.choose(std::size(kTurns))], p = kTilts[c.choose(std::size(kTilts))], y = kTurns[c.choose(std::size(kTurns))];
  const std::string text = Text({r, p, y});
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.nontrivial(r != 0. || p != 0. || y != 0.);
  const M3 want = Rpy(r, p, y);
  RollPitchYaw rpy(r, p, y);
  c.expect(rpy.roll_angle() == r && rpy.pitch_angle() == p && rpy.yaw_angle() == y && rpy.vector() == Vector3(r, p, y), "angles", text);
  c.expect(RollPitchYaw(Vector3(r, p, y)).vector() == rpy.vector() && RollPitchYaw().set(r, p, y).vector() == rpy.vector() &&
               RollPitchYaw().set(Vector3(r, p, y)).vector() == rpy.vector(),
           "angles set", text);
  c.expect(NearM3(rpy.ToMatrix(), want), "matrix of angles", text);
  CheckQuaternion(c, rpy.ToQuaternion(), want, "quaternion of angles", text);
  CheckRpy(c, RollPitchYaw(rpy.ToQuaternion()), want, text);
  CheckRpy(c, RollPitchYaw(Quaternion(rpy.ToMatrix())), want, text);
  if (std::fabs(p) < 1.5 && std::fabs(r) < 3 && std::fabs(y) < 3) {
    c.expect(NearV(RollPitchYaw(rpy.ToQuaternion()).vector(), {r, p, y}, 1e-9), "angles back", text);
  }
  CheckQuaternion(c, api::Rotation::FromRpy(r, p, y).quat(), want, "orientation of angles", text);
  CheckQuaternion(c, api::Rotation::FromRpy(Vector3(r, p, y)).quat(), want, "orientation of angles", text);
  // Derivative against central differences.
  for (const A3& dot : {A3{1, 0, 0}, A3{0, 1, 0}, A3{0, 0, 1}, A3{.5, -2, 3}}) {
    const double h = 1e-5;
    const M3 hi = Rpy(r + h * dot[0], p + h * dot[1], y + h * dot[2]), lo = Rpy(r - h * dot[0], p - h * dot[1], y - h * dot[2]);
    const Matrix3 dt = rpy.CalcRotationMatrixDt(Vector3(dot[0], dot[1], dot[2]));
    bool near = true;
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) near = near && std::fabs(dt[i][j] - (hi[i][j] - lo[i][j]) / (2 * h)) < 1e-7;
    }
    c.expect(near, "derivative", text);
  }
}

// --------------------------------------------------------------- comparison

const double kInf = std::numeric_limits<double>::infinity();
const double kNan = std::numeric_limits<double>::quiet_NaN();

// Whether two numbers match.
bool Match(double a, double b, double tolerance, bool relative) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tolerance * (relative ? std::max({1., std::fabs(a), std::fabs(b)}) : 1.);
}

template <class V>
void CompareV(mc::Ctx& c, double x, double y, size_t at, double tolerance, bool relative, const std::string& text) {
  const auto type = relative ? CompareType::kRelative : CompareType::kAbsolute;
  V u = V::Ones(), v = V::Ones();
  u[at] = x;
  v[at] = y;
  const auto r = CompareVectors(u, v, tolerance, type);
  c.expect(!r.message.has_value() == Match(x, y, tolerance, relative), "vectors compared", text);
}

template <size_t N>
void CompareM(mc::Ctx& c, double x, double y, size_t row, size_t col, double tolerance, bool relative, const std::string& text) {
  const auto type = relative ? CompareType::kRelative : CompareType::kAbsolute;
  Matrix<N> u = Matrix<N>::Identity(), v = u;
  u[row][col] = x;
  v[row][col] = y;
  const auto r = CompareMatrices(u, v, tolerance, type);
  c.expect(!r.message.has_value() == Match(x, y, tolerance, relative), "matrices compared", text);
}

void Compare(mc::Ctx& c) {
  static const double kValues[] = {0., 1., 1.25, -1., 100., 101., -1e9, kInf, -kInf, kNan};
  const double x = kValues[c.choose(10)], y = kValues[c.choose(10)];
  const double tolerance = c.pick<double>({0., .25, .01, 3.});
  const bool relative = c.flip();
  const int n = c.pick<int>({2, 3, 4});
  const int row = c.choose(n), col = c.choose(n);
  const std::string text = Text({x, y, tolerance}) + (relative ? " relative" : "") + " at " + std::to_string(row) + "," + std::to_string(col) + " of " + std::to_string(n);
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  c.nontrivial(Match(x, y, tolerance, relative));
  if (n == 2) CompareV<Vector2>(c, x, y, row, tolerance, relative, text), CompareM<2>(c, x, y, row, col, tolerance, relative, text);
  if (n == 3) CompareV<Vector3>(c, x, y, row, tolerance, relative, text), CompareM<3>(c, x, y, row, col, tolerance, relative, text);
  if (n == 4) CompareV<Vector4>(c, x, y, row, tolerance, relative, text), CompareM<4>(c, x, y, row, col, tolerance, relative, text);
}

void Saturate(mc::Ctx& c) {
  static const double kValues[] = {-kInf, -2., -1., 0., 1., 1.5, kInf};
  const double x = kValues[c.choose(7)], lo = kValues[c.choose(7)], hi = kValues[c.choose(7)];
  const std::string text = Text({x, lo, hi});
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  double got = 0.;
  const bool threw = mc::Throws([&] { got = saturate(x, lo, hi); });
  c.expect(threw == (lo > hi), "interval accepted", text);
  c.nontrivial(!threw);
  if (!threw) c.expect(got == std::min(std::max(x, lo), hi), "saturated", text);
}

// Numbers accepted into a range and clamped inside its open version.
void Range(mc::Ctx& c) {
  const double lo = c.pick<double>({-1., 0., 2.}), hi = c.pick<double>({-1., 0., 2., 42.}), tolerance = c.pick<double>({-1., 0., .125, 1.});
  const double epsilon = c.pick<double>({-.125, 0., .03125, .125, .5});
  const bool relative = c.flip();
  const std::string text = Text({lo, hi, tolerance, epsilon}) + (relative ? " relative" : "");
  c.trace([&] { return text; });
  c.state(text);
  c.op();
  const double e = relative ? (hi - lo) * epsilon : epsilon;
  const bool valid = tolerance > 0. && e >= 0. && e <= tolerance && lo + e <= hi;
  std::optional<maliput::common::RangeValidator> dut;
  const bool threw = mc::Throws([&] {
    dut = relative ? maliput::common::RangeValidator::GetRelativeEpsilonValidator(lo, hi, tolerance, epsilon)
                   : maliput::common::RangeValidator::GetAbsoluteEpsilonValidator(lo, hi, tolerance, epsilon);
  });
  c.expect(threw == !valid, "range accepted", text);
  c.nontrivial(valid);
  if (threw || lo + e > hi - e) return;  // The open range would be empty.
  for (double from : {lo, hi}) {
    for (double d : {0., .03125, -.03125, .0625, -.0625, .125, -.125, .25, -.25, 1., -1., 1.5, -1.5}) {
      const double s = from + d;
      double got = 0.;
      const bool out = mc::Throws([&] { got = (*dut)(s); });
      c.expect(out == (s < lo - tolerance || s > hi + tolerance), "out of range accepted", text + " of " + Text({s}));
      if (!out) c.expect(got == std::min(std::max(s, lo + e), hi - e), "not the closest in the open range", text + " of " + Text({s}));
    }
  }
}

// Fresnel integrals: each step of a grid adds the integral over the step.
void Fresnel(mc::Ctx& c) {
  const double step = .05;
  const int steps = mc::Thorough() ? 400 : 160;
  const int i = c.choose(steps);
  const double t = i * step;
  c.trace([&] { return Text({t}); });
  c.state(Text({t}));
  c.op();
  c.nontrivial(i > 0);
  const Vector2 a = ComputeFresnelCosineAndSine(t), b = ComputeFresnelCosineAndSine(t + step), n = ComputeFresnelCosineAndSine(-t);
  if (i == 0) c.expect(a.x() == 0. && a.y() == 0., "not zero at zero", "");
  c.expect(n.x() == -a.x() && n.y() == -a.y(), "not odd", Text({t}));
  // Composite Simpson.
  const int m = 200;
  const double h = step / m;
  double x = 0., y = 0.;
  for (int k = 0; k <= m; ++k) {
    const double u = t + k * h, w = (k == 0 || k == m) ? 1. : k % 2 ? 4. : 2.;
    x += w * std::cos(M_PI / 2 * u * u) * h / 3.;
    y += w * std::sin(M_PI / 2 * u * u) * h / 3.;
  }
  c.expect(std::fabs(b.x() - a.x() - x) < 1e-10 && std::fabs(b.y() - a.y() - y) < 1e-10, "integral", Text({t}));
  for (double far : {4e4, 1e9, kInf}) {
    const Vector2 f = ComputeFresnelCosineAndSine(far), g = ComputeFresnelCosineAndSine(-far);
    c.expect(std::fabs(f.x() - .5) < 1e-4 && std::fabs(f.y() - .5) < 1e-4 && g.x() == -f.x() && g.y() == -f.y(), "limit", Text({far}));
  }
  for (double k : {0., 1., -.5}) {
    c.expect(Near(FresnelSpiralHeading(t, k), .5 * t * t * k) && Near(FresnelSpiralHeadingDot(t, k), t * k), "heading", Text({t, k}));
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"vectors", "pairs of vectors of 1 to 4 components of a few values x numbers", Vectors},
                   {"vector text", "vectors of 2 to 4 components of a few values", VectorText},
                   {"vector format", "every text of up to 7 tokens", VectorFormat},
                   {"edited text", "up to 2 (thorough: 3) changes to valid text of vectors of 2 to 4 components", EditedText},
                   {"lists", "matrices from lists of up to 5 rows", Lists},
                   {"matrices", "matrices of dimension 2 to 4 of a few values", Matrices},
                   {"matrix pairs", "pairs of matrices of dimension 2 to 4 x numbers", MatrixPairs},
                   {"rotations", "axes x angles x scales", Rotations},
                   {"degenerate", "quaternions of no norm", Degenerate},
                   {"rotation pairs", "pairs of axes and angles", Pairs},
                   {"two vectors", "pairs of directions", FromTwo},
                   {"angles", "roll x pitch x yaw", Angles},
                   {"compare", "pairs of numbers x tolerances x positions", Compare},
                   {"saturate", "numbers x intervals", Saturate},
                   {"range", "ranges x tolerances x epsilons x numbers around the ends", Range},
                   {"fresnel", "a grid of parameters", Fresnel}});
}
