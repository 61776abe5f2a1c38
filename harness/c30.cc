// Polynomials, trajectories made of pieces of them, and the dense outputs of integrations, against plain arithmetic.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <Eigen/Core>

#include "maliput/drake/common/polynomial.h"
#include "maliput/drake/common/trajectories/piecewise_polynomial.h"
#include "maliput/drake/systems/analysis/hermitian_dense_output.h"
#include "mc.h"

using maliput::drake::Polynomial;
using Poly = Polynomial<double>;
using PP = maliput::drake::trajectories::PiecewisePolynomial<double>;
using Matrix = Eigen::MatrixXd;
using Dense = maliput::drake::systems::HermitianDenseOutput<double>;
using maliput::drake::ToleranceType;

namespace {

std::string Say(double x) {
  std::ostringstream os;
  os.precision(12);
  os << x;
  return os.str();
}

// ---- Coefficients: the model of a polynomial in one variable.
using Coefs = std::vector<double>;

std::string Say(const Coefs& a) {
  std::string s = "[";
  for (double x : a) s += Say(x) + " ";
  return s + "]";
}
Coefs Trim(Coefs a) {
  while (!a.empty() && a.back() == 0.) a.pop_back();
  return a;
}
Coefs Add(const Coefs& a, const Coefs& b, double k = 1.) {
  Coefs r(std::max(a.size(), b.size()), 0.);
  for (size_t i = 0; i < a.size(); ++i) r[i] += a[i];
  for (size_t i = 0; i < b.size(); ++i) r[i] += k * b[i];
  return r;
}
Coefs Mul(const Coefs& a, const Coefs& b) {
  if (a.empty() || b.empty()) return {};
  Coefs r(a.size() + b.size() - 1, 0.);
  for (size_t i = 0; i < a.size(); ++i) {
    for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
  }
  return r;
}
Coefs Scale(Coefs a, double k) {
  for (double& x : a) x *= k;
  return a;
}
Coefs Der(Coefs a, int n = 1) {
  for (; n > 0; --n) {
    Coefs r;
    for (size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * i);
    a = r;
  }
  return a;
}
Coefs Int(const Coefs& a, double k) {
  Coefs r{k};
  for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i] / (i + 1));
  return r;
}
Coefs Compose(const Coefs& a, const Coefs& b) {
  Coefs r;
  for (size_t i = a.size(); i-- > 0;) r = Add(Mul(r, b), {a[i]});
  return r;
}
double At(const Coefs& a, double x, double* size = nullptr) {
  double v = 0, m = 0, p = 1;
  for (double k : a) {
    v += k * p;
    m += std::abs(k * p);
    p *= x;
  }
  if (size) *size = m;
  return v;
}

// p has the values of a, and of its derivatives.
void Same(mc::Ctx& c, const Poly& p, const Coefs& a, const std::string& text) {
  for (int order = 0; order < 4; ++order) {
    const Coefs d = Der(a, order);
    for (double x : {-2., -1., -.5, 0., 1., 1.5, 3., 4.}) {
      double size;
      const double want = At(d, x, &size), got = p.EvaluateUnivariate(x, order);
      c.op();
      c.expect(std::abs(got - want) <= 1e-11 * (1. + size), "value", [&] { return text + ": derivative " + std::to_string(order) + " at " + Say(x) + " is " + Say(got) + " instead of " + Say(want); });
    }
  }
  const Eigen::VectorXd k = p.GetCoefficients();
  const Coefs t = Trim(a);
  c.expect(k.size() >= static_cast<int>(t.size()), "number of coefficients", text);
  for (int i = 0; i < k.size(); ++i) {
    const double want = i < static_cast<int>(t.size()) ? t[i] : 0.;
    c.expect(std::abs(k[i] - want) <= 1e-11 * (1. + std::abs(want)), "coefficient", [&] { return text + ": " + Say(k[i]) + " of power " + std::to_string(i) + " instead of " + Say(want); });
  }
}

Poly Variable() { return Poly("t"); }
Poly::VarType Id() { return Variable().GetSimpleVariable(); }

// The polynomial, built in several ways. All but the first have no coefficients that are 0.
Poly Build(const Coefs& a, int form) {
  const Poly t = Variable();
  if (form == 0) {
    if (a.empty()) return Poly();
    Eigen::VectorXd v(a.size());
    for (size_t i = 0; i < a.size(); ++i) v[i] = a[i];
    return Poly(v);
  }
  Poly r;
  if (form == 1) {
    Poly power(1.);
    for (size_t i = 0; i < a.size(); ++i) {
      if (a[i] != 0.) r += power * a[i];
      power *= t;
    }
  } else if (form == 2) {
    for (size_t i = a.size(); i-- > 0;) {
      r = r * t;
      if (a[i] != 0.) r += Poly(a[i]);
    }
  } else {
    for (size_t i = a.size(); i-- > 0;) {
      if (a[i] == 0.) continue;
      r = r + (i == 0 ? Poly(a[i]) : Poly(a[i], std::vector<Poly::Term>{{Id(), static_cast<int>(i)}}));
    }
  }
  return r;
}

Coefs ChooseCoefs(mc::Ctx& c, int most) {
  static const double kValues[] = {0., -1., 2., .5};
  Coefs a;
  const int n = c.choose(most + 1);
  for (int i = 0; i < n; ++i) a.push_back(kValues[c.choose(mc::Thorough() ? 4 : 3)]);
  return a;
}

void Polynomials(mc::Ctx& c) {
  const Coefs a = ChooseCoefs(c, 4), b = ChooseCoefs(c, 3);
  const int fa = c.choose(4), fb = c.choose(2);
  const std::string text = Say(a) + " in form " + std::to_string(fa) + " and " + Say(b) + " in form " + std::to_string(fb);
  c.trace([&] { return text; });
  c.state(text);
  const Poly p = Build(a, fa), q = Build(b, fb);
  const auto vars = [](const Poly& x) { return x.GetVariables(); };
  Same(c, p, a, text + ": first");
  Same(c, q, b, text + ": second");
  Same(c, p + q, Add(a, b), text + ": sum");
  Same(c, p - q, Add(a, b, -1.), text + ": difference");
  Same(c, p * q, Mul(a, b), text + ": product");
  Same(c, -p, Scale(a, -1.), text + ": negation");
  Poly r = p;
  r += q;
  r *= q;
  r -= p;
  Same(c, r, Add(Mul(Add(a, b), b), a, -1.), text + ": in place");
  r = p;
  r += p;
  Same(c, r, Scale(a, 2.), text + ": doubled in place");
  for (double k : {-1., 0., 2.}) {
    Same(c, p + k, Add(a, {k}), text + ": plus a number");
    Same(c, k + p, Add(a, {k}), text + ": number plus");
    Same(c, p - k, Add(a, {-k}), text + ": minus a number");
    Same(c, k - p, Add({k}, a, -1.), text + ": number minus");
    Same(c, p * k, Scale(a, k), text + ": times a number");
    Same(c, k * p, Scale(a, k), text + ": number times");
    if (k != 0.) Same(c, p / k, Scale(a, 1. / k), text + ": divided by a number");
  }
  for (int order = 0; order <= 4; ++order) Same(c, p.Derivative(order), Der(a, order), text + ": derivative");
  const Coefs t = Trim(a);
  if (t.size() > 1) {
    Same(c, p.Integral(), Int(a, 0.), text + ": integral");
    Same(c, p.Integral(-3.), Int(a, -3.), text + ": integral with a constant");
    c.expect(vars(p) == std::set<Poly::VarType>{Id()}, "variables", text);
    c.nontrivial();
  } else if (t.size() == 1 && fa != 0) {
    c.expect(mc::Throws([&] { p.Integral(); }), "integral of a constant", text);
    c.expect(vars(p).empty(), "variables of a constant", text);
  }
  if (fa != 0) c.expect(p.GetDegree() == std::max<int>(0, static_cast<int>(t.size()) - 1), "degree", text);
  if (fa != 0) c.expect(p.GetNumberOfCoefficients() == static_cast<int>(std::count_if(a.begin(), a.end(), [](double x) { return x != 0.; })), "number of monomials", text);
  c.expect(p.IsAffine() || t.size() > 2 || fa == 0, "affine", text);
  if (t.size() > 2) c.expect(!p.IsAffine(), "affine", text);
  c.expect((fa != 0 && t == Coefs{0., 1.} ? Id() : Poly::VarType{0}) == p.GetSimpleVariable() || fa == 0, "simple variable", text);
  Same(c, p.Substitute(Id(), q), Compose(a, b), text + ": substituted");
  for (double x : {-1., 2.}) {
    const Poly partial = p.EvaluatePartial({{Id(), x}});
    c.expect(partial.GetVariables().empty(), "variables after partial evaluation", text);
    Same(c, partial, {At(a, x)}, text + ": partial evaluation");
    Same(c, p.EvaluatePartial({{Id() + 2, x}}), a, text + ": partial evaluation of another variable");
    std::map<Poly::VarType, double> at{{Id(), x}};
    c.expect(p.EvaluateMultivariate(at) == At(a, x), "value as of several variables", text);
  }
  Poly renamed = p;
  renamed.Subs(Id(), Id() + 2);
  Same(c, renamed, a, text + ": renamed");
  if (t.size() > 1) {
    c.expect(vars(renamed) == std::set<Poly::VarType>{Id() + 2}, "variables after renaming", text);
    if (t.size() > 1 && Trim(b).size() > 1 && fb != 0) {
      const Poly both = renamed + q;
      c.expect(mc::Throws([&] { both.EvaluateUnivariate(1.); }) && mc::Throws([&] { both.Derivative(); }) && mc::Throws([&] { both.Integral(); }) && mc::Throws([&] { both.GetCoefficients(); }), "univariate function of two variables", text);
    }
  }
  // Comparisons.
  if (fa != 0) {
    const Poly other = Build(b, 3);
    c.expect((p == other) == (t == Trim(b)), "equality", text);
  }
  double far = 0;
  const Coefs d = Add(a, b, -1.);
  for (double x : d) far = std::max(far, std::abs(x));
  for (double tolerance : {0., .5, 1., 2., 2.5}) c.expect(p.CoefficientsAlmostEqual(q, tolerance) == (far <= tolerance), "almost equal", [&] { return text + " within " + Say(tolerance); });
  if (fa != 0 && fb != 0) {
    const Coefs s = Trim(b);
    for (double tolerance : {0., .6, 1.6, 3., 4.}) {
      bool want = true;
      for (size_t i = 0; i < std::max(t.size(), s.size()); ++i) {
        const double x = i < t.size() ? t[i] : 0., y = i < s.size() ? s[i] : 0.;
        if (x == 0. && y == 0.) continue;
        if (x == 0. || y == 0. || std::abs(x - y) > tolerance * std::min(std::abs(x), std::abs(y))) want = false;
      }
      c.expect(p.CoefficientsAlmostEqual(q, tolerance, ToleranceType::kRelative) == want, "relatively almost equal", [&] { return text + " within " + Say(tolerance); });
    }
  }
  if (fa != 0 && t.size() == 2) {
    const auto roots = p.Roots();
    c.expect(roots.size() == 1 && std::abs(roots[0].real() + t[0] / t[1]) < 1e-12 && roots[0].imag() == 0., "root", text);
  }
}

// ---- Several variables: powers of each -> coefficient.
using Many = std::map<std::vector<int>, double>;
const std::vector<std::string> kNames{"x", "y", "z"};
Poly::VarType IdOf(int v) { return Poly(kNames[v]).GetSimpleVariable(); }

double At(const Many& a, const std::vector<double>& x) {
  double v = 0;
  for (const auto& m : a) {
    double p = m.second;
    for (size_t i = 0; i < x.size(); ++i) {
      for (int j = 0; j < m.first[i]; ++j) p *= x[i];
    }
    v += p;
  }
  return v;
}

void SeveralVariables(mc::Ctx& c) {
  static const double kValues[] = {1., -3.};
  std::string text;
  const auto choose = [&](Many* model) {
    Poly p;
    const int n = 1 + c.choose(2);
    for (int i = 0; i < n; ++i) {
      const double k = kValues[i ? 1 : c.choose(2)];
      std::vector<int> powers;
      for (int v = 0; v < 3; ++v) powers.push_back(v < 2 ? c.choose(3) : (i == 0 ? c.choose(2) : 0));
      const int form = i == 0 ? c.choose(3) : 0;
      std::vector<Poly::Term> terms;
      for (int v = 0; v < 3; ++v) {
        const int at = form == 1 ? 2 - v : v;
        if (powers[at] == 0) continue;
        if (form == 2 && powers[at] == 2) {  // A variable twice.
          terms.push_back({IdOf(at), 1});
          terms.push_back({IdOf(at), 1});
        } else {
          terms.push_back({IdOf(at), powers[at]});
        }
      }
      text += Say(k) + " x" + std::to_string(powers[0]) + " y" + std::to_string(powers[1]) + " z" + std::to_string(powers[2]) + " form " + std::to_string(form) + " + ";
      (*model)[powers] += k;
      if (i == 0) {
        p = terms.empty() ? Poly(k) : Poly(k, terms);
      } else {
        p += terms.empty() ? Poly(k) : Poly(k, terms);
      }
    }
    return p;
  };
  Many a, b;
  const Poly p = choose(&a);
  text += " and ";
  static const std::vector<std::pair<Poly, Many>> others = [] {
    const Poly x("x"), y("y"), z("z");
    return std::vector<std::pair<Poly, Many>>{{y + 2., {{{0, 1, 0}, 1.}, {{0, 0, 0}, 2.}}},
                                              {x * y - z, {{{1, 1, 0}, 1.}, {{0, 0, 1}, -1.}}},
                                              {x * x * 3., {{{2, 0, 0}, 3.}}},
                                              {y * x * x + x * y * x, {{{2, 1, 0}, 2.}}},
                                              {Poly(4.), {{{0, 0, 0}, 4.}}}};
  }();
  const int other = c.choose(5);
  const Poly& q = others[other].first;
  b = others[other].second;
  text += std::to_string(other);
  c.trace([&] { return text; });
  c.state(text);
  std::set<Poly::VarType> vars;
  int distinct = 0;
  for (int v = 0; v < 3; ++v) {
    bool used = false;
    for (const auto& m : a) used = used || (m.second != 0. && m.first[v] > 0);
    if (used) {
      vars.insert(IdOf(v));
      ++distinct;
    }
  }
  c.expect(p.GetVariables() == vars, "variables", text);
  // Its monomials, and their quotients.
  {
    Many left;
    for (const auto& m : a) {
      if (m.second != 0.) left.insert(m);
    }
    int degree = 0;
    bool affine = true;
    for (const auto& m : left) {
      int d = 0, total = 0;
      for (int power : m.first) {
        total += power;
        if (power > 0) d = d == 0 ? power : d * power;
      }
      degree = std::max(degree, d);
      affine = affine && total <= 1;
    }
    c.expect(p.GetDegree() == degree, "degree", [&] { return text + ": " + std::to_string(p.GetDegree()); });
    c.expect(p.IsAffine() == affine, "affine", text);
    const bool simple = left.size() == 1 && left.begin()->second == 1. && affine && degree == 1;
    c.expect(p.GetSimpleVariable() == (simple ? *vars.begin() : Poly::VarType{0}), "simple variable", text);
    c.expect(p.GetNumberOfCoefficients() == static_cast<int>(left.size()), "number of monomials", text);
    const auto powers = [&](const Poly::Monomial& m) {
      std::vector<int> r{0, 0, 0};
      for (int v = 0; v < 3; ++v) {
        r[v] = m.GetDegreeOf(IdOf(v));
        c.expect(m.HasVariable(IdOf(v)) == (r[v] > 0), "variable of a monomial", text);
      }
      return r;
    };
    for (const auto& m : p.GetMonomials()) {
      const std::vector<int> pm = powers(m);
      c.op();
      c.expect(left.count(pm) == 1 && left.at(pm) == m.coefficient, "monomial", text);
      for (const auto& n : {q.GetMonomials(), p.GetMonomials()}) {
        for (const auto& divisor : n) {
          const std::vector<int> pd = powers(divisor);
          bool divides = true;
          std::vector<int> want;
          for (int v = 0; v < 3; ++v) {
            divides = divides && pd[v] <= pm[v];
            want.push_back(pm[v] - pd[v]);
          }
          const auto quotient = m.Factor(divisor);
          c.op();
          c.expect(m.HasSameExponents(divisor) == (pm == pd), "same exponents", text);
          c.expect((quotient.coefficient != 0.) == divides, "divisible", text);
          if (!divides) continue;
          c.expect(powers(quotient) == want && std::abs(quotient.coefficient * divisor.coefficient - m.coefficient) < 1e-12, "quotient of monomials", text);
          c.expect(quotient.terms.size() == static_cast<size_t>(std::count_if(want.begin(), want.end(), [](int x) { return x > 0; })), "terms of a quotient", text);
        }
      }
    }
  }
  // Comparisons, whatever the order of the variables of each monomial.
  {
    Poly twin, near;
    for (const auto& m : p.GetMonomials()) {
      const std::vector<Poly::Term> reversed(m.terms.rbegin(), m.terms.rend());
      twin += m.terms.empty() ? Poly(m.coefficient) : Poly(m.coefficient, reversed);
      near += m.terms.empty() ? Poly(m.coefficient + .25) : Poly(m.coefficient + .25, reversed);
    }
    const bool any = !p.GetMonomials().empty();
    for (const auto type : {ToleranceType::kAbsolute, ToleranceType::kRelative}) {
      c.op();
      c.expect(p.CoefficientsAlmostEqual(twin, 0., type) && twin.CoefficientsAlmostEqual(p, 0., type), "almost equal, with variables in another order", text);
      c.expect(p.CoefficientsAlmostEqual(near, .25, type) && (!any || !p.CoefficientsAlmostEqual(near, .01, type)), "near, with variables in another order", text);
    }
    double far = 0;
    Many gap = a;
    for (const auto& m : b) gap[m.first] -= m.second;
    for (const auto& m : gap) far = std::max(far, std::abs(m.second));
    for (double tolerance : {0., 1., 3., 4., 5., 7.}) c.expect(p.CoefficientsAlmostEqual(q, tolerance) == (far <= tolerance) && q.CoefficientsAlmostEqual(p, tolerance) == (far <= tolerance), "almost equal", [&] { return text + " within " + Say(tolerance); });
  }
  if (distinct > 1) {
    c.expect(mc::Throws([&] { p.EvaluateUnivariate(2.); }), "value as of one variable", text);
    c.expect(mc::Throws([&] { p.GetCoefficients(); }), "coefficients as of one variable", text);
    c.nontrivial();
  } else {
    for (double x : {-2., 3.}) c.expect(p.EvaluateUnivariate(x) == At(a, {x, x, x}), "value as of one variable", text);
  }
  const Poly sum = p + q, difference = p - q, product = p * q, swapped = q * p;
  Poly renamed = p;
  renamed.Subs(IdOf(0), IdOf(1));
  const Poly substituted[] = {p.Substitute(IdOf(0), q), p.Substitute(IdOf(1), q), p.Substitute(IdOf(2), q)};
  for (const auto& x : std::vector<std::vector<double>>{{2., 3., 5.}, {-1., .5, 2.}, {0., 2., -1.}, {1., 1., 1.}, {3., 0., 1.}}) {
    const std::map<Poly::VarType, double> at{{IdOf(0), x[0]}, {IdOf(1), x[1]}, {IdOf(2), x[2]}};
    const auto check = [&](const Poly& r, double want, const char* key) {
      c.op();
      const double got = r.EvaluateMultivariate(at);
      c.expect(std::abs(got - want) <= 1e-9 * (1. + std::abs(want)), key, [&] { return text + " at " + Say(x[0]) + "," + Say(x[1]) + "," + Say(x[2]) + ": " + Say(got) + " instead of " + Say(want); });
    };
    const double u = At(a, x), v = At(b, x);
    check(p, u, "value of several variables");
    check(sum, u + v, "sum of several variables");
    check(difference, u - v, "difference of several variables");
    check(product, u * v, "product of several variables");
    check(swapped, u * v, "product of several variables");
    check(renamed, At(a, {x[1], x[1], x[2]}), "renamed variable");
    for (int i = 0; i < 3; ++i) {
      std::vector<double> y = x;
      y[i] = v;
      check(substituted[i], At(a, y), "substituted variable");
      const Poly partial = p.EvaluatePartial({{IdOf(i), x[i]}});
      check(partial, u, "partial value");
      c.expect(partial.GetVariables().count(IdOf(i)) == 0, "variable that was evaluated", text);
    }
    const Poly partial = p.EvaluatePartial({{IdOf(0), x[0]}, {IdOf(2), x[2]}});
    check(partial, u, "partial value of two variables");
  }
}

void Names(mc::Ctx& c) {
  static const std::string letters = "@#_.abmxyz";
  std::string name;
  const int n = 1 + c.choose(4);
  for (int i = 0; i < n; ++i) name += letters[c.choose(static_cast<int>(letters.size()))];
  static const std::vector<unsigned> numbers{1, 2, 9, 1162, 2325};
  const unsigned m = c.pick(numbers);
  c.state(name + std::to_string(m));
  c.trace([&] { return name + std::to_string(m); });
  c.op();
  const Poly p(name, m);
  std::ostringstream os;
  os << p;
  c.expect(os.str() == name + std::to_string(m), "name of a variable", [&] { return name + std::to_string(m) + " is printed as " + os.str(); });
  // Different names, different variables.
  std::string other = name;
  for (char& ch : other) {
    const char kept = ch;
    for (char x : {'c', '@', 'z'}) {
      ch = x;
      if (x != kept) c.expect(Poly(other, m).GetSimpleVariable() != p.GetSimpleVariable(), "variables of different names", name);
    }
    ch = kept;
  }
  for (unsigned k : numbers) {
    if (k != m) c.expect(Poly(name, k).GetSimpleVariable() != p.GetSimpleVariable(), "variables of different numbers", name);
  }
  c.expect(mc::Throws([&] { Poly(name + "A", m); }) && mc::Throws([&] { Poly("", m); }) && mc::Throws([&] { Poly(name, 0); }) && mc::Throws([&] { Poly(name, 2326); }) && mc::Throws([&] { Poly(std::string(5, name[0]), m); }), "bad names", name);
}

// ---- Trajectories.
struct Pieces {
  int rows{1}, cols{1};
  std::vector<double> breaks;
  std::vector<std::vector<Coefs>> segments;  // By row * cols + column.

  int segment(double t) const {
    int i = 0;
    while (i + 1 < static_cast<int>(segments.size()) && t >= breaks[i + 1]) ++i;
    return i;
  }
  double value(double t, int entry, int order, double* size, int back = 0) const {
    t = std::min(std::max(t, breaks.front()), breaks.back());
    const int i = segment(t) - back;
    return At(Der(segments[i][entry], order), t - breaks[i], size);
  }
  bool at_break(double t) const { return std::find(breaks.begin() + 1, breaks.end() - 1, t) != breaks.end() - 1; }
};

std::string Say(const Pieces& m) {
  std::string s;
  for (size_t i = 0; i < m.segments.size(); ++i) {
    s += Say(m.breaks[i]) + ":";
    for (const auto& e : m.segments[i]) s += Say(e);
    s += " ";
  }
  return s + (m.breaks.empty() ? "" : Say(m.breaks.back()));
}

PP::PolynomialMatrix ToMatrix(const Pieces& m, int segment, int form) {
  PP::PolynomialMatrix r(m.rows, m.cols);
  for (int i = 0; i < m.rows; ++i) {
    for (int j = 0; j < m.cols; ++j) r(i, j) = Build(m.segments[segment][i * m.cols + j], form);
  }
  return r;
}
PP ToTrajectory(const Pieces& m, int form = 0) {
  std::vector<PP::PolynomialMatrix> matrices;
  for (size_t i = 0; i < m.segments.size(); ++i) matrices.push_back(ToMatrix(m, i, form));
  return PP(matrices, m.breaks);
}

void Same(mc::Ctx& c, const PP& p, const Pieces& m, const std::string& text) {
  c.op();
  const int n = m.segments.size();
  c.expect(p.get_number_of_segments() == n && !p.empty(), "number of segments", text);
  c.expect(p.rows() == m.rows && p.cols() == m.cols, "dimensions", text);
  for (int i = 0; i < n; ++i) {
    c.expect(std::abs(p.start_time(i) - m.breaks[i]) < 1e-12 && std::abs(p.end_time(i) - m.breaks[i + 1]) < 1e-12 && std::abs(p.duration(i) - (m.breaks[i + 1] - m.breaks[i])) < 1e-12, "times of a segment", text);
  }
  c.expect(std::abs(p.start_time() - m.breaks.front()) < 1e-12 && std::abs(p.end_time() - m.breaks.back()) < 1e-12, "times", text);
  c.expect(static_cast<int>(p.get_segment_times().size()) == n + 1, "number of breaks", text);
  std::vector<double> times{m.breaks.front() - 3., m.breaks.back() + 3.};
  for (int i = 0; i <= n; ++i) {
    times.push_back(m.breaks[i]);
    if (i < n) {
      times.push_back(m.breaks[i] + .25 * (m.breaks[i + 1] - m.breaks[i]));
      times.push_back(m.breaks[i] + .75 * (m.breaks[i + 1] - m.breaks[i]));
    }
  }
  for (double t : times) {
    const double inside = std::min(std::max(t, m.breaks.front()), m.breaks.back());
    const bool edge = m.at_break(inside);
    c.expect(p.is_time_in_range(t) == (t == inside), "time in range", text);
    c.expect(p.get_segment_index(t) == m.segment(inside), "segment of a time", [&] { return text + " at " + Say(t); });
    const Matrix v = p.value(t), d1 = p.EvalDerivative(t, 1), d2 = p.EvalDerivative(t, 2);
    c.expect(v.rows() == m.rows && v.cols() == m.cols && d1.rows() == m.rows && d1.cols() == m.cols, "dimensions of values", text);
    for (int i = 0; i < m.rows; ++i) {
      for (int j = 0; j < m.cols; ++j) {
        for (int order = 0; order < 3; ++order) {
          const double got = order == 0 ? v(i, j) : order == 1 ? d1(i, j) : d2(i, j);
          double size;
          double want = m.value(t, i * m.cols + j, order, &size);
          bool ok = std::abs(got - want) <= 1e-9 * (1. + size);
          if (!ok && edge && order > 0) {  // It is not stated which side derivatives are of.
            want = m.value(t, i * m.cols + j, order, &size, 1);
            ok = std::abs(got - want) <= 1e-9 * (1. + size);
          }
          c.expect(ok, "value of a trajectory", [&] { return text + ": derivative " + std::to_string(order) + " at " + Say(t) + " is " + Say(got) + " instead of " + Say(want) + " in " + Say(m); });
        }
        if (t == inside) c.expect(p.scalarValue(t, i, j) == v(i, j), "value of an entry", [&] { return text + " at " + Say(t); });
      }
    }
  }
  c.expect(mc::Throws([&] { p.start_time(n); }) && mc::Throws([&] { p.end_time(-1); }) && mc::Throws([&] { p.getPolynomial(n); }), "segment out of range", text);
}

const std::vector<std::vector<double>> kBreaks{{0., 1.}, {0., 1., 2.5}, {-1., 0., .5, 2.}, {2., 3., 4., 4.5, 6., 7.}};
const std::vector<std::pair<int, int>> kDimensions{{1, 1}, {2, 1}, {1, 2}, {2, 2}};

// Distinct in every place.
Pieces MakePieces(const std::vector<double>& breaks, int rows, int cols, int degree, int salt) {
  Pieces m;
  m.rows = rows;
  m.cols = cols;
  m.breaks = breaks;
  for (size_t i = 0; i + 1 < breaks.size(); ++i) {
    std::vector<Coefs> entries;
    for (int e = 0; e < rows * cols; ++e) {
      Coefs a;
      for (int k = 0; k <= degree; ++k) a.push_back(((static_cast<int>(i) * 5 + e * 3 + k * 7 + salt * 11) % 9 - 4) * .5);
      if (a.back() == 0.) a.back() = 1.;
      entries.push_back(a);
    }
    m.segments.push_back(entries);
  }
  return m;
}

void Edits(mc::Ctx& c) {
  const auto& breaks = c.pick(kBreaks);
  const auto& dims = c.pick(kDimensions);
  const int degree = c.choose(4);
  const int form = c.choose(2);
  Pieces m = MakePieces(breaks, dims.first, dims.second, degree, 0);
  PP p = ToTrajectory(m, form);
  std::string text = "degree " + std::to_string(degree) + " form " + std::to_string(form) + " " + Say(m) + ":";
  Same(c, p, m, text);
  const int most = mc::Thorough() ? 3 : 2;
  for (int step = 0; step < most; ++step) {
    const int n = m.segments.size(), entries = m.rows * m.cols;
    const auto sample = [&](int salt) {
      Matrix r(m.rows, m.cols);
      for (int e = 0; e < entries; ++e) r(e / m.cols, e % m.cols) = (e * 2 + salt) * .75 - 1.;
      return r;
    };
    const auto each = [&](const std::function<Coefs(const Coefs&, int segment, int entry)>& f) {
      for (int i = 0; i < n; ++i) {
        for (int e = 0; e < entries; ++e) m.segments[i][e] = f(m.segments[i][e], i, e);
      }
    };
    int largest = 0;
    bool varies = true, some_constant = false;
    for (const auto& s : m.segments) {
      for (const auto& e : s) {
        largest = std::max(largest, static_cast<int>(e.size()));
        varies = varies && Trim(e).size() > 1;
        some_constant = some_constant || Trim(e).size() == 1;
      }
    }
    const int op = c.choose(20);
    text += " " + std::to_string(op);
    const PP before = p;
    switch (op) {
      case 0: {
        const double t = m.breaks.back() + (step ? .5 : 2.), dt = t - m.breaks.back();
        const Matrix s = sample(step);
        p.AppendFirstOrderSegment(t, s);
        std::vector<Coefs> added;
        for (int e = 0; e < entries; ++e) {
          const double start = m.value(m.breaks.back(), e, 0, nullptr);
          added.push_back({start, (s(e / m.cols, e % m.cols) - start) / dt});
        }
        m.segments.push_back(added);
        m.breaks.push_back(t);
        break;
      }
      case 1: {
        const double t = m.breaks.back() + (step ? .5 : 2.), h = t - m.breaks.back();
        const Matrix s = sample(step), d = sample(step + 3);
        p.AppendCubicHermiteSegment(t, s, d);
        std::vector<Coefs> added;
        for (int e = 0; e < entries; ++e) {
          const double y0 = m.value(m.breaks.back(), e, 0, nullptr), d0 = m.value(m.breaks.back(), e, 1, nullptr);
          const double y1 = s(e / m.cols, e % m.cols), d1 = d(e / m.cols, e % m.cols);
          added.push_back({y0, d0, (3. * (y1 - y0) / h - 2. * d0 - d1) / h, (2. * (y0 - y1) / h + d0 + d1) / (h * h)});
        }
        m.segments.push_back(added);
        m.breaks.push_back(t);
        break;
      }
      case 2:
        if (n < 2) c.prune();
        p.RemoveFinalSegment();
        m.segments.pop_back();
        m.breaks.pop_back();
        break;
      case 3:
        p.ReverseTime();
        for (int i = 0; i < n; ++i) {
          for (auto& e : m.segments[i]) e = Compose(e, {m.breaks[i + 1] - m.breaks[i], -1.});
        }
        std::reverse(m.segments.begin(), m.segments.end());
        std::reverse(m.breaks.begin(), m.breaks.end());
        for (double& b : m.breaks) b = -b;
        break;
      case 4:
      case 5: {
        const double k = op == 4 ? 2. : .25;
        p.ScaleTime(k);
        each([&](const Coefs& a, int, int) { return Compose(a, {0., 1. / k}); });
        for (double& b : m.breaks) b *= k;
        break;
      }
      case 6: {
        const double k = step ? 4. : -1.5;
        p.shiftRight(k);
        for (double& b : m.breaks) b += k;
        break;
      }
      case 7: {
        std::vector<double> next;
        for (double b : c.pick(kBreaks)) next.push_back(b - kBreaks[0][0]);
        const double from = next[0];
        for (double& b : next) b += m.breaks.back() - from;
        const Pieces other = MakePieces(next, m.rows, m.cols, 2, 1 + step);
        p.ConcatenateInTime(ToTrajectory(other));
        m.segments.insert(m.segments.end(), other.segments.begin(), other.segments.end());
        m.breaks.insert(m.breaks.end(), other.breaks.begin() + 1, other.breaks.end());
        break;
      }
      case 8: {  // What does not fit is rejected.
        const double end = m.breaks.back();
        const Pieces late = MakePieces({end + .001, end + 1.}, m.rows, m.cols, 1, 1), early = MakePieces({end - .5, end + 1.}, m.rows, m.cols, 1, 1);
        const Pieces tall = MakePieces({end, end + 1.}, m.rows + 1, m.cols, 1, 1), wide = MakePieces({end, end + 1.}, m.rows, m.cols + 1, 1, 1);
        for (const Pieces* x : {&late, &early, &tall, &wide}) {
          c.expect(mc::Throws([&] { p.ConcatenateInTime(ToTrajectory(*x)); }), "concatenation of what does not fit", text);
        }
        break;
      }
      case 9: {
        const int from = c.choose(n), count = 1 + c.choose(n - from);
        p = p.slice(from, count);
        m.segments = std::vector<std::vector<Coefs>>(m.segments.begin() + from, m.segments.begin() + from + count);
        m.breaks = std::vector<double>(m.breaks.begin() + from, m.breaks.begin() + from + count + 1);
        break;
      }
      case 10: {
        const int order = c.choose(4);
        p = p.derivative(order);
        each([&](const Coefs& a, int, int) { return Der(a, order); });
        break;
      }
      case 11: {
        Matrix start = c.flip() ? sample(2) : Matrix::Constant(m.rows, m.cols, -1.25);
        const bool matrix = start(0, 0) != -1.25;
        if (!varies) {  // Constants are not integrated; how zeros are is not stated.
          if (some_constant && form == 1 && step == 0 && degree == 0) c.expect(mc::Throws([&] { p.integral(0.); }), "integral of a constant", text);
          c.prune();
        }
        p = matrix ? p.integral(start) : p.integral(-1.25);
        for (int i = 0; i < n; ++i) {
          for (int e = 0; e < entries; ++e) {
            const double k = i == 0 ? start(e / m.cols, e % m.cols) : At(m.segments[i - 1][e], m.breaks[i] - m.breaks[i - 1]);
            m.segments[i][e] = Int(m.segments[i][e], k);
          }
        }
        break;
      }
      case 12:
      case 13:
      case 14: {
        Pieces other = MakePieces(m.breaks, m.rows, m.cols, 2, 2 + step);
        if (op == 14 && largest > 5) c.prune();
        const PP q = ToTrajectory(other, c.choose(2));
        const bool in_place = c.flip();
        if (op == 12) {
          in_place ? p += q : p = p + q;
        } else if (op == 13) {
          in_place ? p -= q : p = p - q;
        } else {
          in_place ? p *= q : p = p * q;
        }
        each([&](const Coefs& a, int i, int e) { return op == 14 ? Mul(a, other.segments[i][e]) : Add(a, other.segments[i][e], op == 12 ? 1. : -1.); });
        break;
      }
      case 15:
        p = -p;
        each([&](const Coefs& a, int, int) { return Scale(a, -1.); });
        break;
      case 16: {
        const Matrix k = sample(1);
        const int way = c.choose(4);
        if (way == 0) p += k;
        if (way == 1) p -= k;
        if (way == 2) p = p + k;
        if (way == 3) p = p - k;
        each([&](const Coefs& a, int, int e) { return Add(a, {k(e / m.cols, e % m.cols)}, way % 2 ? -1. : 1.); });
        break;
      }
      case 17: {
        const int row = c.choose(m.rows), col = c.choose(m.cols), rows = 1 + c.choose(m.rows - row), cols = 1 + c.choose(m.cols - col);
        if (c.flip()) {
          p = p.Block(row, col, rows, cols);
          Pieces r = m;
          r.rows = rows;
          r.cols = cols;
          for (int s = 0; s < n; ++s) {
            r.segments[s].clear();
            for (int i = 0; i < rows; ++i) {
              for (int j = 0; j < cols; ++j) r.segments[s].push_back(m.segments[s][(row + i) * m.cols + col + j]);
            }
          }
          m = r;
        } else {
          const int at = c.choose(n);
          Pieces other = MakePieces({0., 1.}, rows, cols, 2, 4);
          p.setPolynomialMatrixBlock(ToMatrix(other, 0, 0), at, row, col);
          for (int i = 0; i < rows; ++i) {
            for (int j = 0; j < cols; ++j) m.segments[at][(row + i) * m.cols + col + j] = other.segments[0][i * cols + j];
          }
        }
        break;
      }
      case 18: {  // Column by column.
        const int rows = 1 + c.choose(4);
        if (entries % rows) c.prune();
        p.Reshape(rows, entries / rows);
        Pieces r = m;
        r.rows = rows;
        r.cols = entries / rows;
        for (int s = 0; s < n; ++s) {
          for (int k = 0; k < entries; ++k) r.segments[s][(k % r.rows) * r.cols + k / r.rows] = m.segments[s][(k % m.rows) * m.cols + k / m.rows];
        }
        m = r;
        break;
      }
      case 19: {  // Other breaks are rejected, and copies are separate.
        std::vector<double> moved = m.breaks;
        moved[c.choose(n + 1)] += .0625;
        std::vector<double> longer = m.breaks;
        longer.push_back(longer.back() + 1.);
        for (const auto& b : {moved, longer}) {
          const PP q = ToTrajectory(MakePieces(b, m.rows, m.cols, 2, 2));
          c.expect(mc::Throws([&] { p += q; }) && mc::Throws([&] { p -= q; }) && mc::Throws([&] { p *= q; }), "operation on other breaks", text);
          c.expect(!p.isApprox(q, 1e-3, ToleranceType::kAbsolute), "approximately equal to other breaks", text);
        }
        PP copy = p;
        const auto clone = p.Clone();
        copy.ReverseTime();
        copy.shiftRight(7.);
        copy += sample(5);
        c.expect((clone->value(m.breaks[0] + .1) - p.value(m.breaks[0] + .1)).norm() == 0., "clone", text);
        // Equality by coefficients.
        PP near = p;
        Matrix k = Matrix::Zero(m.rows, m.cols);
        k(m.rows - 1, m.cols - 1) = .01;
        near += k;
        c.expect(p.isApprox(p, 0., ToleranceType::kAbsolute) && p.isApprox(near, .011, ToleranceType::kAbsolute) && !p.isApprox(near, .009, ToleranceType::kAbsolute), "approximately equal", text);
        break;
      }
    }
    Same(c, p, m, text);
    (void)before;
  }
  c.nontrivial();
  c.trace([&] { return text; });
  c.state(text);
}

// ---- Trajectories through samples.
void Interpolation(mc::Ctx& c) {
  static const double kValues[] = {0., 1., -2., 1.5};
  static const double kSteps[] = {1., .5, 3.};
  const int n = 2 + c.choose(mc::Thorough() ? 5 : 4), kind = c.choose(9);
  std::vector<double> breaks{c.flip() ? 0. : -1.5};
  std::vector<Coefs> y(2), d(2);  // Of two rows; those of the second one follow from the first.
  const int steps = c.choose(4);
  for (int i = 0; i < n; ++i) {
    y[0].push_back(kValues[n > 5 ? (i == 0 ? 0 : c.choose(3)) : c.choose(n > 4 ? 3 : 4)]);
    y[1].push_back(2. * y[0][i] + (i % 3));
    d[0].push_back((i * 5 % 7 - 3) * .5);
    d[1].push_back((i * 3 % 5 - 2) * .75);
    if (i) breaks.push_back(breaks.back() + (steps < 3 ? kSteps[steps] : kSteps[i % 3]));
  }
  const bool eigen = c.flip(), wide = !eigen && c.flip();
  std::string text = "kind " + std::to_string(kind) + " breaks " + Say(breaks) + " samples " + Say(y[0]) + (eigen ? " vectors" : wide ? " wide" : "");
  c.trace([&] { return text; });
  c.state(text);
  std::vector<Matrix> samples, dots;
  Matrix ys(2, n), ds(2, n);
  Eigen::VectorXd bs(n);
  for (int i = 0; i < n; ++i) {
    Matrix s(2, 1), e(2, 1);
    s << y[0][i], y[1][i];
    e << d[0][i], d[1][i];
    ys.col(i) = s;
    ds.col(i) = e;
    bs[i] = breaks[i];
    samples.push_back(wide ? Matrix(s.transpose()) : s);
    dots.push_back(wide ? Matrix(e.transpose()) : e);
  }
  const Matrix first = dots.front(), last = dots.back();
  const bool few = n < 3;
  const auto make = [&](const std::vector<double>& b, const std::vector<Matrix>& s, const std::vector<Matrix>& dot, bool vectors) -> PP {
    switch (kind) {
      case 0:
        return vectors ? PP::ZeroOrderHold(bs, ys) : PP::ZeroOrderHold(b, s);
      case 1:
        return vectors ? PP::FirstOrderHold(bs, ys) : PP::FirstOrderHold(b, s);
      case 2:
        return vectors ? PP::CubicHermite(bs, ys, ds) : PP::CubicHermite(b, s, dot);
      case 3:
      case 4:
        return vectors ? PP::CubicShapePreserving(bs, ys, kind == 4) : PP::CubicShapePreserving(b, s, kind == 4);
      case 5:
        return vectors ? PP::CubicWithContinuousSecondDerivatives(bs, ys, Eigen::VectorXd(ds.col(0)), Eigen::VectorXd(ds.col(n - 1))) : PP::CubicWithContinuousSecondDerivatives(b, s, first, last);
      case 6:
      case 7:
        return vectors ? PP::CubicWithContinuousSecondDerivatives(bs, ys, kind == 7) : PP::CubicWithContinuousSecondDerivatives(b, s, kind == 7);
      default:
        return vectors ? PP::LagrangeInterpolatingPolynomial(bs, ys) : PP::LagrangeInterpolatingPolynomial(b, s);
    }
  };
  if (few && (kind == 3 || kind == 6 || kind == 7)) {
    if (kind == 3) c.expect(mc::Throws([&] { make(breaks, samples, dots, eigen); }), "too few samples", text);
    return;
  }
  c.op();
  const PP p = make(breaks, samples, dots, eigen);
  c.expect(p.rows() == (wide ? 1 : 2) && p.cols() == (wide ? 2 : 1), "dimensions", text);
  const int segments = kind == 8 ? 1 : n - 1;
  c.expect(p.get_number_of_segments() == segments && p.start_time() == breaks.front() && p.end_time() == breaks.back(), "segments", text);
  const auto close = [](double a, double b) { return std::abs(a - b) <= 1e-7 * (1. + std::abs(a) + std::abs(b)); };
  for (int row = 0; row < 2; ++row) {
    const auto value = [&](double t, int order) { return p.EvalDerivative(t, order)(wide ? 0 : row, wide ? row : 0); };
    const auto side = [&](int segment, double t, int order) { return p.getPolynomial(segment, wide ? 0 : row, wide ? row : 0).EvaluateUnivariate(t - breaks[segment], order); };
    const Coefs& v = y[row];
    const auto check = [&](double got, double want, const char* key) {
      c.expect(close(got, want), key, [&] { return text + " row " + std::to_string(row) + ": " + Say(got) + " instead of " + Say(want); });
    };
    if (kind == 8) {
      for (int i = 0; i < n; ++i) check(value(breaks[i], 0), v[i], "value at a sample");
      for (double t : {breaks[0] + .3, breaks[0] + .45}) {
        double want = 0;
        for (int i = 0; i < n; ++i) {
          double term = v[i];
          for (int j = 0; j < n; ++j) term *= j == i ? 1. : (t - breaks[j]) / (breaks[i] - breaks[j]);
          want += term;
        }
        check(value(t, 0), want, "value between samples");
      }
      continue;
    }
    if (kind == 0) {
      for (int i = 0; i + 1 < n; ++i) {
        for (double part : {0., .5, .999}) check(value(breaks[i] + part * (breaks[i + 1] - breaks[i]), 0), v[i], "value held");
      }
      continue;
    }
    for (int i = 0; i + 1 < n; ++i) {  // Through all samples, from both sides.
      check(side(i, breaks[i], 0), v[i], "value at a sample");
      check(side(i, breaks[i + 1], 0), v[i + 1], "value at a sample");
      c.expect(p.getSegmentPolynomialDegree(i, wide ? 0 : row, wide ? row : 0) <= (kind == 1 ? 1 : 3), "degree", text);
    }
    check(value(breaks.back(), 0), v[n - 1], "value at the last sample");
    if (kind == 1) continue;
    for (int i = 0; i + 2 < n; ++i) check(side(i, breaks[i + 1], 1), side(i + 1, breaks[i + 1], 1), "continuity of the derivative");
    if (kind == 2) {
      for (int i = 0; i < n; ++i) check(i + 1 < n ? side(i, breaks[i], 1) : side(i - 1, breaks[i], 1), d[row][i], "derivative at a sample");
    }
    if (kind == 3 || kind == 4) {
      const auto slope = [&](int i) { return (v[i + 1] - v[i]) / (breaks[i + 1] - breaks[i]); };
      for (int i = 1; i + 1 < n; ++i) {  // Weighted harmonic mean of the slopes.
        const double h0 = breaks[i] - breaks[i - 1], h1 = breaks[i + 1] - breaks[i];
        const double want = slope(i - 1) * slope(i) <= 0. ? 0. : (3. * (h0 + h1)) / ((2. * h1 + h0) / slope(i - 1) + (2. * h0 + h1) / slope(i));
        check(side(i, breaks[i], 1), want, "derivative at a sample");
      }
      const auto end = [](double h0, double h1, double s0, double s1) {
        const double r = ((2. * h0 + h1) * s0 - h0 * s1) / (h0 + h1);
        const auto sign = [](double x) { return x > 1e-10 ? 1 : x < -1e-10 ? -1 : 0; };
        if (sign(r) != sign(s0)) return 0.;
        if (sign(s0) != sign(s1) && std::abs(r) > std::abs(3. * s0)) return 3. * s0;
        return r;
      };
      check(side(0, breaks[0], 1), kind == 4 ? 0. : end(breaks[1] - breaks[0], breaks[2] - breaks[1], slope(0), slope(1)), "derivative at the start");
      check(side(n - 2, breaks[n - 1], 1), kind == 4 ? 0. : end(breaks[n - 1] - breaks[n - 2], breaks[n - 2] - breaks[n - 3], slope(n - 2), slope(n - 3)), "derivative at the end");
      for (int i = 0; i + 1 < n; ++i) {  // Monotone between samples.
        for (double part : {.1, .3, .5, .7, .9}) {
          const double rate = value(breaks[i] + part * (breaks[i + 1] - breaks[i]), 1);
          c.expect(rate * slope(i) >= -1e-9, "shape between samples", [&] { return text + " in segment " + std::to_string(i); });
        }
      }
    }
    if (kind >= 5) {
      for (int i = 0; i + 2 < n; ++i) check(side(i, breaks[i + 1], 2), side(i + 1, breaks[i + 1], 2), "continuity of the second derivative");
    }
    if (kind == 5) {
      check(side(0, breaks[0], 1), d[row][0], "derivative at the start");
      check(side(n - 2, breaks[n - 1], 1), d[row][n - 1], "derivative at the end");
    }
    if (kind == 6) {
      check(side(0, breaks[0], 3), side(1, breaks[1], 3), "third derivative of the first two segments");
      check(side(n - 3, breaks[n - 2], 3), side(n - 2, breaks[n - 2], 3), "third derivative of the last two segments");
    }
    if (kind == 7) {
      check(side(0, breaks[0], 1), side(n - 2, breaks[n - 1], 1), "periodic derivative");
      check(side(0, breaks[0], 2), side(n - 2, breaks[n - 1], 2), "periodic second derivative");
    }
  }
  c.nontrivial();
  // What cannot be interpolated.
  if (eigen || kind == 8) return;
  for (int at = 0; at < n; ++at) {
    std::vector<double> b = breaks;
    if (at) {
      b[at] = b[at - 1];
      c.expect(mc::Throws([&] { make(b, samples, dots, false); }), "break that repeats", text);
      b[at] = b[at - 1] - .25;
      c.expect(mc::Throws([&] { make(b, samples, dots, false); }), "breaks out of order", text);
    }
    std::vector<Matrix> s = samples;
    s[at] = Matrix::Zero(3, 1);
    c.expect(mc::Throws([&] { make(breaks, s, dots, false); }), "sample of other dimensions", text);
    if (kind == 2) {
      s = dots;
      s[at] = Matrix::Zero(3, 1);
      c.expect(mc::Throws([&] { make(breaks, samples, s, false); }), "derivative of other dimensions", text);
    }
  }
  std::vector<double> b = breaks;
  b.push_back(b.back() + 1.);
  c.expect(mc::Throws([&] { make(b, samples, dots, false); }), "more breaks than samples", text);
  std::vector<Matrix> s = samples;
  s.push_back(samples[0]);
  c.expect(mc::Throws([&] { make(breaks, s, dots, false); }), "more samples than breaks", text);
  if (kind == 2) {
    s = dots;
    s.pop_back();
    c.expect(mc::Throws([&] { make(breaks, samples, s, false); }), "fewer derivatives than samples", text);
  }
  c.expect(mc::Throws([&] { make({breaks[0]}, {samples[0]}, {dots[0]}, false); }), "one sample", text);
}

// ---- Dense outputs: updates, rollbacks and consolidations.
struct Knot {
  double t;
  Coefs y, d;
};

void DenseOutputs(mc::Ctx& c) {
  const int size = 1 + c.choose(2);
  const double start = c.flip() ? 0. : -2.;
  const auto knot = [&](double t, int salt) {
    Knot k{t, {}, {}};
    for (int i = 0; i < size; ++i) {
      k.y.push_back(1. + (salt * 3 + i) % 5);
      k.d.push_back(.5 + (salt * 2 + i) % 4);
    }
    return k;
  };
  const auto column = [](const Coefs& a) {
    Matrix r(a.size(), 1);
    for (size_t i = 0; i < a.size(); ++i) r(i, 0) = a[i];
    return r;
  };
  Dense dut;
  std::vector<std::vector<Knot>> done, pending;
  std::string text = "size " + std::to_string(size) + " from " + Say(start) + ":";
  int salt = 0;
  const int most = mc::Thorough() ? 7 : 5;
  for (int op_number = 0; op_number < most; ++op_number) {
    const int op = c.choose(9);
    text += " " + std::to_string(op);
    c.op();
    const std::vector<Knot>* last = !pending.empty() ? &pending.back() : !done.empty() ? &done.back() : nullptr;
    const Knot from = last ? last->back() : knot(start, 0);
    const auto make = [&](const std::vector<Knot>& knots) {
      Dense::IntegrationStep step(knots[0].t, column(knots[0].y), column(knots[0].d));
      for (size_t i = 1; i < knots.size(); ++i) step.Extend(knots[i].t, column(knots[i].y), column(knots[i].d));
      return step;
    };
    if (op < 2) {  // An update of one or two intervals.
      ++salt;
      std::vector<Knot> knots{from, knot(from.t + .5, salt)};
      if (op == 1) knots.push_back(knot(from.t + 2., ++salt));
      auto step = make(knots);
      c.expect(step.start_time() == knots.front().t && step.end_time() == knots.back().t && step.size() == size && step.get_times().size() == knots.size(), "step", text);
      // What a step cannot be extended by.
      const Knot end = knots.back();
      const Matrix y = column(end.y), big = Matrix::Zero(size + 1, 1), wide = Matrix::Zero(size, 2);
      c.expect(mc::Throws([&] { step.Extend(end.t, y, y); }) && mc::Throws([&] { step.Extend(end.t - .25, y, y); }) && mc::Throws([&] { step.Extend(from.t - 1., y, y); }) && mc::Throws([&] { step.Extend(end.t + 1., big, big); }) &&
                   mc::Throws([&] { step.Extend(end.t + 1., y, big); }) && mc::Throws([&] { step.Extend(end.t + 1., big, y); }) && mc::Throws([&] { step.Extend(end.t + 1., wide, y); }) && mc::Throws([&] { step.Extend(end.t + 1., y, wide); }),
               "extension of a step", text);
      c.expect(step.get_times().size() == knots.size() && step.get_states().size() == knots.size() && step.get_state_derivatives().size() == knots.size(), "step after a rejected extension", text);
      dut.Update(step);
      pending.push_back(knots);
    } else if (op == 2) {
      c.expect(mc::Throws([&] { dut.Rollback(); }) == pending.empty(), "rollback", text);
      if (!pending.empty()) pending.pop_back();
    } else if (op == 3) {
      c.expect(mc::Throws([&] { dut.Consolidate(); }) == pending.empty(), "consolidation", text);
      done.insert(done.end(), pending.begin(), pending.end());
      pending.clear();
      c.nontrivial();
    } else {  // Updates that do not fit.
      if (op > 4 && !last) c.prune();
      Knot bad = from;
      std::vector<Knot> knots{bad};
      if (op == 5) bad.t += .125;
      if (op == 6) bad.y[size - 1] += .25;
      if (op == 7) bad.d[size - 1] += .25;
      Knot next = knot(from.t + 1., salt + 7);
      if (op == 8) {
        bad.y.push_back(1.);
        bad.d.push_back(1.);
        next.y.push_back(1.);
        next.d.push_back(1.);
      }
      knots = {bad};
      if (op != 4) knots.push_back(next);
      c.expect(mc::Throws([&] { dut.Update(make(knots)); }), "update that does not fit", text);
    }
    // What can be evaluated is what has been consolidated.
    c.expect(dut.is_empty() == done.empty(), "emptiness", text);
    if (done.empty()) {
      c.expect(mc::Throws([&] { dut.Evaluate(start); }) && mc::Throws([&] { dut.EvaluateNth(start, 0); }) && mc::Throws([&] { dut.size(); }) && mc::Throws([&] { dut.start_time(); }) && mc::Throws([&] { dut.end_time(); }), "empty output", text);
      continue;
    }
    const double first = done.front().front().t, end = done.back().back().t;
    c.expect(dut.size() == size && dut.start_time() == first && dut.end_time() == end, "extent", text);
    c.expect(mc::Throws([&] { dut.Evaluate(first - .01); }) && mc::Throws([&] { dut.Evaluate(end + .01); }) && mc::Throws([&] { dut.EvaluateNth(end + .01, 0); }) && mc::Throws([&] { dut.EvaluateNth(first - .01, 0); }) &&
                 mc::Throws([&] { dut.EvaluateNth(first, size); }) && mc::Throws([&] { dut.EvaluateNth(first, -1); }),
             "out of range", text);
    for (const auto& knots : done) {
      for (size_t i = 0; i + 1 < knots.size(); ++i) {
        const Knot &a = knots[i], &b = knots[i + 1];
        const double h = b.t - a.t;
        for (double u : {0., .25, .5, 1.}) {
          const Eigen::VectorXd got = dut.Evaluate(a.t + u * h);
          c.expect(got.size() == size, "size of a value", text);
          for (int e = 0; e < size; ++e) {
            const double want = (2 * u * u * u - 3 * u * u + 1) * a.y[e] + (u * u * u - 2 * u * u + u) * h * a.d[e] + (3 * u * u - 2 * u * u * u) * b.y[e] + (u * u * u - u * u) * h * b.d[e];
            c.expect(std::abs(got[e] - want) < 1e-9, "value of the output", [&] { return text + " at " + Say(a.t + u * h) + ": " + Say(got[e]) + " instead of " + Say(want); });
            c.expect(dut.EvaluateNth(a.t + u * h, e) == got[e], "element of the output", text);
          }
        }
      }
    }
  }
  c.trace([&] { return text; });
  c.state(text);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"polynomials", "all pairs of polynomials of degree up to 3 and 2 with coefficients of 3 (thorough: 4) values, built in 4 and 2 ways", Polynomials},
                               {"several variables", "all polynomials of up to 2 monomials in 3 variables of powers up to 2, with 5 others", SeveralVariables},
                               {"names", "all names of up to 3 (thorough: 4) of 10 letters and 4 numbers", Names},
                               {"edits", "trajectories of 1 to 5 segments of 1x1 to 2x2 entries of degree up to 3; every history of 2 (thorough: 3) of 20 kinds of edits", Edits},
                               {"interpolation", "9 kinds of interpolation through all samples of 3 or 4 values at 2 to 5 (thorough: 6) breaks of 8 kinds, and bad ones", Interpolation},
                               {"dense outputs", "every history of 5 (thorough: 7) updates, rollbacks, consolidations and updates that do not fit", DenseOutputs}});
}
