// Initial value problems and antiderivatives: every history of solutions of one problem, against closed forms.
#include <cmath>
#include <cstdlib>
#include <functional>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include "maliput/drake/systems/analysis/antiderivative_function.h"
#include "maliput/drake/systems/analysis/initial_value_problem.h"
#include "maliput/drake/systems/analysis/scalar_initial_value_problem.h"
#include "mc.h"

using maliput::drake::systems::AntiderivativeFunction;
using maliput::drake::systems::DenseOutput;
using maliput::drake::systems::InitialValueProblem;
using maliput::drake::systems::IntegratorBase;
using maliput::drake::systems::ScalarDenseOutput;
using maliput::drake::systems::ScalarInitialValueProblem;

namespace {

using Vector = Eigen::VectorXd;

std::string Say(double x) {
  std::ostringstream os;
  os.precision(12);
  os << x;
  return os.str();
}

// How near errors get to what is allowed.
void Calibrate(double error, double allowed, const std::string& text) {
  static double worst = 0;
  const char* path = std::getenv("CALIBRATE");
  if (!path || error <= allowed * worst) return;
  worst = error / allowed;
  FILE* file = fopen(path, "a");
  fprintf(file, "%.4f %g of %g: %s\n", worst, error, allowed, text.c_str());
  fclose(file);
}

Vector Of(std::initializer_list<double> v) {
  Vector r(v.size());
  int i = 0;
  for (double x : v) r[i++] = x;
  return r;
}

// What is given to a problem; what is not falls back to the defaults.
struct Values {
  std::optional<double> t0;
  std::optional<Vector> x0, k;
  std::string text;
};

// A solution over an interval.
struct Curve {
  double start, end;
  int size;
  std::function<bool()> empty;
  std::function<double()> first, last;
  std::function<int()> dimension;
  std::function<Vector(double)> all;
  std::function<double(double, int)> nth;
};

// A problem in the interface of one of the classes.
struct Problem {
  virtual ~Problem() = default;
  virtual Vector Solve(double t, const Values& v) = 0;
  virtual Curve Dense(double t, const Values& v) = 0;
  virtual IntegratorBase<double>* Integrator() = 0;
  // What is known about it.
  double t0;
  Vector x0, k;
  std::function<Vector(double t, double t0, const Vector& x0, const Vector& k)> solution;
};

template <typename O>
Curve MakeCurve(std::unique_ptr<O> o) {
  std::shared_ptr<O> p(std::move(o));
  Curve r;
  r.empty = [p] { return p->is_empty(); };
  r.first = [p] { return p->start_time(); };
  r.last = [p] { return p->end_time(); };
  r.dimension = [p] { return p->size(); };
  r.all = [p](double t) { return p->Evaluate(t); };
  r.nth = [p](double t, int n) { return p->EvaluateNth(t, n); };
  return r;
}

template <typename O>
Curve MakeScalarCurve(std::unique_ptr<O> o) {
  O* raw = o.get();
  Curve r = MakeCurve(std::move(o));
  const auto all = r.all;
  r.all = [all, raw](double t) {  // (`all` keeps it alive.)
    const Vector v = all(t);
    return v.size() == 1 && v[0] == raw->EvaluateScalar(t) ? v : Vector(Of({NAN}));
  };
  return r;
}

// A rotation, and a quantity that depends on time alone.
struct VectorProblem : Problem {
  using P = InitialValueProblem<double>;
  VectorProblem() {
    t0 = -.5;
    x0 = Of({1., .5, -1.});
    k = Of({.5, 1.});
    solution = [](double t, double from, const Vector& x, const Vector& q) {
      const double a = q[0] * (t - from);
      return Of({x[0] * std::cos(a) + x[1] * std::sin(a), x[1] * std::cos(a) - x[0] * std::sin(a), x[2] + q[1] * (t * t - from * from) / 2. - (t - from)});
    };
    p = std::make_unique<P>([](const double& t, const Vector& x, const Vector& q) { return Of({q[0] * x[1], -q[0] * x[0], q[1] * t - 1.}); }, P::OdeContext(t0, x0, k));
  }
  P::OdeContext Context(const Values& v) { return {v.t0, v.x0, v.k}; }
  Vector Solve(double t, const Values& v) override { return v.text == "nothing" ? p->Solve(t) : p->Solve(t, Context(v)); }
  Curve Dense(double t, const Values& v) override { return MakeCurve(v.text == "nothing" ? p->DenseSolve(t) : p->DenseSolve(t, Context(v))); }
  IntegratorBase<double>* Integrator() override { return &p->get_mutable_integrator(); }
  std::unique_ptr<P> p;
};

// Relaxation towards a value.
struct ScalarProblem : Problem {
  using P = ScalarInitialValueProblem<double>;
  ScalarProblem() {
    t0 = -.5;
    x0 = Of({2.});
    k = Of({.5, 1.});
    solution = [](double t, double from, const Vector& x, const Vector& q) {
      const double at = q[1] / q[0];
      return Of({at + (x[0] - at) * std::exp(-q[0] * (t - from))});
    };
    p = std::make_unique<P>([](const double&, const double& x, const Vector& q) { return -q[0] * x + q[1]; }, P::ScalarOdeContext(t0, x0[0], k));
  }
  P::ScalarOdeContext Context(const Values& v) { return {v.t0, v.x0 ? std::optional<double>((*v.x0)[0]) : std::nullopt, v.k}; }
  Vector Solve(double t, const Values& v) override { return Of({v.text == "nothing" ? p->Solve(t) : p->Solve(t, Context(v))}); }
  Curve Dense(double t, const Values& v) override { return MakeScalarCurve(v.text == "nothing" ? p->DenseSolve(t) : p->DenseSolve(t, Context(v))); }
  IntegratorBase<double>* Integrator() override { return &p->get_mutable_integrator(); }
  std::unique_ptr<P> p;
};

// An integral; the lower bound may be left out when it is made.
struct Integral : Problem {
  using P = AntiderivativeFunction<double>;
  explicit Integral(bool bound) {
    t0 = bound ? -.5 : 0.;
    x0 = Of({0.});
    k = Of({.5, 1.});
    solution = [](double t, double from, const Vector&, const Vector& q) { return Of({std::sin(t + q[0]) - std::sin(from + q[0]) + q[1] * (t - from)}); };
    p = std::make_unique<P>([](const double& x, const Vector& q) { return std::cos(x + q[0]) + q[1]; },
                            P::IntegrableFunctionContext(bound ? std::optional<double>(t0) : std::nullopt, k));
  }
  P::IntegrableFunctionContext Context(const Values& v) { return {v.t0, v.k}; }
  Vector Solve(double t, const Values& v) override { return Of({v.text == "nothing" ? p->Evaluate(t) : p->Evaluate(t, Context(v))}); }
  Curve Dense(double t, const Values& v) override { return MakeScalarCurve(v.text == "nothing" ? p->MakeDenseEvalFunction(t) : p->MakeDenseEvalFunction(t, Context(v))); }
  IntegratorBase<double>* Integrator() override { return &p->get_mutable_integrator(); }
  std::unique_ptr<P> p;
};

std::vector<Values> ValuesOf(const Problem& p, bool states) {
  const Vector other = states ? Vector(-.5 * p.x0 + Vector::Constant(p.x0.size(), .25)) : p.x0, k = Of({1., -.5});
  std::vector<Values> r{{{}, {}, {}, "nothing"}, {.4, {}, {}, "t0"}, {{}, {}, k, "k"}, {{}, {}, p.k, "the default k"}, {.4, other, k, "all"}};
  if (states) r.push_back({{}, other, {}, "x0"});
  if (p.x0.size() == 3) {  // Values that differ in one element.
    Vector x = p.x0, q = p.k;
    x[2] += .5;
    q[1] = -.5;
    r.push_back({{}, x, {}, "the last of x0"});
    r.push_back({{}, {}, q, "the last of k"});
  }
  return r;
}

void Histories(mc::Ctx& c, int kind) {
  std::unique_ptr<Problem> p;
  if (kind == 0) p = std::make_unique<VectorProblem>();
  if (kind == 1) p = std::make_unique<ScalarProblem>();
  if (kind == 2) p = std::make_unique<Integral>(c.flip());
  double accuracy = 1e-4, step = .1;
  std::string text = kind == 2 ? "from " + Say(p->t0) : "";
  if (c.flip()) {
    accuracy = 1e-6;
    step = .25;
    p->Integrator()->set_target_accuracy(accuracy);
    p->Integrator()->set_maximum_step_size(step);
    text += " accurate";
  }
  const std::vector<Values> values = ValuesOf(*p, kind != 2);
  static const std::vector<double> times = mc::Thorough() ? std::vector<double>{-.5, .4, 1.1, 1.9} : std::vector<double>{-.5, .4, 1.9};
  struct Kept {
    Curve curve;
    Values v;
    double to;
  };
  std::vector<Kept> kept;
  const int length = mc::Thorough() ? 4 : 3;
  // Is the result that of a new problem?
  const auto check = [&](const Vector& got, double t, const Values& v, double more) {
    const double from = v.t0.value_or(p->t0);
    const Vector want = p->solution(t, from, v.x0.value_or(p->x0), v.k.value_or(p->k));
    const double allowed = 1e-9 + accuracy * (1. + t - from) + more;
    c.op();
    c.expect(got.size() == want.size(), "size", text);
    for (int i = 0; i < want.size() && i < got.size(); ++i) {
      const double error = std::abs(got[i] - want[i]);
      Calibrate(error, allowed, text);
      c.expect(error <= allowed, "value", [&] { return text + ": [" + std::to_string(i) + "] at " + Say(t) + " is " + Say(got[i]) + " instead of " + Say(want[i]); });
    }
  };
  for (int i = 0; i < length; ++i) {
    const int op = c.choose(mc::Thorough() ? 5 : 4);  // (Which dimension is wrong varies with the step otherwise.)
    if (op == (mc::Thorough() ? 4 : 3)) break;
    c.op();
    if (op >= 2) {  // What must be refused, and leaves the rest as it was.
      Values v = values[0];
      v.text = "wrong";
      const Vector wrong = op == 2 && (mc::Thorough() || i != 1) ? Of({1.}) : Of({1., 2., 3., 4.});
      const int which = c.choose(kind == 0 ? 2 : 1);
      (which ? v.x0 : v.k) = wrong;
      text += which ? " wrong x0" : " wrong k";
      c.expect(mc::Throws([&] { p->Solve(1.1, v); }) && mc::Throws([&] { p->Dense(1.1, v); }), "values of the wrong dimension", text);
      continue;
    }
    const Values& v = c.pick(values);
    const double t = c.pick(times), from = v.t0.value_or(p->t0);
    text += std::string(op == 0 ? " solve " : " dense ") + v.text + " to " + Say(t);
    if (t < from) {
      c.expect(mc::Throws([&] { op == 0 ? void(p->Solve(t, v)) : void(p->Dense(t, v)); }), "time before the start", text);
      continue;
    }
    if (op == 0) {
      check(p->Solve(t, v), t, v, 0.);
      c.nontrivial(i > 0);
      continue;
    }
    if (t == from) c.prune();  // Not stated: solutions over an empty interval.
    Kept k{p->Dense(t, v), v, t};
    c.expect(!k.curve.empty() && k.curve.first() == from && k.curve.last() == t && k.curve.dimension() == p->x0.size(), "interval of a solution", [&] { return text + ": " + Say(k.curve.first()) + ".." + Say(k.curve.last()); });
    for (double out : {from - 1e-3, t + 1e-3, from - 10., t + 10.}) {
      c.expect(mc::Throws([&] { k.curve.all(out); }) && mc::Throws([&] { k.curve.nth(out, 0); }), "time out of a solution", text);
    }
    for (int n : {-1, k.curve.dimension()}) c.expect(mc::Throws([&] { k.curve.nth(t, n); }), "element out of a solution", text);
    kept.push_back(k);
  }
  // Solutions over intervals stay what they were, whatever came later.
  for (const Kept& k : kept) {
    const double from = k.v.t0.value_or(p->t0);
    for (double part : {0., .0137, .31, .5, .93, 1.}) {
      const double t = part == 1. ? k.to : from + (k.to - from) * part;
      const Vector got = k.curve.all(t);
      check(got, t, k.v, part == 1. ? 0. : std::pow(step, 4) / 384. * 4.);
      for (int n = 0; n < got.size(); ++n) c.expect(std::abs(k.curve.nth(t, n) - got[n]) < 1e-12, "element of a solution", text);
    }
  }
  c.trace([&] { return text; });
  c.state(text);
}

// What a problem cannot do without.
void Defaults(mc::Ctx& c) {
  const bool t = c.flip(), x = c.flip(), k = c.flip(), scalar = c.flip();
  const std::string text = std::string(t ? "t0 " : "") + (x ? "x0 " : "") + (k ? "k " : "") + (scalar ? "scalar" : "vector");
  c.state(text);
  c.trace([&] { return text; });
  c.op();
  const std::optional<double> t0 = t ? std::optional<double>(1.) : std::nullopt;
  const std::optional<Vector> k0 = k ? std::optional<Vector>(Of({1.})) : std::nullopt;
  c.nontrivial(!(t && x && k));
  bool threw;
  if (scalar) {
    using P = ScalarInitialValueProblem<double>;
    threw = mc::Throws([&] { P([](const double&, const double&, const Vector&) { return 1.; }, P::ScalarOdeContext(t0, x ? std::optional<double>(2.) : std::nullopt, k0)); });
  } else {
    using P = InitialValueProblem<double>;
    threw = mc::Throws([&] { P([](const double&, const Vector& s, const Vector&) { return s; }, P::OdeContext(t0, x ? std::optional<Vector>(Of({2.})) : std::nullopt, k0)); });
  }
  c.expect(threw == !(t && x && k), "missing default", text);
  // An integral starts at 0 and has no parameters when nothing is said.
  using A = AntiderivativeFunction<double>;
  int size = -1;
  const auto f = [&size](const double& u, const Vector& q) {
    size = q.size();
    return 2. * u;
  };
  const A a = t || k ? A(f, A::IntegrableFunctionContext(t0, k0)) : A(f);
  const double lower = t ? 1. : 0.;
  for (double u : {lower, lower + .5, lower + 2.}) {
    const double got = a.Evaluate(u);
    c.expect(std::abs(got - (u * u - lower * lower)) < 1e-3, "integral", [&] { return text + " to " + Say(u) + " is " + Say(got); });
  }
  c.expect(size == (k ? 1 : 0), "parameters of the function", text);
  c.expect(mc::Throws([&] { a.Evaluate(lower - .25); }) && mc::Throws([&] { a.MakeDenseEvalFunction(lower - .25); }), "integral before its start", text);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"vector problems", "every history of up to 3 (thorough: 4) solutions, with defaults and given values", [](mc::Ctx& c) { Histories(c, 0); }},
                               {"scalar problems", "every history of up to 3 (thorough: 4) solutions, with defaults and given values", [](mc::Ctx& c) { Histories(c, 1); }},
                               {"antiderivatives", "every history of up to 3 (thorough: 4) integrals, with defaults and given values", [](mc::Ctx& c) { Histories(c, 2); }},
                               {"defaults", "which defaults are given", Defaults}});
}
