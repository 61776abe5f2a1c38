// Arc length integrals and their inverses, against closed forms, over every history of queries.
#include <cmath>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "maliput/drake/arc_length_integrator.h"
#include "maliput/drake/inverse_arc_length_integrator.h"
#include "mc.h"

using maliput::drake::ArcLengthIntegrator;
using maliput::drake::IntegratorConfiguration;
using maliput::drake::InverseArcLengthIntegrator;
using maliput::math::Vector2;

namespace {

// A speed, its integral, and bounds: of the fourth derivative of the integral and of its inverse, and of the least speed.
struct Speed {
  const char* name;
  double (*g)(double p, const Vector2& k);
  double (*G)(double p, const Vector2& k);
  double least, most, fourth;
};

const std::vector<Speed> kSpeeds{
    {"constant", [](double, const Vector2& k) { return 2. + k[0] - .5 * k[1]; }, [](double p, const Vector2& k) { return p * (2. + k[0] - .5 * k[1]); }, 1., 4., 0.},
    {"quadratic", [](double p, const Vector2& k) { return 1. + (p - k[0]) * (p - k[0]) * .25; },
     [](double p, const Vector2& k) { return p + (p - k[0]) * (p - k[0]) * (p - k[0]) / 12.; }, 1., 60., 0.},
    {"cubic", [](double p, const Vector2& k) { return 4. + .01 * p * p * p + k[1]; }, [](double p, const Vector2& k) { return (4. + k[1]) * p + .0025 * p * p * p * p; }, 1., 20., .06},
    {"wave", [](double p, const Vector2& k) { return 2.5 + std::cos(p + k[0]) + .25 * k[1]; },
     [](double p, const Vector2& k) { return (2.5 + .25 * k[1]) * p + std::sin(p + k[0]); }, 1., 4., 1.},
    {"parabola", [](double p, const Vector2& k) { return std::sqrt(1. + p * p) * (1. + .5 * k[0]); },
     [](double p, const Vector2& k) { return .5 * (p * std::sqrt(1. + p * p) + std::asinh(p)) * (1. + .5 * k[0]); }, 1., 16., 4.5},
    {"decay", [](double p, const Vector2& k) { return 1.5 + std::exp(-p) + .5 * k[1]; }, [](double p, const Vector2& k) { return (1.5 + .5 * k[1]) * p - std::exp(-p); }, 1., 5., 2.8}};

const std::vector<Vector2> kParameters{{0., 0.}, {1., 0.}, {0., 1.}, {.5, -.25}};
const double kLower[] = {0., -1., 2.5};
const double kImage[] = {0., -3., 1.5};
const double kLengths[] = {0., 1e-7, .3, 1., 2.5, 7.3};
const double kFirst[] = {1e-3, .2};
const double kLargest[] = {.05, .5, 1.};
const double kAccuracy[] = {1e-3, 1e-6, 1e-9};

// Tells how near errors get to what is allowed.
void Calibrate(double error, double allowed, const std::string& text) {
  static double worst = 0;
  const char* path = std::getenv("CALIBRATE");
  if (!path || error <= allowed * worst) return;
  worst = error / allowed;
  FILE* file = fopen(path, "a");
  fprintf(file, "%.4f %g of %g: %s\n", worst, error, allowed, text.c_str());
  fclose(file);
}

std::string Say(double x) {
  std::ostringstream os;
  os.precision(12);
  os << x;
  return os.str();
}

struct Setup {
  const Speed* speed;
  IntegratorConfiguration config;
  Vector2 k;
  double length;
  std::string text;
};

Setup Choose(mc::Ctx& c) {
  Setup s;
  s.speed = &c.pick(kSpeeds);
  s.config.parameter_lower_bound = kLower[c.choose(3)];
  s.config.image_lower_bound = kImage[c.choose(mc::Thorough() ? 3 : 2)];
  s.config.initial_step_size_target = kFirst[c.choose(2)];
  s.config.maximum_step_size = kLargest[c.choose(3)];
  s.config.target_accuracy = kAccuracy[c.choose(3)];
  if (s.config.initial_step_size_target > s.config.maximum_step_size) c.prune();
  const int at = c.choose(4);
  s.k = kParameters[at];
  s.config.k = kParameters[(at + 1) % 4];
  s.length = kLengths[c.choose(6)];
  s.text = std::string(s.speed->name) + " from " + Say(s.config.parameter_lower_bound) + " to " + Say(s.config.image_lower_bound) + " steps " + Say(s.config.initial_step_size_target) + ".." +
           Say(s.config.maximum_step_size) + " accuracy " + Say(s.config.target_accuracy) + " k " + Say(s.k[0]) + "," + Say(s.k[1]) + " by default " + Say(s.config.k[0]) + "," +
           Say(s.config.k[1]) + " length " + Say(s.length);
  return s;
}

// What the accuracy of each step amounts to.
double Allowed(const IntegratorConfiguration& config, double length) { return 1e-9 + config.target_accuracy * (1. + length); }
double Interpolated(const IntegratorConfiguration& config, const Speed& s, double length) {
  return Allowed(config, length) + std::pow(config.maximum_step_size, 4) * s.fourth / 384.;
}

// Values on both sides of an interval and in it, with those they stand for.
template <typename F>
void CheckFunction(mc::Ctx& c, const F& f, double from, double to, double tolerance, const std::function<double(double)>& want, double between, double at_end, const std::string& text) {
  for (double t : {0., .013, .25, .5, .77, 1.}) {
    const double x = from + (to - from) * t;
    c.op();
    const double got = f(x), error = std::abs(got - want(x)), allowed = t == 1. ? at_end : between;  // The end is not interpolated.
    Calibrate(error, allowed, text + " at " + Say(x));
    c.expect(error <= allowed, "value of the function", [&] { return text + " at " + Say(x) + ": " + Say(got) + " instead of " + Say(want(x)); });
  }
  for (double part : {.1, .9}) {
    for (int side = 0; side < 2; ++side) {
      const double x = side ? to + part * tolerance : from - part * tolerance;
      double got = 0;
      const bool threw = mc::Throws([&] { got = f(x); });
      c.expect(!threw && got == f(side ? to : from), "value within the tolerance of the ends", [&] { return text + " at " + Say(x); });
    }
  }
  for (double part : {1.1, 2., 1e6}) {
    for (int side = 0; side < 2; ++side) {
      const double x = side ? to + part * tolerance : from - part * tolerance;
      c.expect(mc::Throws([&] { f(x); }), "value out of range", [&] { return text + " at " + Say(x); });
    }
  }
}

void Integrals(mc::Ctx& c) {
  const Setup s = Choose(c);
  if (s.config.image_lower_bound != 0.) c.prune();  // Not stated for integrals.
  c.trace([&] { return s.text; });
  c.state(s.text);
  const ArcLengthIntegrator dut(s.speed->g, s.config);
  const double lb = s.config.parameter_lower_bound, p = lb + s.length;
  const auto want = [&](double x) { return s.speed->G(x, s.k) - s.speed->G(lb, s.k); };
  c.op();
  const double got = dut.Evaluate(p, s.k), error = std::abs(got - want(p));
  Calibrate(error, Allowed(s.config, s.length), s.text);
  c.expect(error <= Allowed(s.config, s.length), "integral", [&] { return s.text + ": " + Say(got) + " instead of " + Say(want(p)); });
  c.nontrivial(s.length > 0.);
  for (double before : {1e-3, .5, 100.}) {
    c.expect(mc::Throws([&] { dut.Evaluate(lb - before, s.k); }), "integral before its start", s.text);
    c.expect(mc::Throws([&] { dut.IntegralFunction(lb - before, p + 1., s.k, 1e-3); }), "function before its start", s.text);
  }
  if (s.length == 0.) return;  // Not stated: empty intervals.
  const double from = c.flip() ? lb : lb + .4 * s.length;
  const double tolerance = c.flip() ? 1e-3 : 1e-6;
  const auto f = dut.IntegralFunction(from, p, s.k, tolerance);
  CheckFunction(c, f, from, p, tolerance, want, Interpolated(s.config, *s.speed, s.length), Allowed(s.config, s.length), s.text + " from " + Say(from));
}

void Inverses(mc::Ctx& c) {
  const Setup s = Choose(c);
  c.trace([&] { return s.text; });
  c.state(s.text);
  const Speed* speed = s.speed;
  const double lb = s.config.parameter_lower_bound, s0 = s.config.image_lower_bound;
  // Either the inverse of an integral or an equation with both variables.
  const bool both = c.flip();
  if (both && speed != &kSpeeds[0] && speed != &kSpeeds[1]) c.prune();
  const bool growth = both && speed == &kSpeeds[1];
  const double end = both ? s0 + std::min(s.length, 2.5) : s0 + (speed->G(lb + s.length, s.k) - speed->G(lb, s.k));
  const InverseArcLengthIntegrator::ScalarOdeFunction ode = !both    ? InverseArcLengthIntegrator::ScalarOdeFunction([speed](double, double p, const Vector2& k) { return 1. / speed->g(p, k); })
                                                            : growth ? InverseArcLengthIntegrator::ScalarOdeFunction([](double, double p, const Vector2& k) { return .5 * p + k[0]; })
                                                                     : InverseArcLengthIntegrator::ScalarOdeFunction([](double t, double, const Vector2& k) { return t + k[1]; });
  // The solution; that of the inverse is found by bisection.
  const auto want = [&](double x) {
    if (growth) return (lb + 2. * s.k[0]) * std::exp(.5 * (x - s0)) - 2. * s.k[0];
    if (both) return lb + .5 * (x * x - s0 * s0) + s.k[1] * (x - s0);
    double lo = lb, hi = lb + s.length + 1.;
    for (int i = 0; i < 80; ++i) {
      const double mid = .5 * (lo + hi);
      (speed->G(mid, s.k) - speed->G(lb, s.k) < x - s0 ? lo : hi) = mid;
    }
    return lo;
  };
  const InverseArcLengthIntegrator dut(ode, s.config);
  const double length = end - s0;
  const double allowed = (growth ? 10. : 1.) * Allowed(s.config, length);
  c.op();
  const double got = dut.Evaluate(end, s.k), error = std::abs(got - want(end));
  Calibrate(error, allowed, s.text + (both ? " both" : ""));
  c.expect(error <= allowed, "inverse", [&] { return s.text + ": " + Say(got) + " instead of " + Say(want(end)); });
  c.nontrivial(length > 0.);
  for (double before : {1e-3, .5, 100.}) {
    c.expect(mc::Throws([&] { dut.Evaluate(s0 - before, s.k); }), "inverse before its start", s.text);
    c.expect(mc::Throws([&] { dut.InverseFunction(s0 - before, end + 1., s.k, 1e-3); }), "function before its start", s.text);
  }
  if (s.length == 0.) return;
  const double from = c.flip() ? s0 : s0 + .4 * length;
  const double tolerance = c.flip() ? 1e-3 : 1e-6;
  const auto f = dut.InverseFunction(from, end, s.k, tolerance);
  const double h = s.config.maximum_step_size;
  CheckFunction(c, f, from, end, tolerance, want, allowed + h * h * h * h / 384. * 20., allowed, s.text + " from " + Say(from) + (both ? " both" : ""));
}

// Every history of queries of one integrator: each result must be that of a new one. A query may be interrupted by its
// function at any of its evaluations.
struct Interrupted : std::runtime_error {
  Interrupted() : std::runtime_error("interrupted") {}
};

void Histories(mc::Ctx& c) {
  const Speed& speed = kSpeeds[c.flip() ? 3 : 1];
  const bool inverse = c.flip();
  IntegratorConfiguration config;
  config.parameter_lower_bound = -1.;
  config.image_lower_bound = inverse ? 1.5 : 0.;
  config.initial_step_size_target = 1e-2;
  config.maximum_step_size = 1.;
  config.target_accuracy = 1e-7;
  config.k = kParameters[0];
  int countdown = -1;
  const auto tick = [&countdown] {
    if (countdown >= 0 && countdown-- == 0) throw Interrupted();
  };
  const auto integral = inverse ? nullptr : std::make_unique<ArcLengthIntegrator>([&](double p, const Vector2& k) { tick(); return speed.g(p, k); }, config);
  const auto inverted = inverse ? std::make_unique<InverseArcLengthIntegrator>([&](double, double p, const Vector2& k) { tick(); return 1. / speed.g(p, k); }, config) : nullptr;
  const double lb = config.parameter_lower_bound;
  const auto distance = [&](double p, const Vector2& k) { return speed.G(p, k) - speed.G(lb, k) + config.image_lower_bound; };
  struct Kept {
    std::function<double(double)> f;
    Vector2 k;
    double to;
  };
  std::vector<Kept> kept;
  static const std::vector<double> at{0., .7, 2., 2.1};
  std::string text = std::string(inverse ? "inverse of " : "") + speed.name;
  const int length = mc::Thorough() ? 4 : 3;
  bool interrupted = false;
  for (int step = 0; step < length; ++step) {
    const int op = c.choose(interrupted ? 3 : 4);
    if (op == 2) break;
    const Vector2& k = kParameters[c.choose(2) * 3];
    const double p = lb + c.pick(at);
    // The integral is asked at parameters, the inverse at distances.
    const double x = inverse ? distance(p, k) : p, want = inverse ? p : distance(p, k);
    c.op();
    text += std::string(op == 0 ? " value " : op == 1 ? " function " : " interrupted ") + Say(p) + "," + Say(k[0]);
    if (op == 0) {
      const double got = inverse ? inverted->Evaluate(x, k) : integral->Evaluate(x, k);
      c.expect(std::abs(got - want) <= (Calibrate(std::abs(got - want), Allowed(config, p - lb), text), Allowed(config, p - lb)), "value after other queries", [&] { return text + ": " + Say(got) + " instead of " + Say(want); });
      c.nontrivial(step > 0);
    } else if (op == 1) {
      if (p == lb) c.prune();
      const double first = inverse ? config.image_lower_bound : lb;
      kept.push_back({inverse ? inverted->InverseFunction(first, x, k, 1e-3) : integral->IntegralFunction(first, x, k, 1e-3), k, p});
    } else {
      interrupted = true;
      const bool function = c.flip();
      if (p == lb) c.prune();
      static const std::vector<int> evaluations{0, 1, 2, 3, 5, 8, 13, 25};
      countdown = mc::Thorough() ? c.choose(30) : c.pick(evaluations);
      text += function ? " function" : " value";
      text += " after " + std::to_string(countdown);
      bool threw = false;
      try {
        if (function) {
          inverse ? inverted->InverseFunction(config.image_lower_bound, x, k, 1e-3) : integral->IntegralFunction(lb, x, k, 1e-3);
        } else {
          inverse ? inverted->Evaluate(x, k) : integral->Evaluate(x, k);
        }
      } catch (const Interrupted&) {
        threw = true;
      }
      if (!threw) c.prune();
      countdown = -1;
    }
    for (const auto& f : kept) {
      for (double t : {0., .3, 1.}) {
        const double q = lb + (f.to - lb) * t, y = inverse ? distance(q, f.k) : q, value = inverse ? q : distance(q, f.k);
        const double got = f.f(y);
        c.expect(std::abs(got - value) < (t == 1. ? Allowed(config, f.to - lb) : 1e-3), "function after other queries", [&] { return text + " at " + Say(y) + ": " + Say(got) + " instead of " + Say(value); });
      }
    }
  }
  c.trace([&] { return text; });
  c.state(text);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"integrals", "speeds x bounds x steps x accuracies x parameters x lengths", Integrals},
                               {"inverses", "inverses of the same and equations in both variables", Inverses},
                               {"histories", "every history of up to 3 (thorough: 4) queries, one of them interrupted at any evaluation", Histories}});
}
