// Exhaustive exploration engine (stateless search over nondeterministic choices).
//
// A *space* is a function `void run(mc::Ctx& c)`. Every nondeterministic decision of one execution (which operation to
// apply next, which argument, which world) is taken through c.choose(n). The engine enumerates every sequence of
// choices, depth first, and executes the real maliput code once per sequence, comparing it to a reference model with
// c.expect(). The search is sharded into jobs (choice prefixes); each job runs in its own forked process, so that a
// crash, an abort or a hang of the code under test is attributed to the choice sequence that caused it.
#pragma once

#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Fail {  // Deliberately not a std::exception.
  std::string key;
  std::string msg;
};

struct Prune {};  // Abandons the current execution, which is not counted.

class Engine;

class Ctx {
 public:
  // Returns each of 0..n-1, in different executions.
  int choose(int n);
  bool flip() { return choose(2) == 1; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[choose(static_cast<int>(v.size()))];
  }
  // Abandon an execution that is redundant (symmetric to another one) or outside the bound.
  [[noreturn]] void prune() { throw Prune{}; }
  void assume(bool b) {
    if (!b) throw Prune{};
  }
  // Counts `n` operations or queries applied to the implementation.
  void op(uint64_t n = 1) { transitions += n; }
  // Registers a (canonicalised) model state / input configuration.
  void state(uint64_t h) {
    if (states.size() < kMaxStates) {
      states.insert(h);
    } else {
      states_capped = true;
    }
  }
  void state(const std::string& s) { state(Hash(s)); }
  // Counts one case whose outcome is not trivially determined.
  void nontrivial(uint64_t n = 1) { nontrivial_count += n; }
  // Counts `n` comparisons of an observed result to the reference.
  void compared(uint64_t n = 1) { comparisons += n; }
  template <typename F>
  void trace(F&& f) {
    if (tracing) {
      log << f() << "\n";
    }
  }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
  void expect(bool ok, const char* key, const char* msg = "") {
    ++comparisons;
    if (!ok) throw Fail{key, msg};
  }
  void expect(bool ok, const char* key, const std::string& msg) {
    expect(ok, key, msg.c_str());
  }
  template <typename F, typename = decltype(std::declval<F>()())>
  void expect(bool ok, const char* key, F&& msg) {
    ++comparisons;
    if (!ok) throw Fail{key, msg()};
  }
  static uint64_t Hash(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : s) {
      h ^= ch;
      h *= 1099511628211ull;
    }
    return h ^ (h >> 29);
  }

  bool tracing{false};
  std::ostringstream log;
  uint64_t transitions{0};
  uint64_t comparisons{0};
  uint64_t nontrivial_count{0};
  bool states_capped{false};
  std::unordered_set<uint64_t> states;
  static constexpr std::size_t kMaxStates = 3000000;

  // Set by a space that left its process in a state in which nothing more can be executed (e.g. deadlocked threads).
  bool stop_job{false};

  // Engine side.
  std::vector<int> path;    // Choices to replay / taken.
  std::vector<int> widths;  // Number of alternatives at each choice.
  std::size_t pos{0};
  int probe_depth{-1};  // When >= 0, stop (throw ProbeStop) upon choice number probe_depth.
};

struct ProbeStop {
  int width;
};

struct Space {
  std::string name;
  std::string bound;  // Text: what is enumerated.
  std::function<void(Ctx&)> run;
};

// Runs f; returns "" when it returned, the kind of exception otherwise.
enum class Outcome { kOk, kAssertion, kOther };
template <typename F>
Outcome Try(F&& f, std::string* what = nullptr);

bool Thorough();
unsigned Seed();
// Scratch directory of this run.
const std::string& Scratch();

int Main(int argc, char** argv, const std::vector<Space>& spaces);

// Hash helper.
class H {
 public:
  H& operator<<(uint64_t v) {
    h_ ^= v + 0x9e3779b97f4a7c15ull + (h_ << 6) + (h_ >> 2);
    h_ *= 0xff51afd7ed558ccdull;
    h_ ^= h_ >> 32;
    return *this;
  }
  operator uint64_t() const { return h_; }

 private:
  uint64_t h_{0x12345};
};

}  // namespace mc

#include <exception>
namespace mc {
template <typename F>
Outcome Try(F&& f, std::string* what) {
  try {
    f();
    return Outcome::kOk;
  } catch (const std::exception& e) {
    if (what) *what = e.what();
    return Outcome::kOther;
  }
}
template <typename F>
bool Throws(F&& f) {
  return Try(std::forward<F>(f)) != Outcome::kOk;
}
}  // namespace mc
