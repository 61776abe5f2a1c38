// The logger, and the assertions that report broken preconditions.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "maliput/common/assertion_error.h"
#include "maliput/common/logger.h"
#include "maliput/common/maliput_abort.h"
#include "maliput/common/maliput_throw.h"
#include "maliput/math/vector.h"
#include "mc.h"

using namespace maliput;
using namespace maliput::common;

namespace {

struct Recorder : SinkBase {
  explicit Recorder(std::vector<std::string>* o) : out(o) {}
  ~Recorder() override { out->push_back("gone"); }
  void log(const std::string& msg) override { out->push_back(msg); }
  void flush() override {}
  std::vector<std::string>* out;
};

const char* kNames[] = {"trace", "debug", "info", "warn", "error", "critical", "off", "unchanged"};
const char* kPrefixes[] = {"[TRACE] ", "[DEBUG] ", "[INFO] ", "[WARNING] ", "[ERROR] ", "[CRITICAL] "};

template <typename... A>
void Say(Logger* l, int level, const A&... a) {
  switch (level) {
    case 0:
      return l->trace(a...);
    case 1:
      return l->debug(a...);
    case 2:
      return l->info(a...);
    case 3:
      return l->warn(a...);
    case 4:
      return l->error(a...);
    default:
      return l->critical(a...);
  }
}

// Every history of levels, sinks and messages, of the global logger or of one.
void Histories(mc::Ctx& c) {
  const bool global = c.flip();
  std::vector<std::string> got[3];  // Of each sink; the first is the standard output.
  std::vector<std::string> want[3];
  Logger own;
  struct Reset {
    ~Reset() {
      log()->set_sink(std::make_unique<Sink>());
      log()->set_level(logger::level::info);
    }
  } reset;
  Logger* l = global ? log() : &own;
  c.expect(log() == log(), "the logger", "");
  int level = 2;
  if (global) set_log_level("info");
  int sink = 0;
  std::ostringstream text;
  std::ostringstream console;
  std::streambuf* const before = std::cout.rdbuf(console.rdbuf());
  struct Restore {
    std::streambuf* b;
    ~Restore() { std::cout.rdbuf(b); }
  } restore{before};
  std::string printed;
  if (global) l->set_sink(std::make_unique<Sink>());
  const int length = mc::Thorough() ? 4 : 3;
  for (int step = 0; step < length; ++step) {
    const int op = c.choose(5);
    if (op == 4) break;
    c.op();
    if (op == 0) {
      const int to = c.choose(8);
      text << " level " << kNames[to];
      const std::string previous = global && c.flip() ? set_log_level(kNames[to]) : l->set_level(static_cast<logger::level>(to));
      c.expect(previous == kNames[level], "previous level", [&] { return text.str() + ": " + previous; });
      if (to != 7) level = to;
    } else if (op == 1) {
      const int to = c.choose(3);
      text << " sink " << to;
      if (to == 2) {
        SinkBase* const at = l->get_sink();
        c.expect(mc::Throws([&] { l->set_sink(nullptr); }) && l->get_sink() == at, "no sink accepted", text.str());
        continue;
      }
      if (sink != 0) want[sink].push_back("gone");
      if (to == 0 && sink != 0) {
        l->set_sink(std::make_unique<Sink>());
        sink = 0;
      } else {
        sink = sink == 1 ? 2 : 1;
        auto r = std::make_unique<Recorder>(&got[sink]);
        SinkBase* const at = r.get();
        l->set_sink(std::move(r));
        c.expect(l->get_sink() == at, "sink", text.str());
      }
    } else if (op == 2) {
      const int at = c.choose(6);
      text << " " << kNames[at];
      const int kind = c.choose(8);
      std::string message;
      const std::string twice = "a";
      if (kind == 0) Say(l, at, "x");
      if (kind == 0) message = "x";
      if (kind == 1) Say(l, at, "count: ", 3, ' ', -.5, twice, twice);
      if (kind == 1) message = "count: 3 -0.5aa";
      if (kind == 2) Say(l, at, math::Vector2(1., 2.), "%s {}", true);
      if (kind == 2) message = math::Vector2(1., 2.).to_str() + "%s {}1";
      if (kind == 3) Say(l, at, "");
      if (kind == 4) Say(l, at, "a", std::string(), "b", "", "\t c ", std::string(3, '\0'), -1e300);
      if (kind == 4) message = "ab\t c " + std::string(3, '\0') + "-1e+300";
      if (kind == 5) Say(l, at, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, "\n", std::string(5000, 'x'));
      if (kind == 5) message = "1234567891011121314151617181920\n" + std::string(5000, 'x');
      if (kind == 6) Say(l, at, std::string(70000, 'y'), "end", 7);
      if (kind == 6) message = std::string(70000, 'y') + "end7";
      if (kind == 7) Say(l, at);
      if (at < level) continue;
      c.nontrivial();
      if (sink == 0) {
        printed += kPrefixes[at] + message + "\n\n";
      } else {
        want[sink].push_back(kPrefixes[at] + message + "\n");
      }
    } else {
      static const char* kBad[] = {"", "warning", "INFO", "Off", "trace "};
      const char* name = kBad[c.choose(5)];
      text << " level '" << name << "'";
      c.expect(mc::Throws([&] { set_log_level(name); }), "unknown level accepted", text.str());
    }
    for (int s = 1; s < 3; ++s) {
      c.expect(got[s] == want[s], "messages of a sink", [&] { return text.str() + ": " + std::to_string(got[s].size()) + " instead of " + std::to_string(want[s].size()) + (got[s].empty() ? "" : " " + got[s].back()); });
    }
    // The standard output holds the same lines, empty ones aside.
    const auto lines = [](const std::string& s) {
      std::istringstream is(s);
      std::string r, x;
      while (std::getline(is, x)) r += x.empty() ? "" : x + "\n";
      return r;
    };
    c.expect(lines(console.str()) == lines(printed), "messages of the standard output", [&] { return text.str() + ": " + console.str(); });
  }
  c.trace([&] { return text.str(); });
  c.state(text.str());
}

// Assertions, with side effects that must happen once.
void Assertions(mc::Ctx& c) {
  const int macro = c.choose(6);
  const int value = c.choose(7) - 3;
  const std::string text = std::to_string(macro) + " " + std::to_string(value);
  c.state(text);
  c.op();
  int evaluated = 0;
  const auto holds = [&] {
    ++evaluated;
    return value > 0;
  };
  std::string what;
  bool threw = false, after = false;
  const auto run = [&](auto f) {
    try {
      f();
      after = true;
    } catch (const assertion_error& e) {
      threw = true;
      what = e.what();
    }
  };
  switch (macro) {
    case 0:
      run([&] { MALIPUT_THROW_UNLESS(holds()); });
      c.expect(threw == (value <= 0) && evaluated == 1, "assertion", text);
      if (threw) c.expect(what.find("holds()") != std::string::npos && what.find("c27.cc") != std::string::npos, "what failed", what);
      break;
    case 1:
      run([&] { MALIPUT_VALIDATE(holds(), "value is " + std::to_string(value)); });
      c.expect(threw == (value <= 0) && evaluated == 1, "validation", text);
      if (threw) c.expect(what.find("value is " + std::to_string(value)) != std::string::npos, "what failed", what);
      break;
    case 2:
      run([&] { MALIPUT_THROW_MESSAGE("wrong " + std::to_string(value)); });
      c.expect(threw && what.find("wrong " + std::to_string(value)) != std::string::npos, "message", what);
      break;
    case 3: {
      const int low = c.choose(4) - 2, high = c.choose(4) - 1;
      run([&] { MALIPUT_IS_IN_RANGE(value, low, high); });
      c.expect(threw == (value < low || value > high), "range", [&] { return text + " in " + std::to_string(low) + " " + std::to_string(high); });
      break;
    }
    case 4: {  // In a branch without braces.
      bool other = false;
      run([&] {
        if (value == 0)
          MALIPUT_THROW_UNLESS(holds());
        else
          other = true;
      });
      c.expect(threw == (value == 0) && other == (value != 0), "assertion in a branch", text);
      break;
    }
    default: {  // Demands end the process.
      int channel[2];
      if (pipe(channel) != 0) throw std::runtime_error("pipe");
      const pid_t p = fork();
      if (p == 0) {
        dup2(channel[1], 2);
        close(channel[0]);
        close(channel[1]);
        MALIPUT_DEMAND(value > 0);
        if (value == 2) MALIPUT_ABORT_MESSAGE("end of it");
        _exit(7);
      }
      close(channel[1]);
      std::string said;
      char buffer[256];
      ssize_t n;
      while ((n = read(channel[0], buffer, sizeof buffer)) > 0 || (n < 0 && errno == EINTR)) said.append(buffer, std::max<ssize_t>(n, 0));
      close(channel[0]);
      int status = 0;
      waitpid(p, &status, 0);
      const bool aborted = WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT;
      c.expect(aborted == (value <= 0 || value == 2) && (aborted || (WIFEXITED(status) && WEXITSTATUS(status) == 7)), "demand", text);
      if (aborted) c.expect(said.find(value == 2 ? "end of it" : "value > 0") != std::string::npos && said.find("c27.cc") != std::string::npos, "what failed", said);
      if (!aborted) c.expect(said.empty(), "output without a failure", said);
      return;
    }
  }
  c.nontrivial(threw);
  c.expect(threw != after, "execution goes on after a failed assertion", text);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"histories", "every history of up to 3 (thorough: 4) levels, sinks and messages", Histories},
                               {"assertions", "macros x values", Assertions}});
}
