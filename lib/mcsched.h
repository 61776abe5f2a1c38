// Controlled scheduler: runs a multi-threaded program on real threads, one at a time, and enumerates (through
// mc::Ctx::choose) every schedule within a preemption bound. Synchronisation calls (pthread, futex) are interposed and
// atomics are intercepted through the instrumentation of -fsanitize=thread, for which sched.cc is the runtime; plain
// memory accesses to the heap are checked for data races (vector clocks) and uses after free.
#pragma once

#include <functional>

#include "mc.h"

namespace sched {

struct Options {
  int preemptions{2};  // Switches away from a thread that could continue.
  int spurious{0};     // Condition variable waits that return without a notification.
};

// Throws mc::Fail upon deadlock, livelock, data race or use after free, and whatever `body` throws.
void Run(mc::Ctx& c, const Options& options, const std::function<void()>& body);

// Adds a line to the trace of the execution.
void Note(const char* what, long value = -1);

// Number of the calling thread (0: body), -1 outside of Run().
int Self();

}  // namespace sched
