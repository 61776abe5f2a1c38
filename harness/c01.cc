// C01: thread pool. Every schedule (within a preemption bound) of every small program over the pool's operations, run
// on the real maliput::utility::ThreadPool under the controlled scheduler of lib/sched.
#include <future>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "maliput/utility/thread_pool.h"
#include "mc.h"
#include "mcsched.h"

using maliput::utility::ThreadPool;

namespace {

struct TaskError {
  int id;
};

enum class Kind { kReturn, kThrow, kVoid, kNest, kCancelInside };

// What is known about one task. Written by the thread that runs it; the scheduler runs one thread at a time.
struct Task {
  Kind kind{Kind::kReturn};
  bool accepted{false};
  int runs{0};
  int begun_at{-1}, ended_at{-1};
  int by{-1};
  bool may_cancel{false};   // A cancellation happened while it was queued.
  bool must_cancel{false};  // It was cancelled for certain: no worker could have taken it.
  std::future<int> f;
  std::future<void> fv;
  int* payload{nullptr};  // Plain memory written by the task, read by the owner once the future is ready.
};

struct Run {
  mc::Ctx& c;
  std::unique_ptr<ThreadPool> pool;
  Task tasks[24];  // Outside of the scheduler's heap: not subject to race detection.
  int n{0};
  int workers{1};
  bool ordered{true};  // Tasks are queued by one thread.
  int clock{0};
  bool started{false};
  bool finished{false};
  bool finish_returned{false};
  const char* bad_key{nullptr};
  const char* bad{nullptr};
  int bad_id{-1};

  explicit Run(mc::Ctx& ctx) : c(ctx) {}

  // Failures are raised once the program ended (a throw inside of a task would land in its future).
  void Expect(bool ok, const char* key, const char* msg, int id = -1) {
    c.compared();
    if (!ok && bad_key == nullptr) {
      bad_key = key;
      bad = msg;
      bad_id = id;
    }
  }

  void Begin(int id) {
    Task& t = tasks[id];
    ++t.runs;
    t.begun_at = clock++;
    t.by = sched::Self();
    sched::Note("task begins", id);
    Expect(t.runs == 1, "task-run-twice", "a task was executed more than once", id);
    Expect(t.by != 0, "task-on-owner", "a task was executed by the thread that owns the pool");
    Expect(started || finished, "task-before-start", "a task was executed before Start()");
    Expect(!finish_returned, "task-after-finish", "a task was executed after Finish() returned");
    Expect(!t.must_cancel, "cancelled-task-run", "a task that was cancelled before any thread was started was executed");
  }
  void End(int id) {
    tasks[id].ended_at = clock++;
    sched::Note("task ends", id);
  }

  // Returns whether Queue() threw.
  bool Queue(Kind kind, int* out = nullptr) {
    const int id = n++;
    Task* t = &tasks[id];
    if (out) *out = id;
    t->kind = kind;
    t->payload = new int(-1);
    int* payload = t->payload;
    try {
      switch (kind) {
        case Kind::kReturn:
          t->f = pool->Queue([this, id, payload]() {
            Begin(id);
            *payload = 7 + id;
            End(id);
            return 100 + id;
          });
          break;
        case Kind::kThrow:
          t->f = pool->Queue([this, id, payload]() -> int {
            Begin(id);
            *payload = 7 + id;
            End(id);
            throw TaskError{id};
          });
          break;
        case Kind::kVoid:
          t->fv = pool->Queue([this, id, payload]() {
            Begin(id);
            *payload = 7 + id;
            End(id);
          });
          break;
        case Kind::kNest:
          ordered = false;
          t->f = pool->Queue([this, id, payload]() {
            Begin(id);
            *payload = 7 + id;
            // A task may queue another one, unless the pool was finished in the meantime.
            int nested = -1;
            const bool threw = Queue(Kind::kReturn, &nested);
            if (!finished) Expect(!threw, "queue-rejected", "Queue() threw before Finish() was called");
            End(id);
            return 100 + id;
          });
          break;
        case Kind::kCancelInside:
          t->f = pool->Queue([this, id, payload]() {
            Begin(id);
            *payload = 7 + id;
            MarkCancelled();
            pool->cancel_pending();
            End(id);
            return 100 + id;
          });
          break;
      }
    } catch (const std::exception&) {
      t->accepted = false;
      return true;
    }
    t->accepted = true;
    return false;
  }

  void MarkCancelled() {
    for (int i = 0; i < n; ++i) {
      Task& t = tasks[i];
      if (t.runs == 0) {
        t.may_cancel = true;
        if (!started && !finished && t.accepted) t.must_cancel = true;
      }
    }
  }
  void Cancel() {
    MarkCancelled();
    pool->cancel_pending();
  }
  void Start() {
    started = true;
    pool->Start();
  }
  void Finish() {
    finished = true;
    pool->Finish();
    finish_returned = true;
    Expect(!pool->is_running(), "running-after-finish", "is_running() after Finish()");
    for (int i = 0; i < n; ++i) {
      Task& t = tasks[i];
      if (!t.accepted || t.may_cancel) continue;
      Expect(t.runs == 1 && t.ended_at >= 0, "finish-abandons-task",
             "Finish() returned before a task was executed", i);
    }
  }
  void Destroy() {
    finished = true;
    pool.reset();
    finish_returned = true;
  }

  // The outcome of task i, whose future must be (or become) ready.
  void Outcome(int i, bool must_be_ready) {
    Task& t = tasks[i];
    if (!t.accepted) return;
    if (must_be_ready) {
      const bool ready = t.kind == Kind::kVoid ? t.fv.wait_for(std::chrono::seconds(0)) == std::future_status::ready
                                               : t.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
      Expect(ready, "future-not-ready", "a future is not ready after the pool ended", i);
      if (!ready) return;
    }
    int value = -1, error = -1;
    bool broken = false;
    try {
      if (t.kind == Kind::kVoid) {
        t.fv.get();
        value = 100 + i;
      } else {
        value = t.f.get();
      }
    } catch (const TaskError& e) {
      error = e.id;
    } catch (const std::future_error& e) {
      broken = e.code() == std::future_errc::broken_promise;
    }
    if (broken) {
      Expect(t.runs == 0, "broken-promise", "a task was executed but its future holds no result", i);
      Expect(t.may_cancel, "abandoned", "a task was never executed although nothing cancelled it", i);
      return;
    }
    Expect(t.runs == 1, "runs", "a future is ready although its task was not executed once", i);
    if (t.kind == Kind::kThrow) {
      Expect(error == i, "exception-lost", "the exception of a task did not reach its future", i);
    } else {
      Expect(value == 100 + i, "value", "a future holds another value", i);
    }
    // Read by this thread without any synchronisation but the future's.
    Expect(Read(t.payload) == 7 + i, "effects", "the effects of a task are not visible once its future is ready", i);
  }
  __attribute__((noinline)) static int Read(const int* p) { return *p; }

  void Conclude() {
    for (int i = 0; i < n; ++i) {
      const bool valid = tasks[i].f.valid() || tasks[i].fv.valid();
      if (valid) Outcome(i, true);
    }
    if (workers == 1 && ordered) {
      // A single thread takes tasks in the order in which they were queued.
      int last = -1;
      for (int i = 0; i < n; ++i) {
        if (tasks[i].runs == 0) continue;
        Expect(tasks[i].begun_at > last, "order", "a single thread executed the tasks in another order than they were queued");
        last = tasks[i].begun_at;
      }
    }
    int ran = 0;
    for (int i = 0; i < n; ++i) ran += tasks[i].runs;
    if (ran > 0) c.nontrivial();
  }
};

// Runs `program` under the scheduler.
template <typename F>
void Execute(mc::Ctx& c, int workers, int preemptions, int spurious, F&& program) {
  // Left alone when threads are stuck in it.
  Run* const run = new Run(c);
  Run& r = *run;
  r.workers = workers;
  sched::Options o;
  o.preemptions = preemptions;
  o.spurious = spurious;
  sched::Run(c, o, [&]() {
    r.pool = std::make_unique<ThreadPool>(workers);
    program(r);
    if (r.pool) r.Destroy();
    r.Conclude();
    // What lives in the scheduler's heap goes away with it.
    for (Task& t : r.tasks) t.f = std::future<int>(), t.fv = std::future<void>();
  });
  const std::unique_ptr<Run> owner(run);
  if (r.bad_key) c.fail(r.bad_key, r.bad + (r.bad_id >= 0 ? " (task " + std::to_string(r.bad_id) + ")" : std::string()));
}

// Function-local statics of the standard library and the loader are initialised once, outside of the search.
void WarmUp() {
  static bool done = false;
  if (done) return;
  done = true;
  ThreadPool p(1);
  p.Start();
  auto f = p.Queue([]() -> int { throw TaskError{0}; });
  try {
    f.get();
  } catch (const TaskError&) {
  }
  p.Finish();
  try {
    p.Start();
  } catch (const std::exception&) {
  }
}

// ---- Every program of the owner up to a length.
void Programs(mc::Ctx& c, int workers, int len, int preemptions) {
  WarmUp();
  // 0 queue, 1 start, 2 finish, 3 cancel, 4 wait for the last task, 5 is_running
  std::vector<int> ops;
  bool started = false, finished = false;
  int queued = 0;
  bool last_is_query = false;
  for (int i = 0; i < len; ++i) {
    const int op = c.choose(7);
    if (op == 6) break;  // End of the program.
    // Redundant: asking twice in a row, waiting without a task.
    if (op == 4) c.assume(queued > 0 && (started || finished));
    if (op == 5) c.assume(!last_is_query);
    last_is_query = op == 5;
    if (op == 0) ++queued;
    if (op == 1 && !finished) started = true;
    if (op == 2) finished = true;
    ops.push_back(op);
  }
  c.trace([&] {
    static const char* kN[] = {"Queue", "Start", "Finish", "cancel_pending", "get", "is_running"};
    std::string s = "workers=" + std::to_string(workers) + ":";
    for (int o : ops) s += std::string(" ") + kN[o];
    return s + " ~ThreadPool";
  });
  Execute(c, workers, preemptions, 0, [&](Run& r) {
    for (int op : ops) {
      switch (op) {
        case 0: {
          const bool threw = r.Queue(Kind::kReturn);
          r.Expect(threw == r.finished, "queue-misuse", "Queue() throws exactly when Finish() was called");
          break;
        }
        case 1: {
          const bool legal = !r.started && !r.finished;
          const bool was_started = r.started;
          if (legal) r.started = true;
          bool threw = false;
          try {
            r.pool->Start();
          } catch (const std::exception&) {
            threw = true;
          }
          r.Expect(threw == !legal, "start-misuse", "Start() throws exactly when the pool was started or finished before");
          (void)was_started;
          break;
        }
        case 2:
          r.Finish();
          break;
        case 3:
          r.Cancel();
          break;
        case 4: {
          int k = r.n;
          while (k > 0 && !r.tasks[k - 1].accepted) --k;
          if (k > 0 && r.tasks[k - 1].f.valid()) r.Outcome(k - 1, false);
          break;
        }
        case 5:
          r.Expect(r.pool->is_running() == (r.started && !r.finished), "is-running",
                   "is_running() is true between Start() and Finish()");
          break;
      }
    }
  });
}

// ---- Shapes with more threads or deeper schedules.
void Shape(mc::Ctx& c, int max_workers, int preemptions, int max_tasks) {
  WarmUp();
  const int workers = 1 + c.choose(max_workers);
  const int before = c.choose(max_tasks + 1);
  const int after = c.choose(max_tasks + 1 - before);
  const int kind = c.choose(4);
  c.assume(before + after > 0);
  c.trace([&] {
    return "workers=" + std::to_string(workers) + " queued before Start: " + std::to_string(before) +
           ", after: " + std::to_string(after) + ", kind " + std::to_string(kind);
  });
  Execute(c, workers, preemptions, 0, [&](Run& r) {
    const Kind kinds[4] = {Kind::kReturn, Kind::kThrow, Kind::kVoid, Kind::kNest};
    for (int i = 0; i < before; ++i) r.Queue(kinds[kind]);
    r.Start();
    for (int i = 0; i < after; ++i) r.Queue(kinds[kind]);
    r.Finish();
  });
}

void Waiting(mc::Ctx& c, int max_workers, int preemptions, int spurious, int tasks) {
  WarmUp();
  const int workers = 1 + c.choose(max_workers);
  const bool nest = c.flip();
  c.trace([&] { return "workers=" + std::to_string(workers) + ", each result is waited for before Finish()"; });
  Execute(c, workers, preemptions, spurious, [&](Run& r) {
    r.Start();
    for (int i = 0; i < tasks; ++i) {
      int id = -1;
      r.Queue(nest ? Kind::kNest : Kind::kReturn, &id);
      r.Outcome(id, false);
    }
  });
}

void Cancelling(mc::Ctx& c, int max_workers, int preemptions) {
  WarmUp();
  const int workers = 1 + c.choose(max_workers);
  const int where = c.choose(3);
  const bool later = c.flip();
  c.trace([&] {
    return "workers=" + std::to_string(workers) + ", cancelled " +
           (where == 0 ? "before Start" : where == 1 ? "after Start" : "by a task") + (later ? ", another task later" : "");
  });
  Execute(c, workers, preemptions, 0, [&](Run& r) {
    if (where == 2) r.Queue(Kind::kCancelInside);
    r.Queue(Kind::kReturn);
    r.Queue(Kind::kThrow);
    if (where == 0) r.Cancel();
    r.Start();
    if (where == 1) r.Cancel();
    if (later) {
      int id = -1;
      r.Queue(Kind::kReturn, &id);
      if (where != 2) r.Outcome(id, false);
    }
    r.Finish();
  });
}

// As many tasks run at the same time as there are threads: each task waits until all of them began.
void Parallel(mc::Ctx& c, int max_workers, int preemptions) {
  WarmUp();
  const int workers = 2 + c.choose(max_workers - 1);
  const int before = c.choose(workers + 1);
  c.trace([&] { return std::to_string(workers) + " tasks that wait for each other, " + std::to_string(before) + " queued before Start()"; });
  Execute(c, workers, workers > 2 ? preemptions - 1 : preemptions, 0, [&](Run& r) {
    std::vector<std::promise<void>> began(workers);
    std::vector<std::shared_future<void>> all;
    for (auto& p : began) all.push_back(p.get_future().share());
    std::vector<std::future<void>> done;
    for (int i = 0; i <= workers; ++i) {
      if (i == before) {
        r.started = true;
        r.pool->Start();
      }
      if (i == workers) break;
      done.push_back(r.pool->Queue([&began, &all, i]() {
        began[i].set_value();
        for (auto f : all) f.wait();
      }));
    }
    for (auto& f : done) f.get();
    c.nontrivial();
  });
}

void Producers(mc::Ctx& c, int workers, int preemptions) {
  WarmUp();
  const int when = c.choose(3);
  c.trace([&] { return "two producer threads, Start " + std::string(when == 0 ? "before" : when == 1 ? "while" : "after") + " they run"; });
  Execute(c, workers, preemptions, 0, [&](Run& r) {
    if (when == 0) r.Start();
    std::thread a([&] { r.Queue(Kind::kReturn); });
    std::thread b([&] { r.Queue(Kind::kVoid); });
    if (when == 1) r.Start();
    a.join();
    b.join();
    if (when == 2) r.Start();
    r.Finish();
    r.ordered = false;
  });
}

void Rejects(mc::Ctx& c) {
  c.expect(mc::Throws([] { ThreadPool p(0); }), "zero-threads", "a pool of zero threads was accepted");
  c.op();
  c.nontrivial();
  c.state(1);
}

}  // namespace

int main(int argc, char** argv) {
  const bool t = mc::Thorough();
  std::vector<mc::Space> s;
  auto add = [&](const std::string& n, const std::string& b, std::function<void(mc::Ctx&)> f) { s.push_back({n, b, f}); };
  const int len1 = t ? 5 : 4, len2 = t ? 4 : 3;
  add("programs-1", "every program of up to " + std::to_string(len1) + " operations over {Queue, Start, Finish, cancel_pending, get, is_running} and the destructor, 1 thread, every schedule with up to 2 preemptions",
      [=](mc::Ctx& c) { Programs(c, 1, len1, 2); });
  add("programs-2", "every program of up to " + std::to_string(len2) + " operations, 2 threads, every schedule with up to " + (t ? "2" : "1") + " preemptions",
      [=](mc::Ctx& c) { Programs(c, 2, len2, t ? 2 : 1); });
  add("shape", "queue before/after Start, 1..2 threads, up to 2 tasks, tasks returning/throwing/void/queueing, every schedule with up to 2 preemptions",
      [=](mc::Ctx& c) { Shape(c, 2, t ? 3 : 2, 2); });
  add("shape-wide", "1..3 threads, up to 3 tasks, every schedule with up to 1 preemption",
      [=](mc::Ctx& c) { Shape(c, 3, t ? 2 : 1, 3); });
  add("waiting-1", "the owner waits for one result, 1..2 threads, up to " + std::string(t ? "2 preemptions" : "1 preemption") + " and 1 spurious wake-up",
      [=](mc::Ctx& c) { Waiting(c, 2, t ? 2 : 1, 1, 1); });
  add("waiting-0", "the owner waits for each of two results, 1..2 threads, up to 2 preemptions, no spurious wake-up",
      [=](mc::Ctx& c) { Waiting(c, 2, 2, 0, 2); });
  add("waiting-2", "the owner waits for each of two results, 1..2 threads, up to " + std::string(t ? "2 preemptions" : "1 preemption") + " and 1 spurious wake-up",
      [=](mc::Ctx& c) { Waiting(c, 2, t ? 2 : 1, 1, 2); });
  add("cancelling", "cancellation before Start, after Start and from inside of a task",
      [=](mc::Ctx& c) { Cancelling(c, 2, t ? 3 : 2); });
  add("parallel", "as many tasks as threads, each waiting for all others to begin, 2 threads (up to 1 preemption; thorough 2) and 3 threads (one less)",
      [=](mc::Ctx& c) { Parallel(c, 3, t ? 2 : 1); });
  add("producers", "two producer threads next to the owner, 1 worker",
      [=](mc::Ctx& c) { Producers(c, 1, t ? 2 : 1); });
  add("rejects", "construction with zero threads", Rejects);
  return mc::Main(argc, argv, s);
}
