#include "mcsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>

namespace {

constexpr int kMaxThreads = 12;
constexpr long kMaxSteps = 20000;

// ---- Real functions.

template <typename F>
F Real(const char* name, const char* version = nullptr) {
  void* p = version ? dlvsym(RTLD_NEXT, name, version) : nullptr;
  if (!p) p = dlsym(RTLD_NEXT, name);
  if (!p) abort();
  return reinterpret_cast<F>(p);
}

#define REAL(name) (*real_##name())
#define DECLARE_REAL(name, version)              \
  decltype(&name) real_##name() {                \
    static decltype(&name) f = nullptr;          \
    if (!f) f = Real<decltype(&name)>(#name, version); \
    return f;                                    \
  }

DECLARE_REAL(pthread_create, nullptr)
DECLARE_REAL(pthread_join, nullptr)
DECLARE_REAL(pthread_detach, nullptr)
DECLARE_REAL(pthread_mutex_lock, nullptr)
DECLARE_REAL(pthread_mutex_trylock, nullptr)
DECLARE_REAL(pthread_mutex_unlock, nullptr)
DECLARE_REAL(pthread_cond_wait, "GLIBC_2.3.2")
DECLARE_REAL(pthread_cond_timedwait, "GLIBC_2.3.2")
DECLARE_REAL(pthread_cond_clockwait, nullptr)
DECLARE_REAL(pthread_cond_signal, "GLIBC_2.3.2")
DECLARE_REAL(pthread_cond_broadcast, "GLIBC_2.3.2")
DECLARE_REAL(pthread_rwlock_rdlock, nullptr)
DECLARE_REAL(pthread_rwlock_wrlock, nullptr)
DECLARE_REAL(pthread_rwlock_unlock, nullptr)
DECLARE_REAL(pthread_once, nullptr)
DECLARE_REAL(sched_yield, nullptr)
DECLARE_REAL(nanosleep, nullptr)
DECLARE_REAL(clock_nanosleep, nullptr)
using SyscallFn = long (*)(long, ...);
SyscallFn RealSyscall() {
  static SyscallFn f = nullptr;
  if (!f) f = Real<SyscallFn>("syscall");
  return f;
}

// ---- Threads.

struct Clock {
  uint32_t v[kMaxThreads] = {};
  void Join(const Clock& o) {
    for (int i = 0; i < kMaxThreads; ++i)
      if (o.v[i] > v[i]) v[i] = o.v[i];
  }
};

enum class St { kNone, kRun, kMutex, kCond, kCondTimed, kJoin, kFutex, kFutexTimed, kOnce, kRwRead, kRwWrite, kDone };

struct Th {
  int id{-1};
  St st{St::kNone};
  const void* on{nullptr};  // What it waits for.
  bool woken{false};        // For condition variables / futexes: notified.
  bool timed_out{false};
  int target{-1};  // Joined thread.
  int go{0};       // Handoff futex.
  long ops{0};
  long idle_loads{0};
  bool yielded{false};
  Clock clk;
  pthread_t handle{};
  void* (*fn)(void*){nullptr};
  void* arg{nullptr};
  void* ret{nullptr};
};

template <typename T, int N>
struct Table {  // Small open-addressing map from addresses.
  struct E {
    const void* key;
    T val;
  };
  E e[N];
  int n{0};
  void Clear() { n = 0; }
  T* Find(const void* k) {
    for (int i = 0; i < n; ++i)
      if (e[i].key == k) return &e[i].val;
    return nullptr;
  }
  T* Get(const void* k) {
    T* t = Find(k);
    if (t) return t;
    if (n == N) abort();
    e[n].key = k;
    e[n].val = T();
    return &e[n++].val;
  }
};

struct Mutex {
  int owner{-1};
  int depth{0};
  Clock rel;
};
struct Cond {
  Clock rel;
};
struct Once {
  int state{0};  // 1 running, 2 done.
  int by{-1};
  Clock rel;
};
struct Rw {
  int writer{-1};
  int readers{0};
  Clock rel;
};
struct Atom {
  Clock rel;
};

// Shadow of the arena, per 8 bytes.
struct Shadow {
  uint32_t gen{0};
  uint32_t w_clk{0};
  int8_t w_tid{-1};
  uint8_t w_mask{0};
  uint8_t freed{0};
  uint8_t r_mask[kMaxThreads] = {};
  uint32_t r_clk[kMaxThreads] = {};
};

constexpr size_t kArena = 4u << 20;

struct Global {
  bool active{false};
  mc::Ctx* ctx{nullptr};
  sched::Options opt;
  Th th[kMaxThreads];
  int n{0};
  int cur{0};
  int preemptions{0};
  int spurious{0};
  long steps{0};
  bool no_choice{false};
  std::exception_ptr ctx_exception;
  std::exception_ptr body_exception;
  const std::function<void()>* body{nullptr};
  bool failed{false};
  char fail_key[64];
  char fail_msg[400];
  int end{0};  // Futex for the engine: 1 all threads ended, 2 stuck.
  Table<Mutex, 128> mutexes;
  Table<Cond, 64> conds;
  Table<Once, 128> onces;
  Table<Rw, 32> rws;
  Table<Atom, 512> atoms;
  uint64_t hist{0};
};
Global g;
bool g_leaked = false;

char* g_arena = nullptr;
size_t g_top = 0;
uint32_t g_gen = 1;
Shadow* g_shadow = nullptr;
bool g_arena_on = false;

thread_local Th* self __attribute__((tls_model("initial-exec"))) = nullptr;
thread_local int in_rt __attribute__((tls_model("initial-exec"))) = 0;

struct InRt {
  InRt() { ++in_rt; }
  ~InRt() { --in_rt; }
};

bool Controlled() { return self != nullptr && in_rt == 0; }

void FutexWait(int* addr) {
  for (int i = 0; i < 50; ++i) {
    if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != 0) return;
  }
  while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == 0) RealSyscall()(SYS_futex, addr, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
}
void FutexPost(int* addr, int v) {
  __atomic_store_n(addr, v, __ATOMIC_RELEASE);
  RealSyscall()(SYS_futex, addr, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void RecordFail(const char* key, const char* fmt, ...) {
  if (g.failed) return;
  g.failed = true;
  snprintf(g.fail_key, sizeof g.fail_key, "%s", key);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(g.fail_msg, sizeof g.fail_msg, fmt, ap);
  va_end(ap);
}

const char* Name(St s) {
  switch (s) {
    case St::kRun:
      return "running";
    case St::kMutex:
      return "waiting for a mutex";
    case St::kCond:
      return "waiting on a condition variable";
    case St::kCondTimed:
      return "timed wait on a condition variable";
    case St::kJoin:
      return "joining a thread";
    case St::kFutex:
      return "waiting on a future/futex";
    case St::kFutexTimed:
      return "timed wait on a futex";
    case St::kOnce:
      return "waiting for call_once";
    case St::kRwRead:
      return "waiting for a shared lock";
    case St::kRwWrite:
      return "waiting for an exclusive lock";
    case St::kDone:
      return "ended";
    case St::kNone:
      return "none";
  }
  return "?";
}

bool Enabled(const Th& t) {
  switch (t.st) {
    case St::kRun:
      return true;
    case St::kMutex: {
      Mutex* m = g.mutexes.Find(t.on);
      return !m || m->owner < 0;
    }
    case St::kCond:
    case St::kCondTimed:
    case St::kFutex:
    case St::kFutexTimed:
      return t.woken;
    case St::kJoin:
      return g.th[t.target].st == St::kDone;
    case St::kOnce: {
      Once* o = g.onces.Find(t.on);
      return !o || o->state != 1;
    }
    case St::kRwRead: {
      Rw* r = g.rws.Find(t.on);
      return !r || r->writer < 0;
    }
    case St::kRwWrite: {
      Rw* r = g.rws.Find(t.on);
      return !r || (r->writer < 0 && r->readers == 0);
    }
    default:
      return false;
  }
}

void Trace(const char* fmt, ...) {
  if (!g.ctx->tracing) return;
  InRt rt;
  char b[256];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  g.ctx->log << "  T" << (self ? self->id : -1) << " " << b << "\n";
}

int Choose(int n) {
  if (n <= 1 || g.no_choice || g.failed) return 0;
  InRt rt;
  try {
    return g.ctx->choose(n);
  } catch (...) {
    // The engine wants to stop here: finish this execution with default choices, then rethrow.
    g.ctx_exception = std::current_exception();
    g.no_choice = true;
    return 0;
  }
}

// The engine takes over: every controlled thread stays where it is.
[[noreturn]] void Stuck() {
  FutexPost(&g.end, 2);
  for (;;) RealSyscall()(SYS_pause);
}

void SwitchTo(int id) {
  if (id == g.cur) return;
  Th* me = self;
  g.cur = id;
  Th* t = &g.th[id];
  // Once the other thread goes on, an ended thread's record may be reused.
  const bool done = me->st == St::kDone;
  __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
  FutexPost(&t->go, 1);
  if (!done) FutexWait(&me->go);
}

// Decides who runs next. The calling thread is in its state `self->st`; when it returns, it was scheduled.
void Schedule() {
  InRt rt;
  Th* me = self;
  if (g.failed) Stuck();
  if (++g.steps > kMaxSteps) {
    RecordFail("livelock", "the program did not end within %ld steps", kMaxSteps);
    Stuck();
  }
  // State of the exploration: position of every thread.
  {
    mc::H h;
    for (int i = 0; i < g.n; ++i) h << static_cast<uint64_t>(g.th[i].ops) << static_cast<uint64_t>(g.th[i].st);
    g.ctx->state(h);
    g.ctx->op();
  }
  // Spurious wake-ups of condition variable waits.
  if (g.spurious < g.opt.spurious) {
    int w[kMaxThreads], k = 0;
    for (int i = 0; i < g.n; ++i)
      if ((g.th[i].st == St::kCond || g.th[i].st == St::kCondTimed) && !g.th[i].woken) w[k++] = i;
    if (k > 0) {
      const int c = Choose(k + 1);
      if (c > 0) {
        ++g.spurious;
        g.th[w[c - 1]].woken = true;
        Trace("(spurious wake-up of T%d)", w[c - 1]);
      }
    }
  }
  int en[kMaxThreads], k = 0;
  const bool me_enabled = Enabled(*me);
  const bool me_yields = me->yielded;
  me->yielded = false;
  if (me_enabled && !me_yields) en[k++] = me->id;
  for (int d = 1; d < g.n; ++d) {
    const int i = (me->id + d) % g.n;
    if (Enabled(g.th[i])) en[k++] = i;
  }
  if (me_enabled && me_yields) en[k++] = me->id;
  if (k == 0) {
    // Timed waits end when nothing else can happen.
    for (int i = 0; i < g.n && k == 0; ++i) {
      if (g.th[i].st == St::kCondTimed || g.th[i].st == St::kFutexTimed) {
        g.th[i].woken = true;
        g.th[i].timed_out = true;
        en[k++] = i;
      }
    }
  }
  if (k == 0) {
    bool all_done = true;
    for (int i = 0; i < g.n; ++i) all_done = all_done && g.th[i].st == St::kDone;
    if (all_done) {
      FutexPost(&g.end, 1);
      return;
    }
    char b[300];
    int o = 0;
    for (int i = 0; i < g.n; ++i) {
      if (g.th[i].st != St::kDone && o < 250) o += snprintf(b + o, sizeof b - o, "T%d %s; ", i, Name(g.th[i].st));
    }
    RecordFail("deadlock", "no thread can run: %s", b);
    Stuck();
  }
  int pick = 0;
  if (me_enabled && !me_yields) {
    if (g.preemptions < g.opt.preemptions) {
      pick = Choose(k);
      if (pick != 0) ++g.preemptions;
    }
  } else {
    pick = me_yields ? 0 : Choose(k);
  }
  if (en[pick] != me->id) Trace("-> T%d", en[pick]);
  SwitchTo(en[pick]);
}

void Tick() { ++self->clk.v[self->id]; }

// A visible operation of the calling thread comes next.
void Point(const char* what, const void* addr = nullptr) {
  (void)addr;
  ++self->ops;
  self->idle_loads = 0;
  Trace("%s", what);
  Schedule();
}

void AcquireMutex(const void* m) {
  Mutex* x = g.mutexes.Get(m);
  while (x->owner >= 0) {
    self->st = St::kMutex;
    self->on = m;
    Schedule();
    x = g.mutexes.Get(m);
  }
  self->st = St::kRun;
  x->owner = self->id;
  x->depth = 1;
  self->clk.Join(x->rel);
}
void ReleaseMutex(const void* m) {
  Mutex* x = g.mutexes.Get(m);
  if (x->owner != self->id) RecordFail("mutex-misuse", "T%d unlocks a mutex it does not own", self->id);
  x->owner = -1;
  x->rel = self->clk;
  Tick();
}

int CondWait(const void* cond, const void* mutex, bool timed) {
  Point(timed ? "cond_timedwait" : "cond_wait");
  ReleaseMutex(mutex);
  self->st = timed ? St::kCondTimed : St::kCond;
  self->on = cond;
  self->woken = false;
  self->timed_out = false;
  Schedule();
  self->st = St::kRun;
  const bool to = self->timed_out;
  // Condition variables do not order memory by themselves; the mutex does.
  AcquireMutex(mutex);
  return to ? ETIMEDOUT : 0;
}
void CondNotify(const void* cond, bool all) {
  Point(all ? "cond_broadcast" : "cond_signal");
  int w[kMaxThreads], k = 0;
  for (int i = 0; i < g.n; ++i)
    if ((g.th[i].st == St::kCond || g.th[i].st == St::kCondTimed) && g.th[i].on == cond && !g.th[i].woken) w[k++] = i;
  if (k == 0) return;
  if (all) {
    for (int i = 0; i < k; ++i) g.th[w[i]].woken = true;
  } else {
    const int c = Choose(k);
    g.th[w[c]].woken = true;
    Trace("wakes T%d", w[c]);
  }
}

void ThreadMain(Th* t) {
  self = t;
  ++in_rt;
  FutexWait(&t->go);
  --in_rt;
  t->ret = t->fn(t->arg);
  ++in_rt;
  Trace("ends");
  t->st = St::kDone;
  Tick();
  Schedule();  // Hands over; does not wait since it is done.
  self = nullptr;
  --in_rt;
}

// Operating system threads are reused by later executions.
struct Carrier {
  pthread_t handle{};
  int go{0};
  Th* job{nullptr};
  bool exists{false};
};
Carrier g_carriers[kMaxThreads];

void* CarrierEntry(void* p) {
  Carrier* k = static_cast<Carrier*>(p);
  for (;;) {
    FutexWait(&k->go);
    __atomic_store_n(&k->go, 0, __ATOMIC_RELAXED);
    ThreadMain(k->job);
  }
}

// Gives `t` the operating system thread of its number.
bool StartThread(Th* t) {
  Carrier* k = &g_carriers[t->id];
  if (!k->exists) {
    if (REAL(pthread_create)(&k->handle, nullptr, CarrierEntry, k) != 0) return false;
    k->exists = true;
  }
  t->handle = k->handle;
  k->job = t;
  FutexPost(&k->go, 1);
  return true;
}

Th* NewThread() {
  if (g.n == kMaxThreads) {
    RecordFail("harness", "too many threads");
    Stuck();
  }
  Th* t = &g.th[g.n];
  *t = Th();
  t->id = g.n++;
  t->st = St::kRun;
  return t;
}

// ---- Memory accesses.

void Access(const void* p, size_t size, bool write) {
  const char* a = static_cast<const char*>(p);
  if (a < g_arena || a >= g_arena + kArena) return;
  if (!g_arena_on || g.failed) return;
  size_t off = a - g_arena;
  while (size > 0) {
    const size_t cell = off >> 3, in = off & 7;
    const size_t len = size < 8 - in ? size : 8 - in;
    const uint8_t mask = static_cast<uint8_t>(((1u << len) - 1) << in);
    Shadow& s = g_shadow[cell];
    if (s.gen != g_gen) {
      s = Shadow();
      s.gen = g_gen;
    }
    if (s.freed) {
      RecordFail("use-after-free", "T%d %s freed memory (offset %zu)", self->id, write ? "writes" : "reads", off);
      return;
    }
    const int me = self->id;
    if (s.w_tid >= 0 && s.w_tid != me && (s.w_mask & mask) && s.w_clk > self->clk.v[s.w_tid]) {
      RecordFail("data-race", "T%d %s memory that T%d wrote without synchronisation", me, write ? "writes" : "reads", s.w_tid);
      return;
    }
    if (write) {
      for (int i = 0; i < g.n; ++i) {
        if (i != me && (s.r_mask[i] & mask) && s.r_clk[i] > self->clk.v[i]) {
          RecordFail("data-race", "T%d writes memory that T%d read without synchronisation", me, i);
          return;
        }
      }
      s.w_tid = me;
      s.w_clk = self->clk.v[me];
      s.w_mask = mask;
    } else {
      s.r_mask[me] = s.r_clk[me] == self->clk.v[me] ? (s.r_mask[me] | mask) : mask;
      s.r_clk[me] = self->clk.v[me];
    }
    off += len;
    size -= len;
  }
}

void Plain(const void* p, size_t size, bool write) {
  if (!Controlled()) return;
  InRt rt;
  Access(p, size, write);
  if (g.failed) Stuck();
}

void CheckFreed(const void* p) {
  const char* a = static_cast<const char*>(p);
  if (a < g_arena || a >= g_arena + kArena || !g_arena_on) return;
  Shadow& s = g_shadow[(a - g_arena) >> 3];
  if (s.gen == g_gen && s.freed) RecordFail("use-after-free", "T%d uses a synchronisation object in freed memory", self->id);
}

bool Acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool Rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// Before an atomic operation.
void AtomicPre(const volatile void* p, const char* what, bool load) {
  CheckFreed(const_cast<const void*>(p));
  ++self->ops;
  // A thread that spins on loads lets the others run.
  if (load && ++self->idle_loads > 100) {
    self->idle_loads = 0;
    self->yielded = true;
  } else if (!load) {
    self->idle_loads = 0;
  }
  Trace("%s", what);
  Schedule();
}
void AtomicOrder(const volatile void* p, bool load, bool store, int mo) {
  const void* a = const_cast<const void*>(p);
  if (load && Acq(mo)) {
    if (Atom* x = g.atoms.Find(a)) self->clk.Join(x->rel);
  }
  if (store) {
    Atom* x = g.atoms.Get(a);
    if (Rel(mo)) {
      if (load) {
        x->rel.Join(self->clk);  // Read-modify-writes continue the release sequence.
      } else {
        x->rel = self->clk;
      }
      Tick();
    } else if (!load) {
      x->rel = Clock();
    }
  }
}

}  // namespace

// ---- Instrumentation runtime.

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define PLAIN(n)                                                    \
  void __tsan_read##n(void* p) { Plain(p, n, false); }              \
  void __tsan_write##n(void* p) { Plain(p, n, true); }              \
  void __tsan_unaligned_read##n(void* p) { Plain(p, n, false); }    \
  void __tsan_unaligned_write##n(void* p) { Plain(p, n, true); }    \
  void __tsan_volatile_read##n(void* p) { Plain(p, n, false); }     \
  void __tsan_volatile_write##n(void* p) { Plain(p, n, true); }     \
  void __tsan_unaligned_volatile_read##n(void* p) { Plain(p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void* p) { Plain(p, n, true); } \
  void __tsan_read_write##n(void* p) { Plain(p, n, true); }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)
void __tsan_read_range(void* p, unsigned long n) { Plain(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { Plain(p, n, true); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) Plain(p, sizeof(void*), true);
}
void __tsan_vptr_read(void** p) { Plain(p, sizeof(void*), false); }

#define ATOMIC(bits, T)                                                                         \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                   \
    if (!Controlled()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                             \
    InRt rt;                                                                                    \
    AtomicPre(a, "atomic load", true);                                                          \
    AtomicOrder(a, true, false, mo);                                                            \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                \
  }                                                                                             \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                \
    if (!Controlled()) return __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                         \
    InRt rt;                                                                                    \
    AtomicPre(a, "atomic store", false);                                                        \
    AtomicOrder(a, false, true, mo);                                                            \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                   \
  }                                                                                             \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {    \
    if (!Controlled()) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    InRt rt;                                                                                    \
    AtomicPre(a, "atomic compare-exchange", false);                                             \
    const int ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    AtomicOrder(a, true, ok, mo);                                                               \
    return ok;                                                                                  \
  }                                                                                             \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) {    \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, f);                       \
  }                                                                                             \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f) {        \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, f);                             \
    return c;                                                                                   \
  }
#define RMW(bits, T, op, builtin)                                                               \
  T __tsan_atomic##bits##_##op(volatile T* a, T v, int mo) {                                    \
    if (!Controlled()) return builtin(a, v, __ATOMIC_SEQ_CST);                                  \
    InRt rt;                                                                                    \
    /* Acquire-release counters (the reference counts of the standard library) commute. */      \
    if (mo != __ATOMIC_ACQ_REL) AtomicPre(a, "atomic " #op, false);                             \
    else CheckFreed(const_cast<const T*>(a));                                                   \
    AtomicOrder(a, true, true, mo);                                                             \
    return builtin(a, v, __ATOMIC_SEQ_CST);                                                     \
  }
#define ALL(bits, T)                                \
  ATOMIC(bits, T)                                   \
  RMW(bits, T, exchange, __atomic_exchange_n)       \
  RMW(bits, T, fetch_add, __atomic_fetch_add)       \
  RMW(bits, T, fetch_sub, __atomic_fetch_sub)       \
  RMW(bits, T, fetch_and, __atomic_fetch_and)       \
  RMW(bits, T, fetch_or, __atomic_fetch_or)         \
  RMW(bits, T, fetch_xor, __atomic_fetch_xor)       \
  RMW(bits, T, fetch_nand, __atomic_fetch_nand)
ALL(8, unsigned char)
ALL(16, unsigned short)
ALL(32, unsigned int)
ALL(64, unsigned long)
void __tsan_atomic_thread_fence(int) {
  if (!Controlled()) return;
  InRt rt;
  Point("fence");
}
void __tsan_atomic_signal_fence(int) {}

// ---- Interposed synchronisation.

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!Controlled()) return REAL(pthread_mutex_lock)(m);
  InRt rt;
  CheckFreed(m);
  Mutex* x = g.mutexes.Get(m);
  if (x->owner == self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
    ++x->depth;
    return 0;
  }
  Point("lock");
  AcquireMutex(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!Controlled()) return REAL(pthread_mutex_trylock)(m);
  InRt rt;
  CheckFreed(m);
  Point("trylock");
  Mutex* x = g.mutexes.Get(m);
  if (x->owner >= 0) return EBUSY;
  AcquireMutex(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!Controlled()) return REAL(pthread_mutex_unlock)(m);
  InRt rt;
  CheckFreed(m);
  Mutex* x = g.mutexes.Get(m);
  if (x->owner == self->id && x->depth > 1) {
    --x->depth;
    return 0;
  }
  ReleaseMutex(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!Controlled()) return REAL(pthread_cond_wait)(c, m);
  InRt rt;
  CheckFreed(c);
  return CondWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!Controlled()) return REAL(pthread_cond_timedwait)(c, m, t);
  InRt rt;
  CheckFreed(c);
  return CondWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* t) {
  if (!Controlled()) return REAL(pthread_cond_clockwait)(c, m, id, t);
  InRt rt;
  CheckFreed(c);
  return CondWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!Controlled()) return REAL(pthread_cond_signal)(c);
  InRt rt;
  CheckFreed(c);
  CondNotify(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!Controlled()) return REAL(pthread_cond_broadcast)(c);
  InRt rt;
  CheckFreed(c);
  CondNotify(c, true);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!Controlled()) return REAL(pthread_rwlock_rdlock)(l);
  InRt rt;
  Point("rdlock");
  while (g.rws.Get(l)->writer >= 0) {
    self->st = St::kRwRead;
    self->on = l;
    Schedule();
  }
  self->st = St::kRun;
  ++g.rws.Get(l)->readers;
  self->clk.Join(g.rws.Get(l)->rel);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!Controlled()) return REAL(pthread_rwlock_wrlock)(l);
  InRt rt;
  Point("wrlock");
  while (g.rws.Get(l)->writer >= 0 || g.rws.Get(l)->readers > 0) {
    self->st = St::kRwWrite;
    self->on = l;
    Schedule();
  }
  self->st = St::kRun;
  g.rws.Get(l)->writer = self->id;
  self->clk.Join(g.rws.Get(l)->rel);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!Controlled()) return REAL(pthread_rwlock_unlock)(l);
  InRt rt;
  Rw* r = g.rws.Get(l);
  if (r->writer == self->id) {
    r->writer = -1;
  } else {
    --r->readers;
  }
  r->rel.Join(self->clk);
  Tick();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!Controlled()) return REAL(pthread_once)(o, fn);
  {
    InRt rt;
    CheckFreed(o);
    // Control blocks that were completed outside of a controlled execution.
    if (__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2 && !g.onces.Find(o)) return 0;
    Point("call_once");
    Once* x = g.onces.Get(o);
    while (x->state == 1) {
      self->st = St::kOnce;
      self->on = o;
      Schedule();
      x = g.onces.Get(o);
    }
    self->st = St::kRun;
    self->clk.Join(x->rel);
    if (x->state == 2) return 0;
    x->state = 1;
    x->by = self->id;
  }
  try {
    fn();
  } catch (...) {
    g.onces.Get(o)->state = 0;
    throw;
  }
  InRt rt;
  Once* x = g.onces.Get(o);
  x->state = 2;
  x->rel = self->clk;
  __atomic_store_n(o, 2, __ATOMIC_RELEASE);
  Tick();
  return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!Controlled()) return REAL(pthread_create)(h, attr, fn, arg);
  InRt rt;
  Point("create thread");
  Th* t = NewThread();
  t->fn = fn;
  t->arg = arg;
  t->clk = self->clk;
  ++t->clk.v[t->id];
  Tick();
  if (!StartThread(t)) {
    RecordFail("harness", "no operating system thread");
    Stuck();
  }
  *h = t->handle;
  Trace("created T%d", t->id);
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  if (!Controlled()) return REAL(pthread_join)(h, ret);
  InRt rt;
  int target = -1;
  for (int i = 0; i < g.n; ++i)
    if (i != self->id && pthread_equal(g.th[i].handle, h)) target = i;
  if (target < 0) return REAL(pthread_join)(h, ret);
  Point("join");
  self->st = St::kJoin;
  self->target = target;
  while (g.th[target].st != St::kDone) Schedule();
  self->st = St::kRun;
  self->clk.Join(g.th[target].clk);
  g.th[target].handle = pthread_t();
  if (ret) *ret = g.th[target].ret;
  return 0;
}
int pthread_detach(pthread_t h) { return Controlled() ? 0 : REAL(pthread_detach)(h); }
int sched_yield() {
  if (!Controlled()) return REAL(sched_yield)();
  InRt rt;
  ++self->ops;
  self->yielded = true;
  Schedule();
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!Controlled()) return REAL(nanosleep)(a, b);
  return sched_yield();
}
int clock_nanosleep(clockid_t id, int f, const struct timespec* a, struct timespec* b) {
  if (!Controlled()) return REAL(clock_nanosleep)(id, f, a, b);
  return sched_yield();
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n != SYS_futex || !Controlled()) return RealSyscall()(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  InRt rt;
  int* addr = reinterpret_cast<int*>(a[0]);
  const int op = a[1] & FUTEX_CMD_MASK;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    Point("futex wait");
    if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != static_cast<int>(a[2])) {
      errno = EAGAIN;
      return -1;
    }
    self->st = a[3] ? St::kFutexTimed : St::kFutex;
    self->on = addr;
    self->woken = false;
    self->timed_out = false;
    Schedule();
    self->st = St::kRun;
    if (self->timed_out) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    Point("futex wake");
    long count = 0;
    for (int i = 0; i < g.n && count < a[2]; ++i) {
      Th& t = g.th[i];
      if ((t.st == St::kFutex || t.st == St::kFutexTimed) && t.on == addr && !t.woken) {
        t.woken = true;
        ++count;
      }
    }
    return count;
  }
  return RealSyscall()(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

}  // extern "C"

// ---- Heap of the controlled threads.

void* operator new(size_t n) {
  if (self != nullptr && in_rt == 0 && g_arena_on) {
    size_t at = (g_top + 15) & ~size_t(15);
    if (at + n + 16 > kArena) {
      RecordFail("harness", "arena exhausted");
      Stuck();
    }
    // The size goes before the block.
    *reinterpret_cast<size_t*>(g_arena + at) = n;
    g_top = at + 16 + n;
    return g_arena + at + 16;
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept {
  char* a = static_cast<char*>(p);
  if (a >= g_arena && a < g_arena + kArena && g_arena) {
    if (Controlled() && g_arena_on) {
      InRt rt;
      const size_t n = *reinterpret_cast<size_t*>(a - 16);
      // Freeing conflicts with every unsynchronised access.
      Access(a, n, true);
      for (size_t c = (a - g_arena) >> 3; c <= (a - g_arena + (n ? n - 1 : 0)) >> 3; ++c) {
        Shadow& s = g_shadow[c];
        if (s.gen != g_gen) {
          s = Shadow();
          s.gen = g_gen;
        }
        s.freed = 1;
      }
      if (g.failed) Stuck();
    }
    return;
  }
  free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace sched {

int Self() { return self ? self->id : -1; }

void Note(const char* what, long value) {
  if (!Controlled()) return;
  InRt rt;
  if (value >= 0) {
    Trace("# %s %ld", what, value);
  } else {
    Trace("# %s", what);
  }
}

namespace {
void* BodyEntry(void*) {
  try {
    (*g.body)();
  } catch (...) {
    InRt rt;
    g.body_exception = std::current_exception();
  }
  return nullptr;
}
}  // namespace

void Run(mc::Ctx& c, const Options& options, const std::function<void()>& body) {
  static int runs = 0;
  if (g_arena == nullptr) {
    g_arena = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    g_shadow = static_cast<Shadow*>(mmap(nullptr, (kArena >> 3) * sizeof(Shadow), PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    // One processor is enough for threads that run one at a time, and hand-overs are cheaper.
    cpu_set_t set;
    if (sched_getaffinity(0, sizeof set, &set) == 0) {
      const int cpu = sched_getcpu();
      if (cpu >= 0 && CPU_ISSET(cpu, &set) && getenv("VERIF_NO_PIN") == nullptr) {
        static int k = 0;
        (void)k;
        int avail[CPU_SETSIZE], m = 0;
        for (int i = 0; i < CPU_SETSIZE; ++i)
          if (CPU_ISSET(i, &set)) avail[m++] = i;
        cpu_set_t one;
        CPU_ZERO(&one);
        CPU_SET(avail[getpid() % m], &one);
        sched_setaffinity(0, sizeof one, &one);
      }
    }
  }
  ++runs;
  if (g_leaked) throw mc::Fail{"harness", "a previous execution left threads behind"};
  g.active = true;
  g.ctx = &c;
  g.opt = options;
  g.n = 0;
  g.cur = 0;
  g.preemptions = 0;
  g.spurious = 0;
  g.steps = 0;
  g.no_choice = false;
  g.ctx_exception = nullptr;
  g.body_exception = nullptr;
  g.body = &body;
  g.failed = false;
  g.end = 0;
  g.mutexes.Clear();
  g.conds.Clear();
  g.onces.Clear();
  g.rws.Clear();
  g.atoms.Clear();
  g_top = 0;
  ++g_gen;
  g_arena_on = true;
  Th* t = NewThread();
  t->fn = BodyEntry;
  t->arg = nullptr;
  t->clk.v[0] = 1;
  t->go = 1;
  if (!StartThread(t)) throw mc::Fail{"harness", "no operating system thread"};
  FutexWait(&g.end);
  g_arena_on = false;
  if (g.end == 2) {
    // The threads stay parked for ever: nothing more runs in this process.
    g_leaked = true;
    c.stop_job = true;
    g.active = false;
    if (g.ctx_exception && !g.failed) std::rethrow_exception(g.ctx_exception);
    throw mc::Fail{g.fail_key, g.fail_msg};
  }
  g.active = false;
  if (g.ctx_exception) {
    auto e = g.ctx_exception;
    g.ctx_exception = nullptr;
    g.body_exception = nullptr;
    std::rethrow_exception(e);
  }
  if (g.failed) throw mc::Fail{g.fail_key, g.fail_msg};
  if (g.body_exception) {
    auto e = g.body_exception;
    g.body_exception = nullptr;
    std::rethrow_exception(e);
  }
}

}  // namespace sched
