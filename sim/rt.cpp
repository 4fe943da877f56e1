// Compiled WITHOUT coverage instrumentation.
#include "rt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <mutex>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <unordered_map>

extern "C" {
void * __real_malloc(size_t);
void __real_free(void *);
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real___cxa_guard_acquire(long *);
void __real___cxa_guard_release(long *);
void __real___cxa_guard_abort(long *);
extern char __executable_start;
}

namespace sim {

bool g_trace = false;

// ------------------------------------------------------------------ plan text
std::string Plan::str() const
{
  std::string o = "prop " + prop + "\nseed " + std::to_string(seed) + "\n";
  char b[64];
  for (auto & op : ops) {
    o += op.k;
    for (auto & [n, v] : op.a) {
      snprintf(b, sizeof b, "%.17g", v);
      o += " " + n + "=" + b;
    }
    o += "\n";
  }
  return o;
}
Plan Plan::parse(const std::string & txt)
{
  Plan p;
  std::istringstream is(txt);
  std::string line;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line);
    std::string w;
    ls >> w;
    if (w == "prop") { ls >> p.prop; continue; }
    if (w == "seed") { ls >> p.seed; continue; }
    Op op(w);
    while (ls >> w) {
      auto e = w.find('=');
      if (e != std::string::npos) op.a[w.substr(0, e)] = strtod(w.c_str() + e + 1, nullptr);
    }
    p.ops.push_back(op);
  }
  return p;
}

std::string fmt(const char * f, ...)
{
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
void fail(const std::string & cls, const char * f, ...)
{
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  throw Violation(cls, b);
}

// ------------------------------------------------------------------ stats
static std::map<std::string, uint64_t> g_probes, g_faults;
static std::unordered_set<uint64_t> g_states;
static uint64_t g_hash;
void probe(const std::string & n, uint64_t k) { g_probes[n] += k; }
void fault(const std::string & n, uint64_t k) { g_faults[n] += k; }
void state(uint64_t h) { if (g_states.size() < 400000) g_states.insert(h); }
void logv(uint64_t v) { g_hash = hcomb(g_hash, v); }
void logd(double v)
{
  uint64_t u;
  if (v == 0) v = 0;  // -0 == 0
  memcpy(&u, &v, 8);
  if (v != v) u = 0x7ff8000000000000ull;
  logv(u);
}
void logs(const std::string & s)
{
  logv(hash_str(s));
  if (g_trace) { fprintf(stderr, "  trace: %s\n", s.c_str()); }
}

// ------------------------------------------------------------------ core state (owned by whoever holds the baton)
struct Core
{
  // clocks (picoseconds for sub-ns per-edge costs)
  int64_t mono_ps{0};
  int64_t wall_off_ns{0};
  int64_t ps_per_edge{0};
  // edges
  uint64_t edges{0};       // global edge counter of this run (in sut scopes)
  uint64_t next{~0ull};    // next interesting global edge
  // per call
  uint64_t call_start{0};
  uint64_t call_budget_end{~0ull};
  // preemption
  bool preempt{false};
  uint64_t next_switch{~0ull};
  int guards{0};
};
static Core C;
static int64_t g_total_sim_ns = 0;
static uint64_t g_sut_calls = 0;

struct CallCtx
{
  CallFaults cf;
  size_t si{0}, ji{0};
  uint64_t start{0}, end_budget{~0ull};
  uint64_t own{0};  // edges of this call (excludes other tasks)
  uint64_t allocs{0};
  uint64_t reads{0};
  bool alloc_failed{false};
};
static thread_local CallCtx * tl_call = nullptr;  // non-null inside a sut scope
static thread_local int tl_task = -1;

// Runtime code shares inline library functions with instrumented code, so it must run outside the call it observes.
struct NoSut
{
  CallCtx * c;
  NoSut() : c(tl_call) { tl_call = nullptr; }
  ~NoSut() { tl_call = c; }
};

int64_t mono_ns() { return C.mono_ps / 1000; }
int64_t wall_ns() { return C.mono_ps / 1000 + C.wall_off_ns; }
void clock_reset(int64_t m0, int64_t w0, double nspe)
{
  C.mono_ps     = m0 * 1000;
  C.wall_off_ns = w0 - m0;
  C.ps_per_edge = int64_t(nspe * 1000);
}
void clock_advance(int64_t ns) { C.mono_ps += ns * 1000; g_total_sim_ns += ns; }
void wall_jump(int64_t ns) { C.wall_off_ns += ns; }

// ------------------------------------------------------------------ tasks
struct Task
{
  std::thread th;
  sem_t sem;
  bool done{false};
  bool hung{false};
  bool has_v{false};
  Violation v{"", ""};
  bool discard{false};
};
static std::vector<std::unique_ptr<Task>> T;
static sem_t g_main;
static SchedCfg g_cfg;
static SchedOut g_out;
static Rng g_srng;
static size_t g_expl = 0;
static std::vector<std::vector<std::unique_ptr<Task>>> g_leaked;
static bool g_any_hung = false;

static uint64_t draw_gap()
{
  double u = g_srng.u();
  double g = -g_cfg.mean * std::log(1 - u);
  return 1 + uint64_t(g);
}

// own-call progress counters: edges of the current call are tracked in tl_call->own
static void recompute_next(CallCtx * c)
{
  NoSut outside;
  uint64_t n = ~0ull;
  if (c) {
    auto lim = [&](uint64_t own_at) {
      uint64_t rel = own_at > c->own ? own_at - c->own : 1;
      n            = std::min(n, C.edges + rel);
    };
    if (c->si < c->cf.stall.size()) lim(c->cf.stall[c->si].first);
    if (c->ji < c->cf.jump.size()) lim(c->cf.jump[c->ji].first);
    if (c->end_budget != ~0ull) lim(c->end_budget);
  }
  if (C.preempt) n = std::min(n, std::max(C.next_switch, C.edges + 1));
  C.next = n;
}

static void arm_next_switch()
{
  if (!C.preempt) { C.next_switch = ~0ull; return; }
  if (g_cfg.use_explicit) {
    C.next_switch = g_expl < g_cfg.explicit_.size() ? g_cfg.explicit_[g_expl].first : ~0ull;
  } else {
    C.next_switch = C.edges + draw_gap();
  }
}

static int next_runnable(int pref)
{
  int n = int(T.size());
  for (int k = 0; k < n; ++k) {
    int t = (pref + k) % n;
    if (!T[t]->done && !T[t]->hung) return t;
  }
  return -1;
}

static void switch_to(int t)
{
  int me = tl_task;
  if (t == me) return;
  sem_post(&T[t]->sem);
  sem_wait(&T[me]->sem);
}

static void do_preempt(uintptr_t pc)
{
  int t;
  if (g_cfg.use_explicit) {
    t = g_cfg.explicit_[g_expl].second % int(T.size());
    ++g_expl;
  } else {
    t = int(g_srng.i(0, int64_t(T.size()) - 1));
  }
  t = next_runnable(t);
  arm_next_switch();
  if (t < 0 || t == tl_task) return;
  g_out.switches.emplace_back(C.edges, t);
  g_out.hash = hcomb(hcomb(g_out.hash, pc), uint64_t(t));
  state(hcomb(hcomb(0x70, pc), uint64_t(t)));
  probe("preemptive_switch");
  switch_to(t);
}

void yield_point()
{
  NoSut outside;
  if (tl_task < 0 || T.size() < 2) return;
  int t = next_runnable((tl_task + 1) % int(T.size()));
  if (t >= 0 && t != tl_task) { switch_to(t); recompute_next(outside.c); }
}

static void slow_edge(uintptr_t pc)
{
  NoSut outside;
  auto * c = outside.c;
  // clock faults
  while (c->si < c->cf.stall.size() && c->cf.stall[c->si].first <= c->own) {
    clock_advance(c->cf.stall[c->si].second);
    fault("stall");
    ++c->si;
  }
  while (c->ji < c->cf.jump.size() && c->cf.jump[c->ji].first <= c->own) {
    wall_jump(c->cf.jump[c->ji].second);
    fault(c->cf.jump[c->ji].second < 0 ? "wall_clock_step_back" : "wall_clock_step_forward");
    ++c->ji;
  }
  if (c->own >= c->end_budget) {
    // hang: abandon this task for good
    Task & me = *T[tl_task];
    me.hung   = true;
    me.has_v  = true;
    me.v      = Violation("hang", fmt("call executed %llu basic blocks without returning", (unsigned long long)c->own));
    g_any_hung = true;
    int t      = next_runnable(0);
    if (t >= 0) sem_post(&T[t]->sem); else sem_post(&g_main);
    for (;;) pause();
  }
  if (C.preempt && C.edges >= C.next_switch) {
    if (C.guards > 0) {
      C.next_switch = C.edges + 1;
    } else {
      do_preempt(pc);
    }
  }
  recompute_next(c);
}

}  // namespace sim

extern "C" void __sanitizer_cov_trace_pc()
{
  using namespace sim;
  auto * c = tl_call;
  if (!c) return;
  ++c->own;
  C.mono_ps += C.ps_per_edge;
  if (++C.edges >= C.next) slow_edge(uintptr_t(__builtin_return_address(0)) - uintptr_t(&__executable_start));
}

namespace sim {

SchedOut g_last_sched_() { return g_out; }
static void task_main(int id, std::function<void()> body)
{
  tl_task = id;
  sem_wait(&T[id]->sem);
  try {
    body();
  } catch (Violation & v) {
    T[id]->has_v = true;
    T[id]->v     = v;
  } catch (Discard &) {
    T[id]->discard = true;
  } catch (std::exception & e) {
    T[id]->has_v = true;
    T[id]->v     = Violation("harness-exception", std::string("uncaught: ") + e.what());
  } catch (...) {
    T[id]->has_v = true;
    T[id]->v     = Violation("harness-exception", "uncaught unknown exception");
  }
  tl_call     = nullptr;
  T[id]->done = true;
  int t       = next_runnable(0);
  if (t >= 0) sem_post(&T[t]->sem); else sem_post(&g_main);
}

SchedOut run_tasks(const std::vector<std::function<void()>> & bodies, const SchedCfg & cfg)
{
  g_cfg  = cfg;
  g_out  = {};
  g_srng = Rng(cfg.seed);
  g_expl = 0;
  T.clear();
  sem_init(&g_main, 0, 0);
  C.preempt     = cfg.preempt;
  C.guards      = 0;
  C.next_switch = ~0ull;
  arm_next_switch();
  for (size_t i = 0; i < bodies.size(); ++i) {
    T.push_back(std::make_unique<Task>());
    sem_init(&T.back()->sem, 0, 0);
  }
  for (size_t i = 0; i < bodies.size(); ++i) {
    auto b   = bodies[i];
    T[i]->th = std::thread([i, b] { task_main(int(i), b); });
  }
  sem_post(&T[0]->sem);
  sem_wait(&g_main);
  C.preempt = false;
  bool hung = false;
  for (auto & t : T) {
    if (t->hung) { hung = true; t->th.detach(); } else t->th.join();
  }
  bool has = false, disc = false;
  Violation v{"", ""};
  for (auto & t : T) {
    if (t->has_v && !has) { has = true; v = t->v; }
    if (t->discard) disc = true;
  }
  if (hung) g_leaked.push_back(std::move(T));
  T.clear();
  if (has) throw v;
  if (disc) throw Discard();
  return g_out;
}

// ------------------------------------------------------------------ heap
// Table of live allocations made inside sut scopes: open addressing on raw memory, spin locked (threads that are
// just ending may free their start-up state while another task holds the baton).
struct LiveTab
{
  uintptr_t * t{nullptr};
  size_t cap{0}, used{0}, live{0};
  std::atomic_flag lk = ATOMIC_FLAG_INIT;
  static constexpr uintptr_t TOMB = 1;
  void lock() { while (lk.test_and_set(std::memory_order_acquire)) {} }
  void unlock() { lk.clear(std::memory_order_release); }
  size_t slot(uintptr_t p) const { return size_t(mix64(p)) & (cap - 1); }
  void put(uintptr_t p)
  {
    size_t i = slot(p);
    while (t[i] > TOMB) i = (i + 1) & (cap - 1);
    if (t[i] == 0) ++used;
    t[i] = p;
    ++live;
  }
  void insert(void * q)
  {
    lock();
    if ((used + 1) * 2 > cap) {
      auto * o    = t;
      size_t oc   = cap;
      cap         = std::max<size_t>(4096, live * 4 + 16);
      size_t c2   = 4096;
      while (c2 < cap) c2 *= 2;
      cap  = c2;
      t    = static_cast<uintptr_t *>(__real_calloc(cap, sizeof(uintptr_t)));
      used = live = 0;
      for (size_t i = 0; i < oc; ++i) if (o[i] > TOMB) put(o[i]);
      __real_free(o);
    }
    put(uintptr_t(q));
    unlock();
  }
  bool erase(void * q)
  {
    bool r = false;
    lock();
    if (live) {
      size_t i = slot(uintptr_t(q));
      while (t[i] != 0) {
        if (t[i] == uintptr_t(q)) { t[i] = TOMB; --live; r = true; break; }
        i = (i + 1) & (cap - 1);
      }
    }
    unlock();
    return r;
  }
  void clear()
  {
    lock();
    if (cap) memset(t, 0, cap * sizeof(uintptr_t));
    used = live = 0;
    unlock();
  }
};
static LiveTab g_live;
static uint64_t g_fill = 0;
void heap_fill(uint64_t s) { g_fill = mix64(s) | 1; }
int64_t heap_live() { return int64_t(g_live.live); }
void heap_reset() { g_live.clear(); }

static bool alloc_should_fail()
{
  NoSut outside;
  auto * c = outside.c;
  if (!c) return false;
  ++c->allocs;
  if (c->cf.fail_alloc && c->allocs >= c->cf.fail_alloc && c->allocs < c->cf.fail_alloc + c->cf.fail_alloc_n) {
    c->alloc_failed = true;
    fault("alloc_failure");
    return true;
  }
  return false;
}
static void on_alloc(void * p, size_t n)
{
  NoSut outside;
  if (!outside.c || !p) return;
  g_live.insert(p);
  // seeded garbage in fresh memory: valid looking doubles / ints that differ between fills
  unsigned char * b = static_cast<unsigned char *>(p);
  uint64_t s        = g_fill;
  if (s == 0) return;
  size_t k = 0, lim = n < 65536 ? n : 65536;
  for (; k + 8 <= lim; k += 8) {
    s          = s * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t v = (s & 0x800fffffffffffffull) | 0x3ff0000000000000ull;  // +-[1,2)
    memcpy(b + k, &v, 8);
  }
  for (; k < lim; ++k) b[k] = 0xa5;
}
static void on_free(void * p)
{
  NoSut outside;
  if (p) g_live.erase(p);
}

SutResult sut(const std::function<void()> & f, const CallFaults & cf, uint64_t budget)
{
  SutResult r;
  CallCtx ctx;
  ctx.cf = cf;
  std::sort(ctx.cf.stall.begin(), ctx.cf.stall.end());
  std::sort(ctx.cf.jump.begin(), ctx.cf.jump.end());
  ctx.end_budget    = budget ? budget : 400000000ull;
  const int64_t ns0 = mono_ns();
  ++g_sut_calls;
  struct Guard
  {
    CallCtx * prev;
    ~Guard() { tl_call = nullptr; recompute_next(prev); tl_call = prev; }
  };
  auto * prev = tl_call;
  {
    Guard g{prev};
    recompute_next(&ctx);
    tl_call = &ctx;
    try {
      f();
    } catch (const Violation &) {
      throw;
    } catch (const std::bad_alloc &) {
      r.ok        = false;
      r.bad_alloc = true;
    } catch (const InjectedError & e) {
      r.ok       = false;
      r.injected = true;
      r.ex       = e.what();
    } catch (const std::exception & e) {
      r.ok = false;
      r.ex = std::string("exception: ") + e.what();
    } catch (...) {
      r.ok = false;
      r.ex = "unknown exception";
    }
  }
  r.edges        = ctx.own;
  r.allocs       = ctx.allocs;
  r.clock_reads  = ctx.reads;
  r.alloc_failed = ctx.alloc_failed;
  r.ns           = mono_ns() - ns0;
  g_total_sim_ns += int64_t(ctx.own) * C.ps_per_edge / 1000;
  logv(r.edges);
  logv(r.ok);
  return r;
}

}  // namespace sim

sim::SchedOut g_last_sched() { return sim::g_last_sched_(); }

// ------------------------------------------------------------------ interposed functions (-Wl,--wrap)
extern "C" {
void * __wrap_malloc(size_t n)
{
  if (sim::alloc_should_fail()) return nullptr;
  void * p = __real_malloc(n);
  sim::on_alloc(p, n);
  return p;
}
void * __wrap_calloc(size_t a, size_t b)
{
  if (sim::alloc_should_fail()) return nullptr;
  void * p = __real_calloc(a, b);
  sim::NoSut outside;
  if (p && outside.c) sim::g_live.insert(p);
  return p;
}
void * __wrap_realloc(void * q, size_t n)
{
  if (sim::alloc_should_fail()) return nullptr;
  sim::NoSut outside;
  bool had = q && sim::g_live.erase(q);
  void * p = __real_realloc(q, n);
  if (p && (had || outside.c)) sim::g_live.insert(p);
  if (!p && had && n) sim::g_live.insert(q);
  return p;
}
void __wrap_free(void * p)
{
  sim::on_free(p);
  __real_free(p);
}
// operator new / delete
void * __wrap__Znwm(size_t n)
{
  void * p = __wrap_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void * __wrap__Znam(size_t n) { return __wrap__Znwm(n); }
void * __wrap__ZnwmSt11align_val_t(size_t n, std::align_val_t al)
{
  if (sim::alloc_should_fail()) throw std::bad_alloc();
  void * p = nullptr;
  if (posix_memalign(&p, std::max(size_t(al), sizeof(void *)), n ? n : 1)) throw std::bad_alloc();
  sim::on_alloc(p, n);
  return p;
}
void * __wrap__ZnamSt11align_val_t(size_t n, std::align_val_t al) { return __wrap__ZnwmSt11align_val_t(n, al); }
void __wrap__ZdlPv(void * p) { __wrap_free(p); }
void __wrap__ZdaPv(void * p) { __wrap_free(p); }
void __wrap__ZdlPvm(void * p, size_t) { __wrap_free(p); }
void __wrap__ZdaPvm(void * p, size_t) { __wrap_free(p); }
void __wrap__ZdlPvSt11align_val_t(void * p, std::align_val_t) { __wrap_free(p); }
void __wrap__ZdlPvmSt11align_val_t(void * p, size_t, std::align_val_t) { __wrap_free(p); }
void __wrap__ZdaPvSt11align_val_t(void * p, std::align_val_t) { __wrap_free(p); }
void __wrap__ZdaPvmSt11align_val_t(void * p, size_t, std::align_val_t) { __wrap_free(p); }

int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
  if (!sim::tl_call || !sim::C.preempt) return __real_pthread_mutex_lock(m);
  for (int k = 0; k < 1000000; ++k) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    { sim::NoSut outside; sim::probe("mutex_contended"); }
    sim::yield_point();
  }
  return __real_pthread_mutex_lock(m);
}
int __wrap___cxa_guard_acquire(long * g)
{
  int r = __real___cxa_guard_acquire(g);
  if (r && sim::tl_call) ++sim::C.guards;
  return r;
}
void __wrap___cxa_guard_release(long * g)
{
  __real___cxa_guard_release(g);
  if (sim::tl_call && sim::C.guards > 0) --sim::C.guards;
}
void __wrap___cxa_guard_abort(long * g)
{
  __real___cxa_guard_abort(g);
  if (sim::tl_call && sim::C.guards > 0) --sim::C.guards;
}

// clocks
static void count_read() { if (sim::tl_call) { ++sim::tl_call->reads; } }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { count_read(); return sim::mono_ns(); }
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { count_read(); return sim::wall_ns(); }
int __wrap_clock_gettime(clockid_t id, struct timespec * ts)
{
  count_read();
  int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? sim::wall_ns() : sim::mono_ns();
  ts->tv_sec  = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec -= 1; }
  return 0;
}
int __wrap_gettimeofday(struct timeval * tv, void *)
{
  count_read();
  int64_t v   = sim::wall_ns();
  tv->tv_sec  = v / 1000000000;
  tv->tv_usec = (v % 1000000000) / 1000;
  return 0;
}
time_t __wrap_time(time_t * t)
{
  count_read();
  time_t v = sim::wall_ns() / 1000000000;
  if (t) *t = v;
  return v;
}
clock_t __wrap_clock() { count_read(); return sim::mono_ns() / (1000000000 / CLOCKS_PER_SEC); }
}  // extern "C"

extern "C" const char * __asan_default_options()
{
  return "alloc_dealloc_mismatch=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:abort_on_error=0:exitcode=99:quarantine_size_mb=16:malloc_context_size=6";
}
extern "C" const char * __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=1:exitcode=98"; }

// ------------------------------------------------------------------ main
namespace {
using namespace sim;

struct RunOut
{
  int status{0};  // 0 ok, 1 violation, 2 discarded
  std::string cls, msg;
  uint64_t hash{0};
};

RunOut run_plan(Plan & p)
{
  RunOut o;
  g_hash = 0x1234;
  C.edges = 0;
  C.next  = ~0ull;
  heap_reset();
  heap_fill(mix64(p.seed ^ 0xabcd));
  clock_reset(1000000000ll * 1000, 1700000000ll * 1000000000ll, 1.0);
  try {
    domain().execute(p);
  } catch (Violation & v) {
    o.status = 1;
    o.cls    = v.cls;
    o.msg    = v.msg;
  } catch (Discard &) {
    o.status = 2;
  }
  if (o.status == 1) { logs(o.cls); }
  o.hash = g_hash;
  return o;
}

std::string oneline(std::string s)
{
  for (auto & c : s) if (c == '\n' || c == '\r') c = ' ';
  return s;
}

// One run = one forked child: every run starts from the same pristine process state, and a crash, an
// abort or a stuck call is confined to (and attributed to) its run.
constexpr size_t kShm = 4u << 20;
char * g_shm = nullptr;
unsigned g_cpu_limit = 60;

void child_run(const std::function<Plan()> & make)
{
  struct rlimit rl{g_cpu_limit, g_cpu_limit + 2};
  setrlimit(RLIMIT_CPU, &rl);
  rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  alarm(g_cpu_limit * 6);
  g_probes.clear();
  g_faults.clear();
  g_states.clear();
  Plan p = make();
  auto o = run_plan(p);
  std::string t = fmt("R %d %s %llu %llu %lld %llu\n", o.status, o.cls.empty() ? "-" : o.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)g_sut_calls, (long long)g_total_sim_ns, (unsigned long long)p.ops.size());
  t += "M " + oneline(o.msg) + "\n";
  for (auto & [k, v] : g_probes) t += "P " + k + " " + std::to_string(v) + "\n";
  for (auto & [k, v] : g_faults) t += "F " + k + " " + std::to_string(v) + "\n";
  t += "S";
  size_t ns = 0;
  for (auto h : g_states) {
    if (++ns > 100000) break;
    t += fmt(" %llx", (unsigned long long)h);
  }
  t += "\n";
  if (t.size() + 1 >= kShm) t.resize(kShm - 2);
  memcpy(g_shm + 8, t.c_str(), t.size() + 1);
  std::atomic_thread_fence(std::memory_order_seq_cst);
  *reinterpret_cast<volatile uint64_t *>(g_shm) = 1;
  _exit(0);
}

}  // namespace

int main(int argc, char ** argv)
{
  struct NullBuf : std::streambuf
  {
    int overflow(int c) override { return c == traits_type::eof() ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
  };
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR") && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_ASLR", "1", 1);
    execv("/proc/self/exe", argv);
  }
  static NullBuf nullbuf;
  std::cout.rdbuf(&nullbuf);
  std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "gen" && argc >= 5) {
    Plan p = domain().generate(argv[2], strtoull(argv[3], nullptr, 10), atoi(argv[4]));
    p.prop = argv[2];
    p.seed = strtoull(argv[3], nullptr, 10);
    fputs(p.str().c_str(), stdout);
    fflush(stdout);
    _exit(0);
  }
  if (mode == "replay" && argc >= 3) {
    std::ifstream f(argv[2]);
    std::stringstream ss;
    ss << f.rdbuf();
    Plan p  = Plan::parse(ss.str());
    g_trace = argc >= 4;
    struct rlimit rl{g_cpu_limit, g_cpu_limit + 2};
    setrlimit(RLIMIT_CPU, &rl);
    alarm(g_cpu_limit * 6);
    auto o = run_plan(p);
    if (argc >= 5) {  // write the plan including the recorded schedule
      std::ofstream w(argv[4]);
      w << p.str();
    }
    printf("RESULT %d %s hash=%llu %s\n", o.status, o.cls.empty() ? "-" : o.cls.c_str(), (unsigned long long)o.hash, oneline(o.msg).c_str());
    fflush(stdout);
    fflush(stderr);
    _exit(0);
  }
  if (mode == "run" && argc >= 8) {
    // run PROP BASE FIRST COUNT THOROUGH OUT [STRIDE] [HASHFILE] [LIMIT_S]
    std::string prop = argv[2];
    uint64_t base    = strtoull(argv[3], nullptr, 10);
    uint64_t first = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10);
    bool thorough   = atoi(argv[6]);
    std::string out = argv[7];
    uint64_t stride = argc > 8 ? strtoull(argv[8], nullptr, 10) : 1;
    const char * hf = argc > 9 && strcmp(argv[9], "-") ? argv[9] : nullptr;
    double limit    = argc > 10 ? atof(argv[10]) : 1e9;
    FILE * hfile    = hf ? fopen(hf, "w") : nullptr;
    g_shm           = static_cast<char *>(mmap(nullptr, kShm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    int errfd       = open((out + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    uint64_t runs = 0, disc = 0;
    int64_t sim_ns = 0;
    std::vector<std::string> viol;
    (void)domain();
    struct timespec t0, t1;
    __real_clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t k = 0; k < count; ++k) {
      const uint64_t seed = mix64(base ^ mix64(hash_str(prop)) ^ mix64(first + k * stride)) >> 12;
      memset(g_shm, 0, 16);
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        if (ftruncate(errfd, 0)) {}
        lseek(errfd, 0, SEEK_SET);
        dup2(errfd, 2);
        child_run([&] {
          Plan p = domain().generate(prop, seed, thorough);
          p.prop = prop;
          p.seed = seed;
          return p;
        });
      }
      int st = 0;
      waitpid(pid, &st, 0);
      ++runs;
      uint64_t hash  = 0;
      int nontrivial = 0;
      if (*reinterpret_cast<volatile uint64_t *>(g_shm) == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        std::istringstream is(g_shm + 8);
        std::string line;
        std::string cls;
        int status       = 0;
        bool faulted     = false;
        uint64_t calls   = 0;
        while (std::getline(is, line)) {
          std::istringstream ls(line);
          std::string w;
          ls >> w;
          if (w == "R") {
            uint64_t nops;
            int64_t ns;
            ls >> status >> cls >> hash >> calls >> ns >> nops;
            sim_ns += ns;
          } else if (w == "M") {
            if (status == 1) viol.push_back("viol " + std::to_string(seed) + " " + cls + " " + line.substr(2));
          } else if (w == "P" || w == "F") {
            std::string n;
            uint64_t v;
            ls >> n >> v;
            (w == "P" ? g_probes : g_faults)[n] += v;
            if (w == "F" || n == "preemptive_switch") faulted = true;
          } else if (w == "S") {
            uint64_t h;
            while (ls >> std::hex >> h) if (g_states.size() < 2000000) g_states.insert(h);
          }
        }
        if (status == 2) ++disc;
        else nontrivial = faulted || calls >= 2;
        ++g_probes[faulted ? "runs_with_faults" : "runs_without_faults"];
      } else {
        std::string why = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exit status %d", WEXITSTATUS(st));
        const bool slow = WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL);
        std::ifstream ef(out + ".err");
        std::string line, sum;
        while (std::getline(ef, line))
          if (line.find("SUMMARY") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("Assertion") != std::string::npos || line.find("terminate called") != std::string::npos) sum += (sum.empty() ? "" : " | ") + line.substr(0, 300);
        viol.push_back("viol " + std::to_string(seed) + (slow ? " stuck " : " crash ") + why + ": " + oneline(sum));
      }
      if (hfile) { fprintf(hfile, "%llu %llu %d\n", (unsigned long long)seed, (unsigned long long)hash, nontrivial); }
      if (viol.size() >= 6) break;
      __real_clock_gettime(CLOCK_MONOTONIC, &t1);
      if (double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec) > limit) break;
    }
    if (hfile) fclose(hfile);
    unlink((out + ".err").c_str());
    std::ofstream f(out + ".tmp");
    f << "runs " << runs << "\n" << "discarded " << disc << "\n" << "sim_ns " << sim_ns << "\n";
    for (auto & [k, v] : g_probes) f << "probe " << k << " " << v << "\n";
    for (auto & [k, v] : g_faults) f << "fault " << k << " " << v << "\n";
    for (auto & v : viol) f << v << "\n";
    f.close();
    std::ofstream so(out + ".states", std::ios::binary);
    for (auto h : g_states) so.write(reinterpret_cast<const char *>(&h), 8);
    so.close();
    rename((out + ".tmp").c_str(), out.c_str());
    _exit(0);
  }
  fprintf(stderr, "usage: gen|replay|run\n");
  return 2;
}
