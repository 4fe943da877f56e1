// Deterministic simulation runtime: PRNG, plans, baton-passing task scheduler with
// basic-block preemption, simulated clocks, heap fault injection, statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t mix64(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed ^ 0x5151515151515151ull)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  // uniform integer in [lo, hi]
  int64_t i(int64_t lo, int64_t hi) { return lo + int64_t(u64() % uint64_t(hi - lo + 1)); }
  double u() { return double(u64() >> 11) * 0x1p-53; }
  double u(double lo, double hi) { return lo + (hi - lo) * u(); }
  double n()
  {  // approx normal
    double a = 0;
    for (int k = 0; k < 6; ++k) a += u();
    return (a - 3) * 1.4142135623730951;
  }
  bool p(double pr) { return u() < pr; }
  double logu(double lo, double hi) { return std::exp(u(std::log(lo), std::log(hi))); }
  uint32_t seed32() { return uint32_t(u64() >> 33); }
  template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, int64_t(l.size()) - 1)); }
};

// ---------------------------------------------------------------- plans
struct Op
{
  std::string k;
  std::map<std::string, double> a;
  Op() = default;
  Op(std::string kind) : k(std::move(kind)) {}
  Op & set(const std::string & n, double v) { a[n] = v; return *this; }
  double d(const std::string & n, double def = 0) const { auto it = a.find(n); return it == a.end() ? def : it->second; }
  int64_t i(const std::string & n, int64_t def = 0) const { return int64_t(d(n, double(def))); }
  bool has(const std::string & n) const { return a.count(n) != 0; }
};

struct Plan
{
  std::string prop;
  uint64_t seed{0};
  std::vector<Op> ops;
  std::string str() const;
  static Plan parse(const std::string & txt);
};

// ---------------------------------------------------------------- violations
struct Violation : std::exception
{
  std::string cls, msg;
  Violation(std::string c, std::string m) : cls(std::move(c)), msg(std::move(m)) {}
  const char * what() const noexcept override { return msg.c_str(); }
};
[[noreturn]] void fail(const std::string & cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
struct Discard : std::exception {};  // harness decided the run tests nothing

// ---------------------------------------------------------------- stats / log
void probe(const std::string & name, uint64_t n = 1);   // rare-condition probe
void fault(const std::string & kind, uint64_t n = 1);   // fault actually fired
void logv(uint64_t v);                                  // event log (hash)
void logd(double v);
void logs(const std::string & s);                       // event log + trace text (replay mode)
void state(uint64_t h);                                 // distinct state/interleaving measure
extern bool g_trace;                                    // replay mode: print the trace

// ---------------------------------------------------------------- system under test scopes
struct SutResult
{
  bool ok{true};          // returned normally
  bool bad_alloc{false};  // threw std::bad_alloc
  bool injected{false};   // threw sim::InjectedError
  std::string ex;         // other exception text
  uint64_t edges{0};      // basic blocks executed
  uint64_t allocs{0};     // allocations attempted
  int64_t ns{0};          // simulated time spent
  uint64_t clock_reads{0};
  bool alloc_failed{false};  // an allocation failure was injected during the call
};
struct InjectedError : std::runtime_error { using runtime_error::runtime_error; };

// fault script for one call into the system under test (edge / alloc indices are relative to the call)
struct CallFaults
{
  std::vector<std::pair<uint64_t, int64_t>> stall;  // at edge: monotonic (and wall) clock advances by ns
  std::vector<std::pair<uint64_t, int64_t>> jump;   // at edge: wall clock only steps by ns (signed)
  uint64_t fail_alloc{0};                           // 1-based index of the first allocation to fail (0: none)
  uint64_t fail_alloc_n{1};                         // how many consecutive allocations fail
};

SutResult sut(const std::function<void()> & f, const CallFaults & cf = {}, uint64_t budget = 0);

// ---------------------------------------------------------------- simulated clocks
int64_t mono_ns();
int64_t wall_ns();
void clock_reset(int64_t mono0, int64_t wall0, double ns_per_edge);
void clock_advance(int64_t ns);
void wall_jump(int64_t ns);

// ---------------------------------------------------------------- heap
void heap_fill(uint64_t seed);     // fill pattern of fresh memory
int64_t heap_live();               // live allocations made inside sut scopes of this run
void heap_reset();
void lib_alloc_fail(uint64_t nth); // unused by default

// ---------------------------------------------------------------- tasks
struct SchedCfg
{
  bool preempt{false};
  uint64_t seed{0};
  double mean{200};                                 // mean number of basic blocks between switches
  std::vector<std::pair<uint64_t, int>> explicit_;  // replay: (global edge, task)
  bool use_explicit{false};
};
struct SchedOut
{
  std::vector<std::pair<uint64_t, int>> switches;
  uint64_t hash{0};
};
// run the bodies as tasks (one real thread each, one running at a time); throws the first violation
SchedOut run_tasks(const std::vector<std::function<void()>> & bodies, const SchedCfg & cfg = {});
void yield_point();

// ---------------------------------------------------------------- domain interface
struct Domain
{
  virtual ~Domain() = default;
  virtual Plan generate(const std::string & prop, uint64_t seed, bool thorough) = 0;
  virtual void execute(Plan & plan) = 0;  // throws Violation; may append explicit schedule to plan
};
Domain & domain();

std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
inline uint64_t hash_str(const std::string & s) { uint64_t h = 1469598103934665603ull; for (char c : s) { h ^= uint8_t(c); h *= 1099511628211ull; } return h; }
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix64(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))); }

}  // namespace sim
