// PID controllers (C09) and time representations (C20).
#include "ctl_iface.hpp"
#include "rep.hpp"
#include <smooth/feedback/compat/ros.hpp>
#include <smooth/feedback/time.hpp>

using namespace sim;
namespace fb = smooth::feedback;
using namespace std::chrono;

template<class R, class P> static constexpr bool kSmallRep = sizeof(R) <= 4;

// ------------------------------------------------------------------ one clock in one representation
template<class T>
struct ClockRun
{
  using R = rep::Rep<T>;
  static_assert(fb::Time<T>);
  static long double range()
  {
    if constexpr (R::is_int) {
      if constexpr (std::is_same_v<T, duration<int32_t, std::ratio<1, 50>>>) return (long double)(1u << 29) * R::tick;
      return 0x1p61L * R::tick;
    } else
      return 1e15L;
  }
  // largest error of a time with this magnitude
  static long double res(long double v) { return R::is_int ? R::tick : 2 * R::eps() * std::fabs(v); }

  static void check_minus(T a, T b, const char * w)
  {
    double m = 0, m2 = 0;
    auto r = sut([&] { m = fb::time_trait<T>::minus(a, b); m2 = fb::time_trait<T>::minus(b, a); });
    if (!r.ok) fail("unexpected-exception", "%s: minus: %s", w, r.ex.c_str());
    const long double ex = R::secs(a, b);
    const long double tol = 1e-15L * std::fabs(ex) + 2 * R::eps() * std::fabs(ex);
    if (!(std::fabs(m - ex) <= tol)) fail("wrong-difference", "%s: %.17g s from %.17Lg s is %.17g s, exact %.17Lg s", w, double(R::value(b)), R::value(a), m, ex);
    if (!(m == -m2)) fail("asymmetric-difference", "%s: minus(a,b) = %.17g but minus(b,a) = %.17g", w, m, m2);
    logd(m);
  }
  static T check_plus(T t, double d, const char * w)
  {
    T r{};
    auto s = sut([&] { r = fb::time_trait<T>::plus(t, d); });
    if (!s.ok) fail("unexpected-exception", "%s: plus: %s", w, s.ex.c_str());
    const long double got = R::secs(r, t);
    const long double tol = (R::is_int ? R::tick * (1 + 1e-9L) : res(std::max(std::fabs(R::value(t)), std::fabs(R::value(r)))) + 2 * R::eps() * std::fabs((long double)d)) + 4e-16L * std::fabs((long double)d);
    if (!(std::fabs(got - d) <= tol)) fail("wrong-sum", "%s: adding %.17g s to %.17Lg s advanced the time by %.17Lg s (resolution %Lg s)", w, d, R::value(t), got, tol);
    if (d == 0 && got != 0) fail("wrong-sum", "%s: adding zero changes the time", w);
    // order
    if ((d > 2 * tol && !(r > t)) || (d < -2 * tol && !(r < t))) fail("wrong-order", "%s: adding %g s does not order the times", w, d);
    return r;
  }

  static void run(const Plan & plan, int ty)
  {
    T now = R::make(0), base = now;
    std::map<int, T> marks;
    long double acc = 0, accerr = 0;  // seconds advanced since base
    size_t opi = 0;
    for (auto & op : plan.ops) {
      ++opi;
      auto w = fmt("op %zu (type %d)", opi, ty);
      auto can = [&](long double d) { return std::fabs(R::value(now)) + std::fabs(d) < range(); };
      if (op.k == "tset") {  // clock epoch / reset
        const double s = op.d("s");
        if (!(std::fabs((long double)s) < range())) continue;
        now = R::make(rep::i128((long double)(s)*1e9L));
        base = now;
        acc = accerr = 0;
        marks.clear();
      } else if (op.k == "tplus") {
        const double d = op.d("d") * (op.i("rel") ? double(R::is_int ? R::tick : 1e-6L) : 1.);
        const int n    = 1 + int(op.i("n"));
        for (int k = 0; k < n; ++k) {
          if (!can(2 * d)) break;
          const T t2 = check_plus(now, d, w.c_str());
          accerr += res(std::max(std::fabs(R::value(now)), std::fabs(R::value(t2)))) + 1e-15L * std::fabs(acc) + (4e-16L + 2 * R::eps()) * std::fabs(d);
          acc += d;
          now = t2;
          const long double el = R::secs(now, base);
          if (!(std::fabs(el - acc) <= accerr * (1 + 1e-6L))) fail("drift", "%s: after adding %.17Lg s in steps the clock advanced %.17Lg s", w.c_str(), acc, el);
        }
        // subtracting what was added
        if (can(2 * d)) {
          const T b = check_plus(now, -d, w.c_str());
          check_minus(now, b, w.c_str());
        }
        check_minus(now, base, w.c_str());
        if (n > 1) probe("repeated_advance");
        if (d < 0) probe("negative_advance");
        if (op.i("rel") && std::fabs(op.d("d")) < 1) probe("sub_resolution_advance");
      } else if (op.k == "tmark") {
        marks[int(op.i("m"))] = now;
      } else if (op.k == "tdiff") {
        if (marks.count(int(op.i("m")))) check_minus(now, marks[int(op.i("m"))], w.c_str());
        check_minus(now, now, w.c_str());
      } else if (op.k == "tjump") {  // clock step of either sign, applied in the representation itself
        const double d = op.d("d");
        if (!can(2 * std::fabs(d))) continue;
        const T t2 = R::make(rep::i128(R::value(now) * 1e9L) + rep::i128((long double)(d)*1e9L));
        check_minus(t2, now, w.c_str());
        now  = t2;
        base = now;
        acc = accerr = 0;
        fault("clock_step");
      } else
        continue;
      state(hcomb(hcomb(uint64_t(ty), hash_str(op.k)), hcomb(uint64_t(R::value(now) < 0) * 64 + uint64_t(std::log2(1 + std::fabs(double(R::value(now))))), uint64_t(int64_t(op.d("d") == 0 ? -99 : std::log10(std::fabs(op.d("d"))))) * 2 + uint64_t(op.d("d") < 0))));
    }
  }
};

static void run_clock(const Plan & p, int ty)
{
  switch (ty) {
    case 0: return ClockRun<double>::run(p, ty);
    case 1: return ClockRun<float>::run(p, ty);
    case 2: return ClockRun<long double>::run(p, ty);
    case 3: return ClockRun<nanoseconds>::run(p, ty);
    case 4: return ClockRun<microseconds>::run(p, ty);
    case 5: return ClockRun<milliseconds>::run(p, ty);
    case 6: return ClockRun<seconds>::run(p, ty);
    case 7: return ClockRun<duration<double>>::run(p, ty);
    case 8: return ClockRun<duration<float, std::milli>>::run(p, ty);
    case 9: return ClockRun<duration<int32_t, std::ratio<1, 50>>>::run(p, ty);
    case 10: return ClockRun<system_clock::time_point>::run(p, ty);
    case 11: return ClockRun<time_point<system_clock, milliseconds>>::run(p, ty);
    case 12: return ClockRun<time_point<steady_clock, duration<double>>>::run(p, ty);
    case 13: return ClockRun<steady_clock::time_point>::run(p, ty);
    case 14: return ClockRun<rclcpp::Time>::run(p, ty);
    case 15: return ClockRun<minutes>::run(p, ty);
    case 16: return ClockRun<duration<int64_t, std::ratio<1, 3>>>::run(p, ty);
    case 17: return ClockRun<duration<double, std::nano>>::run(p, ty);
  }
}
static constexpr int kClockTypes = 18;

// ------------------------------------------------------------------ generation
static void gen_pid(Rng & g, Plan & pl, bool thorough, bool cmp)
{
  const int nt = !cmp && g.p(0.2) ? 2 : 1;
  const bool ms = cmp || g.p(0.4), clean = g.p(0.3);
  pl.ops.push_back(Op("cfg").set("T", double(g.i(0, kPidTimes - 1))).set("G", double(g.i(0, 2))).set("epoch", double(g.i(0, 5))).set("ms", ms).set("cmp", cmp));
  pl.ops.push_back(Op("fill").set("f", double(g.i(1, 1000))));
  if (nt > 1) pl.ops.push_back(Op("sched").set("seed", double(g.seed32())).set("mean", g.logu(20, 1500)));
  const int64_t grid = ms ? 1000000 : 1000;
  for (int k = 0; k < nt; ++k) {
    const int no   = int(g.i(1, 2));
    int64_t now    = 0;
    const double period = g.logu(2e-3, 0.5);
    for (int o = 0; o < no; ++o) {
      Op n("new");
      n.set("k", k).set("o", o);
      if (g.p(0.5)) n.set("lim", g.p(0.1) ? 0. : g.logu(1e-3, 3));
      pl.ops.push_back(n);
      if (g.p(0.8)) pl.ops.push_back(Op("gain").set("k", k).set("o", o).set("w", 2).set("scalar", g.p(0.5)).set("vs", double(g.seed32() & 0xffff)));
    }
    const int n = int(g.i(4, thorough ? 60 : 30));
    for (int q = 0; q < n; ++q) {
      const double r = g.u();
      Op o(r < 0.7 ? "call" : r < 0.77 ? "gain" : r < 0.87 ? "xdes" : r < 0.91 ? "reset" : r < 0.94 ? "copy" : r < 0.96 ? "move" : r < 0.98 ? "cassign" : "massign");
      o.set("k", k).set("o", double(g.i(0, no + 1 > 3 ? 2 : no)));
      if (g.p(0.8)) o.a["o"] = double(g.i(0, no - 1));
      o.set("vs", double(g.seed32() & 0xffff));
      if (o.k == "call") {
        double step = period;
        if (!clean) {
          const double e = g.u();
          if (e < 0.1) step = 0;                                        // duplicated sample
          else if (e < 0.18) step = -g.logu(1e-3, 5);                   // clock stepped back / reordered sample
          else if (e < 0.26) step = g.logu(1, 40);                      // stalled or lost samples
          else step = period * g.u(0.3, 1.8);                           // jitter
        }
        now += int64_t(std::llround(step * 1e9 / double(grid))) * grid;
        if (now < 0) now = 0;
        o.set("at", double(now)).set("xs", g.pick<double>({0.1, 0.5, 1.0}));
        if (!cmp && g.p(0.15)) o.set("on", double(g.i(1, 3)));
      } else if (o.k == "gain") {
        o.set("w", double(g.i(0, 2))).set("scalar", g.p(0.5)).set("zero", g.p(0.1));
      } else if (o.k == "xdes") {
        o.set("kind", cmp ? 0. : double(g.i(0, 1))).set("t0", double(now + grid * g.i(-200, 200))).set("rv", g.p(0.5)).set("n", double(g.i(0, 3)));
        if (!clean && g.p(0.3)) o.set("throws", double(g.i(2, 4)));
        if (!clean && !cmp && g.p(0.2)) o.set("oom", double(g.i(1, 3)));
      } else if (o.k != "reset") {
        o.set("to", double(g.i(0, no)));
        if (o.k == "copy" && !clean && !cmp && g.p(0.3)) o.set("oom", double(g.i(1, 3)));
      }
      pl.ops.push_back(o);
    }
  }
}

static double rnd_secs(Rng & g)
{
  const double r = g.u();
  double d = r < 0.15 ? double(g.i(0, 10)) : r < 0.3 ? double(g.i(1, 1000)) * 1e-3 : r < 0.4 ? double(g.i(1, 1000)) * 1e-9 : r < 0.9 ? g.logu(1e-10, 1e4) : g.logu(1e4, 1e13);
  return g.p(0.4) ? -d : d;
}

struct CtlDomain : Domain
{
  Plan generate(const std::string & prop, uint64_t seed, bool thorough) override
  {
    Rng g(seed);
    Plan pl;
    if (prop == "C09" || g.p(0.25)) {
      gen_pid(g, pl, thorough, prop == "C20");
      return pl;
    }
    const int n = int(g.i(1, 3));
    for (int k = 0; k < n; ++k) pl.ops.push_back(Op("type").set("ty", double(g.i(0, kClockTypes - 1))));
    pl.ops.push_back(Op("tset").set("s", g.p(0.3) ? 0. : g.p(0.5) ? 1.7e9 + g.u(0, 1e6) : rnd_secs(g) * 100));
    const int m = int(g.i(3, thorough ? 40 : 20));
    for (int k = 0; k < m; ++k) {
      const double r = g.u();
      Op o(r < 0.6 ? "tplus" : r < 0.7 ? "tmark" : r < 0.85 ? "tdiff" : r < 0.95 ? "tjump" : "tset");
      if (o.k == "tplus") {
        if (g.p(0.3)) o.set("rel", 1).set("d", (g.p(0.5) ? 1 : -1) * (g.p(0.5) ? g.u(0, 1) : double(g.i(0, 5)) + g.pick<double>({0, 0.5, 0.25, 1e-7})));
        else o.set("d", rnd_secs(g));
        if (g.p(0.2)) o.set("n", double(g.i(1, 30)));
      } else if (o.k == "tmark" || o.k == "tdiff") o.set("m", double(g.i(0, 2)));
      else if (o.k == "tjump") o.set("d", rnd_secs(g) * (g.p(0.2) ? 1e5 : 1));
      else o.set("s", g.p(0.3) ? double(rep::kEpoch[g.i(0, 5)]) * 1e-9 : rnd_secs(g) * 100);
      pl.ops.push_back(o);
    }
    return pl;
  }
  static std::unique_ptr<PidIface> mk(int G, int T) { return G == 0 ? make_pid_r2(T) : G == 1 ? make_pid_se2(T) : make_pid_so3(T); }
  void execute(Plan & plan) override
  {
    clock_reset(1000000000ll, 1700000000ll * 1000000000ll, 1);
    int nt = 1, T = 0, G = 0;
    bool pid = false, cmp = false;
    SchedCfg cfg;
    std::set<int> types;
    for (auto & o : plan.ops) {
      nt = std::max(nt, int(o.i("k")) + 1);
      if (o.k == "cfg") { pid = true; T = int(o.i("T")); G = int(o.i("G")); cmp = o.i("cmp"); }
      if (o.k == "type") types.insert(int(o.i("ty")));
      if (o.k == "sched") { cfg.seed = uint64_t(o.i("seed")); cfg.mean = o.d("mean", 200); cfg.use_explicit = o.i("explicit"); }
      if (o.k == "switch") cfg.explicit_.emplace_back(uint64_t(o.d("at")), int(o.i("to")));
      if (o.k == "call" && o.has("at")) probe("pid_calls");
    }
    if (!pid) {
      run_tasks({[&] { for (int ty : types) run_clock(plan, ty); }}, cfg);
      return;
    }
    if (cmp) {
      run_tasks({[&] {
        std::vector<double> ref;
        for (int t = 0; t < kPidTimes - 1; ++t) {
          std::vector<double> rec;
          mk(G, t)->run(plan, 0, &rec);
          if (t == 0) ref = rec;
          if (rec.size() != ref.size()) fail("representation-dependent", "type %d: %zu outputs, type 0: %zu", t, rec.size(), ref.size());
          for (size_t k = 0; k < rec.size(); ++k)
            if (!(std::fabs(rec[k] - ref[k]) <= 2e-4 * (1 + std::fabs(ref[k])))) fail("representation-dependent", "output %zu of the controller is %g with time type %d and %g with type 0", k, rec[k], t, ref[k]);
        }
        probe("representations_compared");
      }}, cfg);
      return;
    }
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t) bodies.push_back([&, t] { mk(G, T)->run(plan, t, nullptr); });
    cfg.preempt = nt > 1;
    auto so = run_tasks(bodies, cfg);
    if (nt > 1) { probe("interleavings"); logv(so.hash); }
  }
};

namespace sim {
Domain & domain()
{
  static CtlDomain d;
  return d;
}
}  // namespace sim
