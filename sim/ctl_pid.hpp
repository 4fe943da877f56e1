// PID controllers in one time representation and one group, against a model with its own clock arithmetic.
#pragma once
#include "ctl_iface.hpp"
#include "rep.hpp"
#include <functional>
#include <limits>
#include <numeric>
#include <optional>
#include <smooth/se2.hpp>
#include <smooth/so3.hpp>
#include <smooth/feedback/compat/ros.hpp>
#include <smooth/feedback/pid.hpp>

using namespace sim;
namespace fb = smooth::feedback;

struct TrajError : std::runtime_error { using runtime_error::runtime_error; };

template<class T, class G>
struct PidRun : PidIface
{
  using Tg = smooth::Tangent<G>;
  using R  = rep::Rep<T>;
  using C  = fb::PID<T, G>;
  static constexpr int N = int(smooth::Dof<G>);

  struct Traj  // what the controller was told to follow
  {
    int kind{0};  // 0 default, 1 function, 2 spline
    T t0{};
    Tg a, b, v0, v1, c0, c1;
    int throws{0};  // every throws-th evaluation fails
    std::shared_ptr<int> count = std::make_shared<int>(0);
    std::shared_ptr<T> seen    = std::make_shared<T>();
    std::shared_ptr<int> evals = std::make_shared<int>(0);
    smooth::Spline<3, G> sp;
    std::tuple<G, Tg, Tg> at(double s) const
    {
      return {smooth::exp<G>(Tg(a + std::sin(s) * b)), Tg(v0 + std::cos(s) * v1), Tg(c0 + std::sin(2 * s) * c1)};
    }
  };
  struct Obj
  {
    std::unique_ptr<C> c;
    double limit{0};
    Tg kp = Tg::Ones(), kd = Tg::Ones(), ki = Tg::Zero(), i = Tg::Zero();
    double imag{0};  // magnitude of what the integral accumulated (rounding scale)
    std::optional<T> last;
    Traj tr;
  };

  static Tg vec(Rng & g, double s) { Tg v; for (int k = 0; k < N; ++k) v(k) = s * g.n(); return v; }

  static void out(Obj & o, const Op & op, size_t opi, int64_t epoch, bool ms, std::vector<double> * rec)
  {
    Rng g(uint64_t(op.i("vs")) * 17 + 3);
    const int64_t ns = int64_t(op.d("at"));
    const T t        = R::make(rep::i128(ns) + epoch);
    G x        = smooth::exp<G>(vec(g, op.d("xs", 1)));
    Tg v       = vec(g, 1);
    if (op.i("on")) {  // exactly where the trajectory is, or off in one coordinate only
      const double s0 = o.tr.kind ? double(R::secs(t, o.tr.t0)) : 0;
      G xd = smooth::Identity<G>();
      Tg v0 = Tg::Zero(), a0 = Tg::Zero();
      if (o.tr.kind == 1) std::tie(xd, v0, a0) = o.tr.at(s0);
      if (o.tr.kind == 2) xd = o.tr.sp(s0, v0, a0);
      x = xd;
      if (op.i("on") == 2) { Tg d = Tg::Zero(); d(int(op.i("vs")) % N) = op.d("xs", 1); x = smooth::rplus(xd, d); }
      if (op.i("on") == 3) v = v0;
      probe("on_trajectory");
    }
    Tg u;
    const int ev0 = *o.tr.evals;
    auto r = sut([&] { u = (*o.c)(t, x, v); });
    auto wh = fmt("op %zu: call at %lld ns", opi, (long long)ns);
    if (!r.ok) {
      if (o.tr.kind == 1 && o.tr.throws && r.ex.find("trajectory failed") != std::string::npos) {
        fault("trajectory_failure");
        if (rec) rec->insert(rec->end(), N, 12345.);
        return;  // the call never happened
      }
      fail("unexpected-exception", "%s: %s", wh.c_str(), r.ex.c_str());
    }
    if (o.tr.kind == 1) {
      if (*o.tr.evals == ev0) fail("trajectory-not-used", "%s: the desired trajectory was not evaluated", wh.c_str());
      if (!(*o.tr.seen == t)) fail("trajectory-time", "%s: the desired trajectory was evaluated at another time (off by %Lg s)", wh.c_str(), R::secs(*o.tr.seen, t));
    }
    // model
    long double dt = o.last ? R::secs(t, *o.last) : 0;
    const double s = o.tr.kind ? double(R::secs(t, o.tr.t0)) : 0;
    G gd           = smooth::Identity<G>();
    Tg vd = Tg::Zero(), ad = Tg::Zero();
    if (o.tr.kind == 1) std::tie(gd, vd, ad) = o.tr.at(s);
    if (o.tr.kind == 2) gd = o.tr.sp(s, vd, ad);
    const Tg e = gd - x;
    const bool step = o.last && dt > 0;
    if (step) {
      o.i += double(dt) * e;
      o.imag = std::min(o.imag + std::fabs(double(dt)) * e.norm(), 2 * double(N) * o.limit + std::fabs(double(dt)) * e.norm());
      bool clamp = false;
      for (int k = 0; k < N; ++k) {
        if (o.i(k) > o.limit) { o.i(k) = o.limit; clamp = true; }
        if (o.i(k) < -o.limit) { o.i(k) = -o.limit; clamp = true; }
      }
      if (clamp) probe("windup_clamped");
    }
    probe(!o.last ? "first_call" : dt > 0 ? "forward_stamp" : dt == 0 ? "repeated_stamp" : "backward_stamp");
    o.last = t;
    const double teps = double(R::eps()) * (1 + std::fabs(double(R::value(t))));  // resolution of elapsed times
    double best = 1e300, tol = 0;
    const Tg pe = o.kp.cwiseProduct(e), ie = o.ki.cwiseProduct(o.i);
    for (double ds : {0., -4 * teps - 1e-12, 4 * teps + 1e-12}) {
      if (ds != 0 && o.tr.kind != 2) break;
      Tg vd2 = vd, ad2 = ad;
      if (o.tr.kind == 2 && ds != 0) o.tr.sp(s + ds, vd2, ad2);
      const Tg de = o.kd.cwiseProduct(vd2 - v);
      const Tg ur = ad2 + pe + de + ie;
      tol = 1e-9 * (1 + ad2.norm() + pe.norm() + de.norm() + ie.norm()) + (1e-9 + 4 * double(R::eps())) * o.ki.norm() * o.imag + 20 * teps * (1 + o.kp.norm() + o.kd.norm());
      best = std::min(best, (u - ur).cwiseAbs().maxCoeff());
      if (!u.allFinite()) best = 1e300;
    }
    if (!(best <= tol)) {
      const Tg ur = ad + pe + o.kd.cwiseProduct(vd - v) + ie;
      fail("wrong-output", "%s (elapsed %Lg s): output component off by %g: got (%g,%g..), law gives (%g,%g..)", wh.c_str(), dt, best, u(0), u(1), ur(0), ur(1));
    }
    for (int k = 0; k < N; ++k) logd(u(k));
    if (rec) for (int k = 0; k < N; ++k) rec->push_back(u(k));
    (void)ms;
    state(hcomb(hcomb(hash_str(typeid(T).name()), uint64_t(N) * 8 + uint64_t(o.tr.kind)), hcomb(uint64_t(dt > 0) * 2 + uint64_t(dt < 0), uint64_t(int(std::log2(1e-9 + std::fabs(double(dt))) * 0.5)) * 4 + uint64_t(o.i.norm() > 0) * 2 + uint64_t(o.limit > 1e9))));
  }

  void run(const Plan & plan, int tid, std::vector<double> * rec) override
  {
    std::map<int, Obj> os;
    int64_t epoch = 0;
    bool ms       = false;
    size_t opi    = 0;
    for (auto & op : plan.ops) {
      ++opi;
      if (op.k == "cfg") {
        const bool coarse = std::is_same_v<T, float>;
        epoch = coarse ? 0 : rep::kEpoch[op.i("epoch") % 6];
        ms    = op.i("ms");
        continue;
      }
      if (op.k == "fill") { if (tid == 0) heap_fill(uint64_t(op.i("f"))); continue; }
      if (op.i("k") != tid) continue;
      const int id = int(op.i("o"));
      if (op.k == "new") {
        Obj o;
        o.limit = op.has("lim") ? op.d("lim") : std::numeric_limits<double>::infinity();
        auto r = sut([&] { if (op.has("lim")) o.c = std::make_unique<C>(fb::PIDParams{.windup_limit = o.limit}); else o.c = std::make_unique<C>(); });
        if (!r.ok) fail("unexpected-exception", "op %zu: constructor: %s", opi, r.ex.c_str());
        os[id] = std::move(o);
        continue;
      }
      if (!os.count(id)) continue;
      Obj & o = os[id];
      Rng g(uint64_t(op.i("vs")) * 29 + 11);
      CallFaults cf;
      cf.fail_alloc = uint64_t(op.i("oom"));
      if (op.k == "call") out(o, op, opi, epoch, ms, rec);
      else if (op.k == "gain") {
        const int w = int(op.i("w"));
        Tg val = op.i("scalar") ? Tg(Tg::Constant(2 * g.n())) : vec(g, 2);
        if (op.i("zero")) val.setZero();
        const bool sc = op.i("scalar") || op.i("zero");
        auto r = sut([&] {
          if (w == 0) { if (sc) o.c->set_kp(val(0)); else o.c->set_kp(val); }
          if (w == 1) { if (sc) o.c->set_kd(val(0)); else o.c->set_kd(val); }
          if (w == 2) { if (sc) o.c->set_ki(val(0)); else o.c->set_ki(val); }
        });
        if (!r.ok) fail("unexpected-exception", "op %zu: gain: %s", opi, r.ex.c_str());
        (w == 0 ? o.kp : w == 1 ? o.kd : o.ki) = val;
      } else if (op.k == "reset") {
        auto r = sut([&] { o.c->reset_integral(); });
        if (!r.ok) fail("unexpected-exception", "op %zu: reset: %s", opi, r.ex.c_str());
        o.i.setZero();
        o.imag = 0;
        probe("integral_reset");
      } else if (op.k == "xdes") {
        Traj tr;
        tr.kind   = 1 + int(op.i("kind")) % 2;
        tr.t0     = R::make(rep::i128(int64_t(op.d("t0"))) + epoch);
        tr.throws = int(op.i("throws"));
        tr.a = vec(g, 1); tr.b = vec(g, 0.5); tr.v0 = vec(g, 1); tr.v1 = vec(g, 1); tr.c0 = vec(g, 1); tr.c1 = vec(g, 1);
        SutResult r;
        if (tr.kind == 1) {
          std::function<std::tuple<G, Tg, Tg>(T)> f = [tr](T t) -> std::tuple<G, Tg, Tg> {
            *tr.seen = t;
            ++*tr.evals;
            if (tr.throws && ++*tr.count % tr.throws == 0) throw TrajError("trajectory failed");
            return tr.at(double(R::secs(t, tr.t0)));
          };
          if (op.i("rv")) r = sut([&] { o.c->set_xdes(std::move(f)); }, cf);
          else r = sut([&] { o.c->set_xdes(f); }, cf);
        } else {
          const int n = 1 + int(op.i("n")) % 4;
          // knots half a microsecond off the grid of sample times
          for (int k = 0; k < n; ++k) tr.sp.add(0.1 + 0.05 * double(g.i(0, 20)) + (k == 0 ? 5e-7 : 0), vec(g, 1));
          if (op.i("rv")) { auto sp = tr.sp; r = sut([&] { o.c->set_xdes(tr.t0, std::move(sp)); }, cf); }
          else r = sut([&] { o.c->set_xdes(tr.t0, tr.sp); }, cf);
        }
        if (!r.ok) {
          if (!r.bad_alloc || !r.alloc_failed) fail("unexpected-exception", "op %zu: set_xdes: %s", opi, r.ex.c_str());
          fault("alloc_failure");  // the controller keeps following the old trajectory
        } else
          o.tr = tr;
        probe(tr.kind == 1 ? "function_trajectory" : "spline_trajectory");
      } else if (op.k == "copy" || op.k == "move" || op.k == "cassign" || op.k == "massign") {
        const int to = int(op.i("to"));
        if (to == id && op.k != "cassign") continue;
        const bool tgt = os.count(to);
        auto nc = [&](Obj & d) {  // model copy: trajectories share the recording cells, as copies of a callable do
          d.limit = o.limit; d.kp = o.kp; d.kd = o.kd; d.ki = o.ki; d.i = o.i; d.imag = o.imag; d.last = o.last; d.tr = o.tr;
        };
        SutResult r;
        if (op.k == "copy" || (op.k == "cassign" && !tgt)) {
          Obj d;
          r = sut([&] { d.c = std::make_unique<C>(std::as_const(*o.c)); }, cf);
          if (r.ok) { nc(d); os[to] = std::move(d); }
        } else if (op.k == "cassign") {
          Obj & d = os[to];
          r = sut([&] { *d.c = std::as_const(*o.c); });
          if (r.ok && to != id) nc(d);
        } else if (op.k == "move" || !tgt) {
          Obj d;
          r = sut([&] { d.c = std::make_unique<C>(std::move(*o.c)); });
          nc(d);
          os.erase(id);
          os[to] = std::move(d);
        } else {
          Obj & d = os[to];
          r = sut([&] { *d.c = std::move(*o.c); });
          nc(d);
          os.erase(id);
        }
        if (!r.ok) {
          if (!r.bad_alloc || !r.alloc_failed) fail("unexpected-exception", "op %zu: %s: %s", opi, op.k.c_str(), r.ex.c_str());
          fault("alloc_failure");
        }
        probe(op.k);
      }
    }
  }
};

template<class G>
std::unique_ptr<PidIface> make_pid(int t)
{
  using namespace std::chrono;
  switch (t) {
    case 0: return std::make_unique<PidRun<double, G>>();
    case 1: return std::make_unique<PidRun<nanoseconds, G>>();
    case 2: return std::make_unique<PidRun<milliseconds, G>>();
    case 3: return std::make_unique<PidRun<duration<double>, G>>();
    case 4: return std::make_unique<PidRun<system_clock::time_point, G>>();
    case 5: return std::make_unique<PidRun<time_point<steady_clock, duration<double>>, G>>();
    case 6: return std::make_unique<PidRun<rclcpp::Time, G>>();
    default: return std::make_unique<PidRun<float, G>>();
  }
}
