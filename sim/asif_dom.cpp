// Safety filters over call histories, against an independent barrier problem and optimiser (C14).
#include "rt.hpp"
#include "refqp.hpp"
#include <Eigen/Eigenvalues>
#include <functional>
#include <iostream>
#include <map>
#include <numeric>
#include <smooth/se2.hpp>
#include <smooth/so3.hpp>
#include <smooth/feedback/asif.hpp>

using namespace sim;
namespace fb = smooth::feedback;

namespace {
struct Ctl { int calls{0}, fail_at{-1}; bool fired{false}; };
thread_local Ctl tl_ctl;
struct CallbackError : std::runtime_error { using runtime_error::runtime_error; };
void tick()
{
  if (tl_ctl.calls++ == tl_ctl.fail_at) { tl_ctl.fired = true; throw CallbackError("callback failed"); }
}
struct Runner
{
  virtual ~Runner() = default;
  virtual void run(const Plan & plan, int tid) = 0;
};

template<class X, class U, int NH>
struct Run final : Runner
{
  static constexpr int Nx = int(smooth::Dof<X>), Nu = int(smooth::Dof<U>);
  using Tx = smooth::Tangent<X>;
  using Tu = Eigen::Matrix<double, Nu, 1>;
  using Vh = Eigen::Matrix<double, NH, 1>;
  using Mx = Eigen::Matrix<double, Nx, Nx>;

  template<int A, int B> static Eigen::Matrix<double, A, B> mat(Rng & g, double s)
  {
    Eigen::Matrix<double, A, B> m;
    for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) m(i, j) = s * g.n();
    return m;
  }
  static Tx coord(const X & x)
  {
    if constexpr (smooth::IsCommutative<X>) return x;
    else return Tx(x.p.x(), x.p.y(), std::sin(x.angle()));
  }
  struct Dyn
  {
    Tx w = Tx::Zero();
    Mx A = Mx::Zero();
    Eigen::Matrix<double, Nx, Nu> B = Eigen::Matrix<double, Nx, Nu>::Zero();
    double nl{0};
    Tx operator()(const X & x, const U & u) const
    {
      tick();
      const Tx c = coord(x);
      return w + A * c + nl * Tx(c.array().sin()) + B * (u + 0.05 * nl * u.cwiseProduct(u));
    }
  };
  struct Safe
  {
    Vh c = Vh::Ones(), ct = Vh::Zero();
    Eigen::Matrix<double, NH, Nx> L = Eigen::Matrix<double, NH, Nx>::Zero(), Q = L;
    double a{1};
    Vh operator()(double t, const X & x) const { tick(); return val(t, x); }
    Vh val(double t, const X & x) const
    {
      const Tx s = coord(x);
      return c + std::sin(a * t) * ct + L * s - Q.cwiseAbs() * s.cwiseProduct(s);
    }
  };
  struct Backup
  {
    Tu k0 = Tu::Zero(), k1 = Tu::Zero();
    Eigen::Matrix<double, Nu, Nx> K = Eigen::Matrix<double, Nu, Nx>::Zero();
    double nl{0};
    U operator()(double t, const X & x) const { tick(); return val(t, x); }
    U val(double t, const X & x) const
    {
      const Tx s = coord(x);
      return k0 + std::sin(t) * k1 + K * s + nl * (K * Tx(s.array().sin()));
    }
  };
  using M = fb::ASIFilter<X, U, Dyn>;
  struct Obj
  {
    std::unique_ptr<M> m;
    Dyn f;
    fb::ASIFilterParams<U> prm;
    Safe h;
    Backup bu;
    int calls{0};
    bool last_same{false};
  };
  template<class Fn> static auto jac(const Fn & fn, const X & g)
  {
    using V = std::decay_t<decltype(fn(g))>;
    Eigen::Matrix<double, V::RowsAtCompileTime, Nx> J;
    for (int k = 0; k < Nx; ++k) {
      auto d = [&](double h) -> V { return (fn(smooth::rplus(g, Tx(h * Tx::Unit(k)))) - fn(smooth::rplus(g, Tx(-h * Tx::Unit(k))))) / (2 * h); };
      J.col(k) = (4 * d(1e-3 / 2) - d(1e-3)) / 3;
    }
    return J;
  }

  // barrier problem over (mu, delta); early: sensitivity from the state before the step
  static void reference(const Obj & o, const X & x0, const U & ud, bool early, Eigen::MatrixXd & C, Eigen::VectorXd & l, Eigen::VectorXd & u)
  {
    const int K = int(o.prm.asif.K), ni = int(o.prm.ulim.A.rows());
    const double inf = std::numeric_limits<double>::infinity(), tau = o.prm.T / K;
    C = Eigen::MatrixXd::Zero(K * NH + ni + 1, Nu + 1);
    l = Eigen::VectorXd::Constant(C.rows(), -inf);
    u = Eigen::VectorXd::Constant(C.rows(), inf);
    X x  = x0;
    Mx S = Mx::Identity();
    auto fv = [&](const X & xx, const U & uu) -> Tx { const Tx c = coord(xx); return o.f.w + o.f.A * c + o.f.nl * Tx(c.array().sin()) + o.f.B * (uu + 0.05 * o.f.nl * uu.cwiseProduct(uu)); };
    const Tx f0 = fv(x0, ud);
    const Eigen::Matrix<double, Nx, Nu> Bu = o.f.B * (Tu::Ones() + 0.1 * o.f.nl * ud).asDiagonal();
    for (int k = 0; k < K; ++k) {
      const double t = tau * k;
      const Vh hv = o.h.val(t, x), ht = o.h.a * std::cos(o.h.a * t) * o.h.ct;
      const Eigen::Matrix<double, NH, Nx> hx = jac([&](const X & y) -> Vh { return o.h.val(t, y); }, x) * S;
      C.block(k * NH, 0, NH, Nu)  = hx * Bu;
      C.block(k * NH, Nu, NH, 1).setOnes();
      l.segment(k * NH, NH) = -ht - o.prm.asif.alpha * hv - hx * f0;
      double r = 0;  // time since t
      while (r < tau * (1 - 1e-12)) {
        const double dt = std::min(o.prm.asif.dt, tau - r), tt = t + r;
        auto cl = [&](const X & y) -> Tx { return fv(y, o.bu.val(tt, y)); };
        const Tx v = cl(x);
        if (early) { S = (S + dt * (jac(cl, x) - smooth::ad<X>(v)) * S).eval(); x = smooth::rplus(x, Tx(dt * v)); }
        else { x = smooth::rplus(x, Tx(dt * v)); S = (S + dt * (jac(cl, x) - smooth::ad<X>(cl(x))) * S).eval(); }
        r += dt;
      }
    }
    const Tu off = smooth::rminus(ud, o.prm.ulim.c);
    C.block(K * NH, 0, ni, Nu) = o.prm.ulim.A;
    l.segment(K * NH, ni) = o.prm.ulim.l - o.prm.ulim.A * off;
    u.segment(K * NH, ni) = o.prm.ulim.u - o.prm.ulim.A * off;
    C(K * NH + ni, Nu) = 1;
    l(K * NH + ni)     = 0;
  }
  static void calib(const char * n, double v)
  {
    static const bool on = getenv("SIM_CALIB") != nullptr;
    if (on && v > 0.01) fprintf(stderr, "CALIB %s %g\n", n, v);
  }
  static bool solved(fb::QPSolutionStatus c) { return c == fb::QPSolutionStatus::Optimal || c == fb::QPSolutionStatus::PolishFailed; }

  void call(Obj & o, const Op & op, size_t opi)
  {
    Rng g(uint64_t(op.i("vs")) * 61 + 7);
    const X x  = smooth::exp<X>(Tx(mat<Nx, 1>(g, op.d("xs", 0.4)).cwiseMax(-2).cwiseMin(2)));
    const U ud = mat<Nu, 1>(g, op.d("us", 1));
    std::pair<U, fb::QPSolutionStatus> ret;
    CallFaults cf;
    if (op.has("stall")) cf.stall.emplace_back(uint64_t(op.i("stall")), int64_t(op.d("sns", 5) * 1e9));
    tl_ctl = {0, op.has("fail") ? int(op.i("fail")) : -1, false};
    auto res = sut([&] { ret = (*o.m)(x, ud, o.h, o.bu); }, cf);
    const bool fired = tl_ctl.fired;
    tl_ctl = {};
    const auto wh = fmt("op %zu: call %d", opi, o.calls);
    ++o.calls;
    if (!res.ok) {
      if (fired && res.ex.find("callback failed") != std::string::npos) { fault("callback_failure"); return; }
      fail("unexpected-exception", "%s: %s", wh.c_str(), res.ex.c_str());
    }
    const auto code = ret.second;
    logd(ret.first(0)); logv(uint64_t(code));
    if (code == fb::QPSolutionStatus::MaxTime) {
      if (!o.prm.qp.max_time) fail("wrong-limit", "%s: time limit reported without a limit", wh.c_str());
      fault("solver_stalled");
      return;
    }
    if (code == fb::QPSolutionStatus::MaxIterations) {
      if (!o.prm.qp.max_iter) fail("wrong-limit", "%s: iteration limit reported without a limit", wh.c_str());
      probe("iteration_limit");
      return;
    }
    // every problem has a solution (the barrier constraints are relaxed, the bounds are not empty)
    if (!solved(code)) fail("not-solved", "%s: reported %d for a problem that has a solution", wh.c_str(), int(code));
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(Nu + 1, Nu + 1);
    for (int i = 0; i < Nu; ++i) H(i, i) = o.prm.u_weight(i);
    H(Nu, Nu) = o.prm.asif.relax_cost;
    double best = 1e300, want = 0, tol = 0;
    bool judged = true, active = false;
    for (int v = 0; v < 2; ++v) {
      Eigen::MatrixXd C;
      Eigen::VectorXd l, u;
      reference(o, x, ud, v, C, l, u);
      const auto s = refqp::solve(H, Eigen::VectorXd::Zero(Nu + 1), C, l, u, 1e-6);
      if (!s.ok) { if (s.fixed_bad) fail("harness", "%s: fixed row", wh.c_str()); judged = false; break; }
      const double eps = std::max(o.prm.qp.eps_abs, o.prm.qp.eps_rel), sc = 1 + s.u.cwiseAbs().maxCoeff(), dsc = 1 + (H * s.u).cwiseAbs().maxCoeff();
      const double tv = sc * 1e-4 + eps * (100 * sc * (1 + l.segment(0, int(o.prm.asif.K) * NH).cwiseAbs().maxCoeff()) + 30 * dsc / H.diagonal().minCoeff());
      const double e  = (smooth::rminus(ret.first, ud) - s.u.head(Nu)).cwiseAbs().maxCoeff();
      if (e / tv < best) { best = e / tv; want = s.u(0); tol = tv; }
      active = s.u.norm() > 1e-6;
      // what holds whatever the discretisation: bounds on the input, unchanged safe inputs
      if (v == 0) {
        const int ni = int(o.prm.ulim.A.rows());
        const Eigen::VectorXd b = o.prm.ulim.A * smooth::rminus(ret.first, o.prm.ulim.c);
        for (int i = 0; i < ni; ++i) {
          const double ex = std::max(b(i) - o.prm.ulim.u(i), o.prm.ulim.l(i) - b(i));
          if (!(ex <= tv)) fail("bound-violated", "%s: input bound violated by %g", wh.c_str(), ex);
        }
      }
    }
    if (!judged) { probe("reference_not_converged"); return; }
    calib("u", best);
    if (!(best <= 1)) fail(active ? "wrong-input" : "safe-input-changed", "%s: correction %g instead of %g (tolerance %g)", wh.c_str(), smooth::rminus(ret.first, ud)(0), want, tol);
    probe(active ? "corrected" : "unchanged");
    if (op.i("fresh")) {
      std::pair<U, fb::QPSolutionStatus> r2;
      auto s2 = sut([&] { M m2(o.f, o.prm); r2 = m2(x, ud, o.h, o.bu); });
      if (!s2.ok) fail("unexpected-exception", "%s: fresh filter: %s", wh.c_str(), s2.ex.c_str());
      if (solved(r2.second)) {
        if (!((r2.first - ret.first).cwiseAbs().maxCoeff() <= 2 * tol)) fail("history-dependent", "%s: %g, from a fresh filter %g", wh.c_str(), ret.first(0), r2.first(0));
        probe("fresh_compared");
      }
    }
    if (o.calls > 1) probe("repeated_call");
    state(hcomb(hcomb(uint64_t(code) * 64 + o.prm.asif.K, uint64_t(Nx * 10 + NH)), hcomb(uint64_t(active) * 8 + uint64_t(std::min(o.calls, 7)), uint64_t(int(want * 100) + 100000))));
  }

  void run(const Plan & plan, int tid) override
  {
    std::map<int, Obj> os;
    size_t opi = 0;
    for (auto & op : plan.ops) {
      ++opi;
      if (op.k == "fill") { if (tid == 0) heap_fill(uint64_t(op.i("f"))); continue; }
      if (op.k == "cfg" || op.k == "sched" || op.k == "switch" || op.i("k") != tid) continue;
      const int id = int(op.i("o"));
      Rng g(uint64_t(op.i("vs")) * 67 + 3);
      auto newh = [&](Obj & o) {
        o.h.c  = Vh::Constant(g.u(0.3, 2));
        o.h.ct = mat<NH, 1>(g, 0.3);
        o.h.L  = mat<NH, Nx>(g, 1);
        o.h.Q  = mat<NH, Nx>(g, op.d("nl", 0.3));
        o.h.a  = g.u(0.3, 3);
      };
      auto newb = [&](Obj & o) {
        o.bu.k0 = mat<Nu, 1>(g, 0.3);
        o.bu.k1 = mat<Nu, 1>(g, 0.3);
        o.bu.K  = mat<Nu, Nx>(g, 0.5);
        o.bu.nl = op.d("nl", 0.3);
      };
      if (op.k == "new") {
        Obj o;
        o.f.w = mat<Nx, 1>(g, 0.2);
        o.f.A = mat<Nx, Nx>(g, 0.4);
        o.f.B = mat<Nx, Nu>(g, 0.8);
        o.f.nl = op.d("nl", 0.3);
        newh(o);
        newb(o);
        o.prm.T  = g.logu(0.1, 3);
        o.prm.nh = NH;
        o.prm.asif.K = size_t(g.i(1, g.p(0.2) ? 12 : 6));
        o.prm.asif.alpha = g.logu(0.2, 5);
        // step sizes that divide the look-ahead times, do not, or exceed them
        const double tau = o.prm.T / double(o.prm.asif.K);
        o.prm.asif.dt = g.p(0.3) ? tau / double(g.i(1, 5)) : g.p(0.3) ? tau * g.u(1, 3) : tau * g.u(0.15, 1);
        o.prm.asif.relax_cost = g.logu(10, 1000);
        for (int i = 0; i < Nu; ++i) o.prm.u_weight(i) = g.logu(0.2, 5);
        const int ni = int(g.i(0, Nu + 1));
        o.prm.ulim.A = Eigen::MatrixXd::Zero(ni, Nu);
        o.prm.ulim.c = mat<Nu, 1>(g, 0.3);
        o.prm.ulim.l = Eigen::VectorXd(ni);
        o.prm.ulim.u = Eigen::VectorXd(ni);
        for (int i = 0; i < ni; ++i) {
          if (i < Nu) o.prm.ulim.A(i, i) = 1;
          else o.prm.ulim.A.row(i).setOnes();
          o.prm.ulim.u(i) = g.u(0.5, 2);
          o.prm.ulim.l(i) = g.p(0.2) ? -std::numeric_limits<double>::infinity() : -g.u(0.5, 2);
        }
        o.prm.qp.eps_abs = o.prm.qp.eps_rel = g.pick<double>({1e-4, 1e-4, 1e-5});
        o.prm.qp.polish   = g.p(0.8);
        o.prm.qp.max_iter = uint32_t(op.i("mi", 800));
        if (op.i("mt")) o.prm.qp.max_time = std::chrono::seconds(1);
        auto r = sut([&] { o.m = std::make_unique<M>(o.f, o.prm); });
        if (!r.ok) fail("unexpected-exception", "op %zu: constructor: %s", opi, r.ex.c_str());
        os[id] = std::move(o);
        continue;
      }
      if (!os.count(id)) continue;
      Obj & o = os[id];
      if (op.k == "call") call(o, op, opi);
      else if (op.k == "safe") newh(o);
      else if (op.k == "backup") newb(o);
      else if (op.k == "copy") {
        const int to = int(op.i("to"));
        if (to == id) continue;
        Obj d;
        d.f = o.f; d.prm = o.prm; d.h = o.h; d.bu = o.bu; d.calls = o.calls;
        const int how = int(op.i("how"));
        auto s = sut([&] {
          if (os.count(to) && how == 1) { d.m = std::move(os[to].m); *d.m = *o.m; }
          else if (how == 2) d.m = std::make_unique<M>(std::move(*o.m));
          else d.m = std::make_unique<M>(*o.m);
        });
        if (!s.ok) fail("unexpected-exception", "op %zu: copy: %s", opi, s.ex.c_str());
        os[to] = std::move(d);
        if (how == 2) os.erase(id);
        probe("copied");
      }
    }
  }
};
}  // namespace

struct AsifDomain : Domain
{
  Plan generate(const std::string &, uint64_t seed, bool thorough) override
  {
    Rng g(seed);
    Plan pl;
    const int nt      = g.p(0.2) ? 2 : 1;
    const bool faulty = g.p(0.6);
    const double nl   = g.pick<double>({0, 0.2, 0.5});
    pl.ops.push_back(Op("cfg").set("T", double(g.i(0, 2))));
    pl.ops.push_back(Op("fill").set("f", double(g.i(1, 1000))));
    if (nt > 1) pl.ops.push_back(Op("sched").set("seed", double(g.seed32())).set("mean", g.logu(100, 20000)));
    for (int k = 0; k < nt; ++k) {
      const int no = int(g.i(1, 2)), n = int(g.i(3, thorough ? 30 : 12));
      for (int o = 0; o < no; ++o) {
        Op q("new");
        q.set("k", k).set("o", o).set("vs", double(g.seed32() & 0xffff)).set("nl", nl);
        if (faulty && g.p(0.3)) q.set("mt", 1);
        if (faulty && g.p(0.1)) q.set("mi", double(g.i(1, 30)));
        pl.ops.push_back(q);
      }
      for (int q = 0; q < n; ++q) {
        const double r = g.u();
        Op o(r < 0.7 ? "call" : r < 0.8 ? "safe" : r < 0.9 ? "backup" : "copy");
        o.set("k", k).set("o", double(g.i(0, no - 1))).set("vs", double(g.seed32() & 0xffff)).set("nl", nl);
        if (o.k == "call") {
          o.set("xs", g.pick<double>({0.1, 0.4, 0.8})).set("us", g.pick<double>({0, 0.3, 1, 3}));
          if (g.p(0.4)) o.set("fresh", 1);
          if (faulty && g.p(0.2)) o.set("fail", double(g.i(0, 150)));
          if (faulty && g.p(0.2)) o.set("stall", g.logu(100, 100000)).set("sns", g.u(0.5, 10));
        } else if (o.k == "copy")
          o.set("to", double(g.i(0, no))).set("how", double(g.i(0, 2)));
        pl.ops.push_back(o);
      }
    }
    return pl;
  }
  void execute(Plan & plan) override
  {
    clock_reset(1000000000ll, 1700000000ll * 1000000000ll, 1);
    int nt = 1, T = 0;
    SchedCfg cfg;
    for (auto & o : plan.ops) {
      nt = std::max(nt, int(o.i("k")) + 1);
      if (o.k == "cfg") T = int(o.i("T"));
      if (o.k == "sched") { cfg.seed = uint64_t(o.i("seed")); cfg.mean = o.d("mean", 200); cfg.use_explicit = o.i("explicit"); }
      if (o.k == "switch") cfg.explicit_.emplace_back(uint64_t(o.d("at")), int(o.i("to")));
    }
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t)
      bodies.push_back([&, t] {
        std::unique_ptr<Runner> r;
        if (T == 0) r = std::make_unique<Run<Eigen::Vector2d, Eigen::Matrix<double, 1, 1>, 1>>();
        else if (T == 1) r = std::make_unique<Run<smooth::SE2d, Eigen::Vector2d, 2>>();
        else r = std::make_unique<Run<Eigen::Vector3d, Eigen::Vector2d, 3>>();
        r->run(plan, t);
      });
    cfg.preempt = nt > 1;
    auto so = run_tasks(bodies, cfg);
    if (nt > 1) { probe("interleavings"); logv(so.hash); }
  }
};

namespace sim {
Domain & domain()
{
  static AsifDomain d;
  return d;
}
}  // namespace sim
