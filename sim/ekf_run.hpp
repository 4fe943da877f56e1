// Extended Kalman filters over event streams, against a reference recursion (C10, C11).
#pragma once
#include "ekf_iface.hpp"
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
#include <Eigen/SVD>
#include <functional>
#include <map>
#include <numeric>
#include <smooth/se2.hpp>
#include <smooth/so3.hpp>
#include <smooth/feedback/ekf.hpp>

using namespace sim;
namespace fb = smooth::feedback;
namespace diff = smooth::diff;

struct ModelError : std::runtime_error { using runtime_error::runtime_error; };

// group product/log based helpers
template<class G, template<typename...> typename Stpr, bool RK4>
struct EkfRun : EkfIface
{
  using F = fb::EKF<G, diff::Type::Numerical, Stpr>;
  static constexpr int N = int(smooth::Dof<G>);
  using Tg  = smooth::Tangent<G>;
  using Cov = Eigen::Matrix<double, N, N>;

  struct Dyn  // generated dynamics f(t, g) = w + sin(a t) w1 + B (h(g)),  h a bounded function of the state
  {
    Tg w, w1;
    double a{0};
    Cov B;
    static Tg feat(const G & g)
    {
      if constexpr (smooth::IsCommutative<G>) return Tg(g).array().sin();
      else if constexpr (requires { g.q; }) {  // smooth everywhere, also half a turn away
        const Eigen::Matrix3d R = g.matrix();
        return Tg(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1)) / 2;
      } else
        return Tg(std::sin(g.p.x()), std::sin(g.p.y()), g.s);
    }
    Tg at(double t, const G & g) const { return w + std::sin(a * t) * w1 + B * feat(g); }
  };
  template<int M>
  struct Meas  // h(g) = H0 + H1 feat(g) + H2 (feat(g) elementwise squared)
  {
    Eigen::Matrix<double, M, 1> c;
    Eigen::Matrix<double, M, N> H1, H2;
    Eigen::Matrix<double, M, 1> at(const G & g) const
    {
      const Tg f = Dyn::feat(g);
      return c + H1 * f + H2 * f.cwiseProduct(f);
    }
  };
  struct Obj
  {
    std::unique_ptr<F> f;
    G g = smooth::Default<G>();
    Cov P = Cov::Identity();
    bool valid{true};  // false: half propagated, needs a reset
  };

  template<int R, int C> static Eigen::Matrix<double, R, C> mat(Rng & r, double s)
  {
    Eigen::Matrix<double, R, C> m;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = s * r.n();
    return m;
  }
  template<int M> static Eigen::Matrix<double, M, M> spd(Rng & r, double s, double lo)
  {
    const Eigen::Matrix<double, M, M> a = mat<M, M>(r, 1);
    Eigen::Matrix<double, M, M> p = s * (a * a.transpose() / M + lo * Eigen::Matrix<double, M, M>::Identity());
    return Eigen::Matrix<double, M, M>(0.5 * (p + p.transpose()));
  }

  // derivative of a function of the state at g along the right tangent, by Richardson extrapolated central differences
  template<class Fn> static auto jac(const Fn & fn, const G & g)
  {
    using V = decltype(fn(g));
    Eigen::Matrix<double, V::RowsAtCompileTime, N> J;
    for (int k = 0; k < N; ++k) {
      auto d = [&](double h) -> V { return (fn(smooth::rplus(g, Tg(h * Tg::Unit(k)))) - fn(smooth::rplus(g, Tg(-h * Tg::Unit(k))))) / (2 * h); };
      const double h = 1e-3;
      J.col(k) = (4 * d(h / 2) - d(h)) / 3;
    }
    return J;
  }

  static void model_step(Obj & o, const Dyn & f, const Cov & Q, double t, double dt)
  {
    const G g0 = o.g;
    auto A  = [&](double tt) -> Cov { return -smooth::ad<G>(f.at(tt, g0)) + jac([&](const G & x) -> Tg { return f.at(tt, x); }, g0); };
    auto cd = [&](double tt, const Cov & P) -> Cov { const Cov a = A(tt); return a * P + P * a.transpose() + Q; };
    if (!RK4) {
      o.P = o.P + dt * cd(t, o.P);
      o.g = smooth::rplus(g0, Tg(dt * f.at(t, g0)));
    } else {
      const Cov k1 = cd(t, o.P), k2 = cd(t + dt / 2, o.P + dt / 2 * k1), k3 = cd(t + dt / 2, o.P + dt / 2 * k2), k4 = cd(t + dt, o.P + dt * k3);
      o.P = o.P + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
      const Tg a = f.at(t, g0), b = f.at(t + dt / 2, smooth::rplus(g0, Tg(dt / 2 * a))), c = f.at(t + dt / 2, smooth::rplus(g0, Tg(dt / 2 * b))), d = f.at(t + dt, smooth::rplus(g0, Tg(dt * c)));
      o.g = smooth::rplus(g0, Tg(dt / 6 * (a + 2 * b + 2 * c + d)));
    }
  }

  static void compare(const Obj & o, const std::string & w)
  {
    const G g   = o.f->estimate();
    const Cov P = o.f->covariance();
    const double sc = 1 + o.P.cwiseAbs().maxCoeff();
    if (!P.allFinite()) fail("not-finite", "%s: covariance is not finite", w.c_str());
    const double asym = (P - P.transpose()).cwiseAbs().maxCoeff();
    if (!(asym <= 1e-12 * sc)) fail("asymmetric", "%s: covariance asymmetric by %g", w.c_str(), asym);
    const double dg = Tg(g - o.g).norm(), dP = (P - o.P).cwiseAbs().maxCoeff();
    if (!(dg <= 1e-6 * (1 + smooth::log(o.g).norm()))) fail("wrong-estimate", "%s: estimate off by %g from the reference recursion", w.c_str(), dg);
    if (!(dP <= 2e-6 * sc)) fail("wrong-covariance", "%s: covariance off by %g (size %g) from the reference recursion", w.c_str(), dP, sc);
    for (int i = 0; i < N; ++i) logd(P(i, i));
  }
  static void same(const Obj & o, const G & g0, const Cov & P0, const char * cls, const std::string & w)
  {
    const double dg = Tg(o.f->estimate() - g0).norm(), dP = (o.f->covariance() - P0).cwiseAbs().maxCoeff();
    if (!(dg <= 1e-13 * (1 + smooth::log(g0).norm()) && dP <= 1e-13 * (1 + P0.cwiseAbs().maxCoeff()))) fail(cls, "%s: estimate changed by %g, covariance by %g", w.c_str(), dg, dP);
  }

  void predict(Obj & o, const Op & op, size_t opi)
  {
    Rng r(uint64_t(op.i("vs")) * 37 + 5);
    Dyn f;
    f.w = mat<N, 1>(r, 0.7); f.w1 = mat<N, 1>(r, 0.4); f.a = r.u(0.5, 4); f.B = mat<N, N>(r, op.d("nl", 0.3));
    Cov Q = spd<N>(r, r.logu(1e-3, 0.3), 0.1), Qg = Q;
    if (op.i("junk")) { for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) Qg(i, j) = 1e3 * r.n(); }
    const double tau = op.d("tau"), dt = op.d("dt");
    const bool split = op.has("dt");
    const auto wh = fmt("op %zu: propagation over %.6g s%s", opi, tau, split ? fmt(" in steps of at most %.6g s", dt).c_str() : "");
    const int fk = op.has("fail") ? int(op.i("fail")) : -1;
    int calls = 0;
    double tmin = 1e300, tmax = -1e300;
    auto fn = [&]<typename Z>(double t, const Z & g) -> Tg {
      if (calls++ == fk) throw ModelError("dynamics failed");
      tmin = std::min(tmin, t);
      tmax = std::max(tmax, t);
      return f.at(t, g);
    };
    const double steps = split ? std::fabs(tau / dt) : 1;
    const G g0   = o.f->estimate();
    const Cov P0 = o.f->covariance();
    CallFaults cf;
    cf.fail_alloc = uint64_t(op.i("oom"));
    auto run = [&](F & flt) {
      if (split) { if (op.i("junk")) flt.predict(fn, Qg, tau, dt); else flt.predict(fn, Q, tau, dt); }
      else if (op.i("junk")) flt.predict(fn, Qg, tau);
      else flt.predict(fn, Q, tau);
    };
    auto res = sut([&] { run(*o.f); }, cf, uint64_t((steps + 2) * 4e5));
    (void)g0; (void)P0;
    if (!res.ok) {
      if (res.ex.find("dynamics failed") != std::string::npos && calls == fk + 1) { fault("dynamics_failure"); o.valid = false; return; }
      if (res.bad_alloc && res.alloc_failed) { fault("alloc_failure"); o.valid = false; return; }
      fail("unexpected-exception", "%s: %s", wh.c_str(), res.ex.c_str());
    }
    if (!o.valid) return;
    // times handed to the model must lie inside the propagation interval
    const double lo = std::min(0., tau), hi = std::max(0., tau), te = 1e-9 * (1 + std::fabs(tau));
    if (tmin < lo - te || tmax > hi + te) fail("wrong-time", "%s: dynamics evaluated at times %g..%g", wh.c_str(), tmin, tmax);
    if (split) {
      double t = 0;
      int n = 0;
      while (t + dt < tau * (1 - 1e-12)) { model_step(o, f, Q, t, dt); t += dt; ++n; }
      model_step(o, f, Q, t, tau - t);
      if (n) probe("split_propagation");
    } else
      model_step(o, f, Q, 0, tau);
    compare(o, wh);
    if (tau < 0) probe("backward_propagation");
    if (tau == 0) probe("zero_propagation");
    // keep rounding of the model from accumulating over long histories
    o.g = o.f->estimate();
    o.P = o.f->covariance();
  }

  template<int M> void update(Obj & o, const Op & op, size_t opi)
  {
    Rng r(uint64_t(op.i("vs")) * 41 + 9);
    Meas<M> h{mat<M, 1>(r, 1), mat<M, N>(r, 1), mat<M, N>(r, op.d("nl", 0.3))};
    if (op.i("deg")) h.H1.setZero(), h.H2.setZero();  // uninformative measurement
    Eigen::Matrix<double, M, M> R = spd<M>(r, r.logu(1e-4, 10), 0.2), Rg = R;
    if (op.i("junk")) { for (int i = 0; i < M; ++i) for (int j = 0; j < i; ++j) Rg(i, j) = 1e3 * r.n(); }
    const Eigen::Matrix<double, M, 1> y = h.at(o.f->estimate()) + mat<M, 1>(r, op.d("ys", 0.2));
    const auto wh = fmt("op %zu: %d-dimensional measurement", opi, M);
    const int fk = op.has("fail") ? int(op.i("fail")) : -1;
    int calls = 0;
    auto fn = [&](const G & g) -> Eigen::Matrix<double, M, 1> {
      if (calls++ == fk) throw ModelError("measurement failed");
      return h.at(g);
    };
    finish<M>(o, op, wh, fk, calls, [&] { if (op.i("junk")) o.f->update(fn, y, Rg); else o.f->update(fn, y, R); }, [&](const G & g) { return h.at(g); }, [&](const G & g) -> Eigen::Matrix<double, M, 1> { return y - h.at(g); }, R);
  }
  // measurement of the full state (a group element)
  void update_group(Obj & o, const Op & op, size_t opi)
  {
    if constexpr (!smooth::IsCommutative<G>) {
      Rng r(uint64_t(op.i("vs")) * 43 + 9);
      const Cov R = spd<N>(r, r.logu(1e-4, 10), 0.2);
      const G off = smooth::exp<G>(Tg(mat<N, 1>(r, 0.5)));
      const G y   = off * o.f->estimate() * smooth::exp<G>(Tg(mat<N, 1>(r, op.d("ys", 0.2))));
      const int fk = op.has("fail") ? int(op.i("fail")) : -1;
      int calls = 0;
      auto fn = [&](const G & g) -> G { if (calls++ == fk) throw ModelError("measurement failed"); return off * g; };
      const G ref = off * o.f->estimate();
      finish<N>(o, op, fmt("op %zu: group measurement", opi), fk, calls, [&] { o.f->update(fn, y, R); }, [&](const G & g) -> Tg { return (off * g) - ref; }, [&](const G & g) -> Tg { return y - off * g; }, R);
      probe("group_measurement");
    } else
      update<2>(o, op, opi);
  }
  template<int M, class Call, class H, class E>
  void finish(Obj & o, const Op & op, const std::string & wh, int fk, int & calls, const Call & call, const H & h, const E & inno, const Eigen::Matrix<double, M, M> & R)
  {
    const G g0   = o.f->estimate();
    const Cov P0 = o.f->covariance();
    CallFaults cf;
    cf.fail_alloc = uint64_t(op.i("oom"));
    auto res = sut([&] { call(); }, cf);
    if (!res.ok) {
      const bool inj = res.ex.find("measurement failed") != std::string::npos && calls == fk + 1, oom = res.bad_alloc && res.alloc_failed;
      if (!inj && !oom) fail("unexpected-exception", "%s: %s", wh.c_str(), res.ex.c_str());
      fault(inj ? "measurement_failure" : "alloc_failure");
      same(o, g0, P0, "half-updated", wh + " (failed)");
      return;
    }
    if (!o.valid) return;
    const Eigen::Matrix<double, M, N> J = jac(h, o.g);
    const Eigen::Matrix<double, M, M> S = J * o.P * J.transpose() + R;
    const Eigen::Matrix<double, N, M> K = S.fullPivLu().solve(J * o.P).transpose();
    o.g = smooth::rplus(o.g, Tg(K * inno(o.g)));
    o.P = ((Cov::Identity() - K * J) * o.P).eval();
    o.P = (0.5 * (o.P + o.P.transpose())).eval();
    // a propagation backwards may leave the covariance indefinite and the innovation covariance almost singular
    Eigen::JacobiSVD<Eigen::Matrix<double, M, M>> svd(S);
    if (svd.singularValues()(M - 1) > 1e-3 * (svd.singularValues()(0) + o.P.cwiseAbs().maxCoeff())) compare(o, wh);
    else probe("ill_conditioned_update");
    // P0 positive semidefinite: so is the new covariance, and it is not larger
    const Cov P1 = o.f->covariance();
    Eigen::SelfAdjointEigenSolver<Cov> e0(P0), e1(P1), ed(Cov(P0 - P1));
    const double sc = 1e-9 * (1 + P0.cwiseAbs().maxCoeff());
    if (e0.eigenvalues().minCoeff() >= -1e-14) {
      if (e1.eigenvalues().minCoeff() < -sc) fail("indefinite", "%s: covariance has eigenvalue %g", wh.c_str(), e1.eigenvalues().minCoeff());
      if (ed.eigenvalues().minCoeff() < -sc) fail("covariance-increased", "%s: covariance increased by %g", wh.c_str(), -ed.eigenvalues().minCoeff());
      probe("update_checked_definite");
    }
    o.g = o.f->estimate();
    o.P = P1;
  }

  void run(const Plan & plan, int tid) override
  {
    std::map<int, Obj> os;
    size_t opi = 0;
    for (auto & op : plan.ops) {
      ++opi;
      if (op.k == "fill") { if (tid == 0) heap_fill(uint64_t(op.i("f"))); continue; }
      if (op.k == "cfg" || op.k == "sched" || op.k == "switch" || op.i("k") != tid) continue;
      const int id = int(op.i("o"));
      if (op.k == "new") {
        Obj o;
        auto r = sut([&] { o.f = std::make_unique<F>(); });
        if (!r.ok) fail("unexpected-exception", "op %zu: constructor: %s", opi, r.ex.c_str());
        compare(o, fmt("op %zu: new filter", opi));
        os[id] = std::move(o);
        continue;
      }
      if (!os.count(id)) continue;
      Obj & o = os[id];
      if (op.k == "reset") {
        Rng r(uint64_t(op.i("vs")) * 47 + 1);
        const G g   = op.i("sing") == 3 ? smooth::Identity<G>() : smooth::exp<G>(Tg(mat<N, 1>(r, 0.7)));
        Cov P = spd<N>(r, r.logu(1e-3, 10), op.i("sing") ? 0 : 0.1);
        if (op.i("sing") == 1) { P.col(0).setZero(); P.row(0).setZero(); }
        if (op.i("sing") == 2) P.setZero();  // a perfectly known state
        auto s = sut([&] { o.f->reset(g, P); });
        if (!s.ok) fail("unexpected-exception", "op %zu: reset: %s", opi, s.ex.c_str());
        if (!o.valid) probe("reset_after_failed_propagation");
        o.g = g; o.P = P; o.valid = true;
        compare(o, fmt("op %zu: reset", opi));
      } else if (op.k == "predict") predict(o, op, opi);
      else if (op.k == "update") {
        switch (op.i("m") % 4) {
          case 0: update<1>(o, op, opi); break;
          case 1: update<2>(o, op, opi); break;
          case 2: update<4>(o, op, opi); break;
          default: update_group(o, op, opi);
        }
      } else if (op.k == "copy") {
        const int to = int(op.i("to"));
        if (to == id) continue;
        SutResult s;
        Obj d;
        if (op.i("how") == 0 || !os.count(to)) { s = sut([&] { d.f = std::make_unique<F>(*o.f); }); d.g = o.g; d.P = o.P; d.valid = o.valid; if (s.ok) os[to] = std::move(d); }
        else { s = sut([&] { *os[to].f = *o.f; }); os[to].g = o.g; os[to].P = o.P; os[to].valid = o.valid; }
        if (!s.ok) fail("unexpected-exception", "op %zu: copy: %s", opi, s.ex.c_str());
        probe("copy");
      }
      // no operation changes another filter
      for (auto & [k, x] : os) if (x.valid) same(x, x.g, x.P, "cross-talk", fmt("op %zu: filter %d", opi, k));
      if (os.count(id) && os[id].valid) state(hcomb(hcomb(hash_str(op.k), uint64_t(N * 4 + RK4 + (smooth::IsCommutative<G> ? 2 : 0))), hcomb(uint64_t(op.i("m")) * 8 + uint64_t(op.has("dt")) * 4 + uint64_t(op.has("fail")), uint64_t(int(std::log2(1e-9 + std::fabs(op.d("tau")))) + 64) * 64 + uint64_t(int(std::log2(1e-9 + os[id].P.trace())) + 32))));
    }
  }
};
