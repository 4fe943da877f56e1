// Model-predictive controllers over call histories, against an independent transcription and optimiser (C12, C13).
#pragma once
#include "mpc_iface.hpp"
#include "refqp.hpp"
#include <Eigen/Eigenvalues>
#include "rep.hpp"
#include <functional>
#include <iostream>
#include <map>
#include <numeric>
#include <smooth/se2.hpp>
#include <smooth/so3.hpp>
#include <smooth/feedback/mpc.hpp>

using namespace sim;
namespace fb = smooth::feedback;

namespace mpcsim {

// callbacks of the running task fail on command
struct Ctl { int calls{0}, fail_at{-1}; bool fired{false}; };
inline thread_local Ctl tl_ctl;
struct CallbackError : std::runtime_error { using runtime_error::runtime_error; };
inline void tick()
{
  if (tl_ctl.calls++ == tl_ctl.fail_at) { tl_ctl.fired = true; throw CallbackError("callback failed"); }
}

// Legendre-Gauss-Radau points on [-1, 1), weights, and the differentiation matrix over the points and +1
struct Lgr
{
  int K;
  Eigen::VectorXd x, w;
  Eigen::MatrixXd D;  // K x (K + 1)
  explicit Lgr(int K_) : K(K_), x(K_ + 1), w(K_), D(K_, K_ + 1)
  {
    auto P = [&](double t, int n) { double a = 1, b = t; if (n == 0) return 1.; for (int k = 1; k < n; ++k) { const double c = ((2 * k + 1) * t * b - k * a) / (k + 1); a = b; b = c; } return b; };
    auto f = [&](double t) { return P(t, K - 1) + P(t, K); };
    x(0) = -1;
    int n = 1;
    const int S = 4000;
    for (int k = 0; k < S && n < K; ++k) {  // bracket and bisect the other roots
      double a = -1 + 1e-6 + (2 - 1e-6) * k / S, b = -1 + 1e-6 + (2 - 1e-6) * (k + 1) / S;
      if (f(a) * f(b) > 0) continue;
      for (int q = 0; q < 80; ++q) { const double m = (a + b) / 2; (f(a) * f(m) <= 0 ? b : a) = m; }
      x(n++) = (a + b) / 2;
    }
    x(K) = 1;
    for (int i = 0; i < K; ++i) w(i) = i == 0 ? 2. / (K * K) : (1 - x(i)) / std::pow(K * P(x(i), K - 1), 2);
    for (int i = 0; i < K; ++i) for (int j = 0; j <= K; ++j) {
      double s = 0;  // derivative of the j-th Lagrange polynomial at x_i
      for (int a = 0; a <= K; ++a) if (a != j) {
        double p = 1 / (x(j) - x(a));
        for (int b = 0; b <= K; ++b) if (b != j && b != a) p *= (x(i) - x(b)) / (x(j) - x(b));
        s += p;
      }
      D(i, j) = s;
    }
  }
};

template<class T_, class X_, class U_, int NCR, std::size_t KM, bool TIMEF, bool TIMECR, bool JAC, smooth::diff::Type DT>
struct Run : MpcRunner
{
  using T = T_;
  using X = X_;
  using U = U_;
  using R = rep::Rep<T>;
  static constexpr int Nx = int(smooth::Dof<X>), Nu = int(smooth::Dof<U>);
  using Tx = smooth::Tangent<X>;
  using Tu = Eigen::Matrix<double, Nu, 1>;
  using Vc = Eigen::Matrix<double, NCR, 1>;

  // ---------------------------------------------------------------- generated problem functions
  // bounded features of the state and their derivatives along right tangents
  static void feat(const X & x, Tx & s, Eigen::Matrix<double, Nx, Nx> & ds)
  {
    if constexpr (smooth::IsCommutative<X>) {
      s  = (Tx(x) * 0.7).array().sin();
      ds = (0.7 * (Tx(x) * 0.7).array().cos()).matrix().asDiagonal();
    } else {  // SE2: position and angle
      const double th = x.angle();
      s  = Tx(std::sin(0.5 * x.p.x()), std::sin(0.5 * x.p.y()), std::sin(th));
      ds.setZero();
      ds(0, 0) = 0.5 * std::cos(0.5 * x.p.x()) * x.c;
      ds(0, 1) = -0.5 * std::cos(0.5 * x.p.x()) * x.s;
      ds(1, 0) = 0.5 * std::cos(0.5 * x.p.y()) * x.s;
      ds(1, 1) = 0.5 * std::cos(0.5 * x.p.y()) * x.c;
      ds(2, 2) = std::cos(th);
    }
  }
  struct DynF
  {
    Tx w = Tx::Zero(), w1 = Tx::Zero();
    double a{0}, b1{0};
    Eigen::Matrix<double, Nx, Nx> A = Eigen::Matrix<double, Nx, Nx>::Zero();
    Eigen::Matrix<double, Nx, Nu> B = Eigen::Matrix<double, Nx, Nu>::Zero();
    Tx val(double t, const X & x, const U & u) const
    {
      Tx s; Eigen::Matrix<double, Nx, Nx> ds;
      feat(x, s, ds);
      return w + std::sin(a * t) * w1 + A * s + (1 + b1 * std::sin(t)) * (B * u);
    }
    Eigen::Matrix<double, Nx, Nx + Nu> der(double t, const X & x, const U &) const
    {
      Tx s; Eigen::Matrix<double, Nx, Nx> ds;
      feat(x, s, ds);
      Eigen::Matrix<double, Nx, Nx + Nu> J;
      J << A * ds, (1 + b1 * std::sin(t)) * B;
      return J;
    }
  };
  struct CrF
  {
    Vc c0 = Vc::Zero(), c1 = Vc::Zero();
    double a{0};
    Eigen::Matrix<double, NCR, Nx> Cx = Eigen::Matrix<double, NCR, Nx>::Zero();
    Eigen::Matrix<double, NCR, Nu> Cu = Eigen::Matrix<double, NCR, Nu>::Zero();
    Vc val(double t, const X & x, const U & u) const
    {
      Tx s; Eigen::Matrix<double, Nx, Nx> ds;
      feat(x, s, ds);
      return c0 + std::sin(a * t) * c1 + Cx * s + Cu * (u + 0.1 * u.cwiseProduct(u));
    }
    Eigen::Matrix<double, NCR, Nx + Nu> der(double, const X & x, const U & u) const
    {
      Tx s; Eigen::Matrix<double, Nx, Nx> ds;
      feat(x, s, ds);
      Eigen::Matrix<double, NCR, Nx + Nu> J;
      J << Cx * ds, Cu * (Tu::Ones() + 0.2 * u).asDiagonal();
      return J;
    }
  };
  // the callables given to the controller
  struct NoJac {};
  struct F
  {
    DynF d;
    T ref{};
    double t{0};
    Tx operator()(const X & x, const U & u) const { tick(); return d.val(t, x, u); }
    Eigen::Matrix<double, Nx, Nx + Nu> jacobian(const X & x, const U & u) const requires(JAC) { tick(); return d.der(t, x, u); }
    void set_time(const T & tt) requires(TIMEF) { t = double(R::secs(tt, ref)); }
  };
  struct CR
  {
    CrF d;
    T ref{};
    double t{0};
    Vc operator()(const X & x, const U & u) const { tick(); return d.val(t, x, u); }
    Eigen::Matrix<double, NCR, Nx + Nu> jacobian(const X & x, const U & u) const requires(JAC) { tick(); return d.der(t, x, u); }
    void set_time(const T & tt) requires(TIMECR) { t = double(R::secs(tt, ref)); }
  };
  struct XTraj
  {
    bool def{true};
    T ref{};
    Tx a = Tx::Zero(), v = Tx::Zero(), b = Tx::Zero();
    double w{0};
    X at(double s) const { return def ? X(smooth::Default<X>()) : pos(s); }
    X pos(double s) const
    {
      const X g0 = smooth::exp<X>(Tx(a + std::sin(w * s) * b));
      if constexpr (smooth::IsCommutative<X>) return g0 + s * v;
      else return g0 * smooth::exp<X>(Tx(s * v));
    }
    Tx vel(double s) const
    {
      if (def) return Tx::Zero();
      const Tx l = a + std::sin(w * s) * b, dl = w * std::cos(w * s) * b;
      if constexpr (smooth::IsCommutative<X>) return dl + v;
      else return smooth::Ad<X>(smooth::exp<X>(Tx(-s * v))) * (smooth::dr_exp<X>(l) * dl) + v;
    }
  };
  struct UTraj
  {
    bool def{true};
    T ref{};
    Tu a = Tu::Zero(), b = Tu::Zero();
    double w{0};
    U at(double s) const { return def ? U(U::Zero()) : U(a + std::sin(w * s) * b); }
  };

  using M = fb::MPC<T, X, U, F, CR, KM, DT>;
  struct Obj
  {
    std::unique_ptr<M> m;
    F f;
    CR cr;
    Vc l, u;
    fb::MPCParams prm;
    fb::MPCWeights<X, U> wt;
    XTraj xd;
    UTraj ud;
    int xhow{0}, uhow{0};
    bool wset{false};
    int64_t now{0};
    int calls{0};
  };

  template<int A, int B> static Eigen::Matrix<double, A, B> mat(Rng & g, double s)
  {
    Eigen::Matrix<double, A, B> m;
    for (int i = 0; i < A; ++i) for (int j = 0; j < B; ++j) m(i, j) = s * g.n();
    return m;
  }
  template<int A> static Eigen::Matrix<double, A, A> psd(Rng & g, double lo, int kind)
  {
    Eigen::Matrix<double, A, A> P = Eigen::Matrix<double, A, A>::Zero();
    if (kind == 0) { for (int i = 0; i < A; ++i) P(i, i) = lo + g.logu(0.05, 5); }
    else if (kind == 1) { const Eigen::Matrix<double, A, A> a = mat<A, A>(g, 1); P = a * a.transpose() / A + lo * Eigen::Matrix<double, A, A>::Identity(); P = (0.5 * (P + P.transpose())).eval(); }
    else { for (int i = 0; i < A; ++i) P(i, i) = lo + (g.p(0.5) ? 0 : g.logu(0.05, 5)); }  // sparse
    return P;
  }
  static T at(int64_t ns, int64_t ep) { return R::make(rep::i128(ns) + ep); }

  // ---------------------------------------------------------------- reference
  struct Ref
  {
    int N;
    Eigen::VectorXd tn;          // node times relative to now (N + 1)
    Eigen::MatrixXd H, C, G;     // cost, constraints, state deviations = G u + x0
    Eigen::VectorXd g, l, h, x0;
    double c{0};
    std::vector<X> xl;
    std::vector<U> ul;
    Eigen::MatrixXd Adyn, Bdyn;  // dynamics: Adyn x + Bdyn u = e
    Eigen::VectorXd e;
    Tx dev0;
  };
  Ref reference(const Obj & o, int64_t ep, const X & x) const
  {
    static const Lgr lg{int(KM)};
    const int K = int(KM), E = int((o.prm.K + KM - 1) / KM), N = E * K;
    const double tf = o.prm.tf;
    Ref r;
    r.N = N;
    r.tn.resize(N + 1);
    for (int e = 0; e < E; ++e) for (int i = 0; i < K; ++i) r.tn(e * K + i) = tf * (e + (1 + lg.x(i)) / 2) / E;
    r.tn(N) = tf;
    const T t0 = at(o.now, ep);
    const int nx = Nx * (N + 1), nu = Nu * N;
    r.Adyn = Eigen::MatrixXd::Zero(Nx * N, nx);
    r.Bdyn = Eigen::MatrixXd::Zero(Nx * N, nu);
    r.e    = Eigen::VectorXd::Zero(Nx * N);
    Eigen::MatrixXd Q = Eigen::MatrixXd::Zero(nx, nx), Ru = Eigen::MatrixXd::Zero(nu, nu), Cx = Eigen::MatrixXd::Zero(NCR * N, nx), Cu = Eigen::MatrixXd::Zero(NCR * N, nu);
    Eigen::VectorXd cv(NCR * N);
    for (int i = 0; i <= N; ++i) {
      r.xl.push_back(o.xd.at(double(R::secs(t0, o.xd.ref)) + r.tn(i)));
      r.ul.push_back(o.ud.at(double(R::secs(t0, o.ud.ref)) + r.tn(i)));
    }
    for (int i = 0; i < N; ++i) {
      const double tfn = TIMEF ? double(R::secs(t0, o.f.ref)) + r.tn(i) : 0, tcr = TIMECR ? double(R::secs(t0, o.cr.ref)) + r.tn(i) : 0;
      const Tx fv = o.f.d.val(tfn, r.xl[size_t(i)], r.ul[size_t(i)]), dx = o.xd.vel(double(R::secs(t0, o.xd.ref)) + r.tn(i));
      const auto J = o.f.d.der(tfn, r.xl[size_t(i)], r.ul[size_t(i)]);
      const Eigen::Matrix<double, Nx, Nx> A = J.template leftCols<Nx>() - 0.5 * smooth::ad<X>(Tx(fv + dx));
      r.Adyn.block(Nx * i, Nx * i, Nx, Nx) -= tf * A;
      r.Bdyn.block(Nx * i, Nu * i, Nx, Nu) -= tf * J.template rightCols<Nu>();
      r.e.segment(Nx * i, Nx) = tf * (fv - dx);
      const int b = i / K * K;
      for (int j = 0; j <= K; ++j) for (int k = 0; k < Nx; ++k) r.Adyn(Nx * i + k, Nx * (b + j) + k) += 2 * E * lg.D(i % K, j);
      const double w = tf * lg.w(i % K) / (2 * E);
      Q.block(Nx * i, Nx * i, Nx, Nx)  = w * o.wt.Q;
      Ru.block(Nu * i, Nu * i, Nu, Nu) = w * o.wt.R;
      const auto Jc = o.cr.d.der(tcr, r.xl[size_t(i)], r.ul[size_t(i)]);
      cv.segment(NCR * i, NCR)          = o.cr.d.val(tcr, r.xl[size_t(i)], r.ul[size_t(i)]);
      Cx.block(NCR * i, Nx * i, NCR, Nx) = Jc.template leftCols<Nx>();
      Cu.block(NCR * i, Nu * i, NCR, Nu) = Jc.template rightCols<Nu>();
    }
    Q.block(Nx * N, Nx * N, Nx, Nx) = o.wt.Qtf;
    r.dev0 = smooth::rminus(x, r.xl[0]);
    // eliminate the states: x = G u + x0
    const Eigen::PartialPivLU<Eigen::MatrixXd> lu(r.Adyn.rightCols(Nx * N));
    r.G  = Eigen::MatrixXd::Zero(nx, nu);
    r.x0 = Eigen::VectorXd::Zero(nx);
    r.G.bottomRows(Nx * N)  = lu.solve(-r.Bdyn);
    r.x0.head(Nx)           = r.dev0;
    r.x0.tail(Nx * N)       = lu.solve(r.e - r.Adyn.leftCols(Nx) * r.dev0);
    r.H = r.G.transpose() * Q * r.G + Ru;
    r.g = r.G.transpose() * Q * r.x0;
    r.c = 0.5 * r.x0.dot(Q * r.x0);
    r.C = Cx * r.G + Cu;
    const Eigen::VectorXd d = cv + Cx * r.x0;
    r.l = o.l.replicate(N, 1) - d;
    r.h = o.u.replicate(N, 1) - d;
    return r;
  }

  static const char * code_name(fb::QPSolutionStatus c)
  {
    switch (c) {
      case fb::QPSolutionStatus::Optimal: return "Optimal";
      case fb::QPSolutionStatus::PolishFailed: return "PolishFailed";
      case fb::QPSolutionStatus::PrimalInfeasible: return "PrimalInfeasible";
      case fb::QPSolutionStatus::DualInfeasible: return "DualInfeasible";
      case fb::QPSolutionStatus::MaxIterations: return "MaxIterations";
      case fb::QPSolutionStatus::MaxTime: return "MaxTime";
      default: return "Unknown";
    }
  }
  static bool solved(fb::QPSolutionStatus c) { return c == fb::QPSolutionStatus::Optimal || c == fb::QPSolutionStatus::PolishFailed; }

  static void install(M & m, const Obj & o)
  {
    if (!o.xd.def) {
      const XTraj xd = o.xd;
      if (o.xhow == 0) m.set_xdes(std::function<X(T)>([xd](T t) -> X { tick(); return xd.at(double(R::secs(t, xd.ref))); }), std::function<Tx(T)>([xd](T t) -> Tx { tick(); return xd.vel(double(R::secs(t, xd.ref))); }));
      else m.set_xdes_rel([xd](double s) -> X { tick(); return xd.at(s); }, xd.ref);
    }
    if (!o.ud.def) {
      const UTraj ud = o.ud;
      if (o.uhow == 0) m.set_udes(std::function<U(T)>([ud](T t) -> U { tick(); return ud.at(double(R::secs(t, ud.ref))); }));
      else m.set_udes_rel([ud](double s) -> U { tick(); return ud.at(s); }, ud.ref);
    }
  }

  void call(Obj & o, const Op & op, size_t opi, int64_t ep)
  {
    Rng g(uint64_t(op.i("vs")) * 53 + 11);
    o.now += int64_t(op.d("dt") * 1e9);
    const T t = at(o.now, ep);
    const X xc = o.xd.at(double(R::secs(t, o.xd.ref)));
    const X x  = smooth::rplus(xc, Tx(mat<Nx, 1>(g, op.d("xs", 0.2)).cwiseMax(-2).cwiseMin(2)));  // away from the cut locus
    const bool outs = !op.i("noout");
    std::vector<U> us(size_t(g.i(0, 30)), U::Constant(7e7));
    std::vector<X> xs(size_t(g.i(0, 30)));
    std::pair<U, fb::QPSolutionStatus> ret;
    CallFaults cf;
    if (op.has("stall")) cf.stall.emplace_back(uint64_t(op.i("stall")), int64_t(op.d("sns", 5) * 1e9));
    tl_ctl = {0, op.has("fail") ? int(op.i("fail")) : -1, false};
    auto res = sut([&] {
      if (outs) ret = (*o.m)(t, x, us, xs);
      else ret = (*o.m)(t, x);
    }, cf);
    const bool fired = tl_ctl.fired;
    tl_ctl = {};
    const auto wh = fmt("op %zu: call %d at %.9g s", opi, o.calls, double(o.now) * 1e-9);
    ++o.calls;
    if (!res.ok) {
      if (fired && res.ex.find("callback failed") != std::string::npos) { fault("callback_failure"); return; }
      fail("unexpected-exception", "%s: %s", wh.c_str(), res.ex.c_str());
    }
    const auto code = ret.second;
    if (g_trace) fprintf(stderr, "%s: %s u=%g\n", wh.c_str(), code_name(code), ret.first(0));
    logd(ret.first(0)); logv(uint64_t(code));
    const Ref r = reference(o, ep, x);
    state(hcomb(hcomb(uint64_t(code), uint64_t(Nx * 10 + Nu)), hcomb(uint64_t(r.N) * 64 + uint64_t(o.wset) * 8 + uint64_t(o.xhow) * 2 + uint64_t(o.uhow) + uint64_t(!o.xd.def) * 16 + uint64_t(!o.ud.def) * 32, hcomb(uint64_t(std::min(o.calls, 6)), uint64_t(o.now % 1000000007)))));
    if (outs) {
      if (us.size() != size_t(r.N) || xs.size() != size_t(r.N) + 1) fail("wrong-size", "%s: %zu inputs, %zu states for %d points", wh.c_str(), us.size(), xs.size(), r.N);
      if (!((us[0] - ret.first).norm() <= 1e-9 * (1 + ret.first.norm()))) fail("inconsistent-output", "%s: returned input %g differs from the first of the trajectory %g", wh.c_str(), ret.first(0), us[0](0));
    }
    if (code == fb::QPSolutionStatus::MaxTime) {
      if (!o.prm.qp.max_time) fail("wrong-limit", "%s: time limit reported without a limit", wh.c_str());
      if (op.has("stall")) fault("solver_stalled"); 
      return;
    }
    if (code == fb::QPSolutionStatus::MaxIterations) {
      if (!o.prm.qp.max_iter) fail("wrong-limit", "%s: iteration limit reported without a limit", wh.c_str());
      probe("iteration_limit");
      return;
    }
    const double margin = 1e-3;
    const auto s = refqp::solve(r.H, r.g, r.C, r.l, r.h, margin);
    if (!solved(code)) {
      if (s.fixed_bad) { probe("infeasible_state"); fault("infeasible_episode"); return; }
      const auto s2 = refqp::solve(r.H, r.g, r.C, r.l.array() + 2e-2, r.h.array() - 2e-2, margin);
      if (s2.ok && !s2.fixed_bad && !s2.fixed_edge) fail("false-infeasible", "%s: reported %s, but the problem has a solution", wh.c_str(), code_name(code));
      probe("infeasible_or_unjudged");
      fault("infeasible_episode");
      return;
    }
    if (s.fixed_bad) fail("infeasible-accepted", "%s: reported %s, but the state violates the constraints", wh.c_str(), code_name(code));
    if (!s.ok) { probe("reference_not_converged"); return; }
    const double eps = std::max(o.prm.qp.eps_abs, o.prm.qp.eps_rel), sc = 1 + s.u.cwiseAbs().maxCoeff() + r.x0.cwiseAbs().maxCoeff();
    const double tol = 1e-4 + 200 * eps;
    // accuracy of the inputs: the residual the solver may leave, over the least curvature of the cost
    const double lmin = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(r.H, Eigen::EigenvaluesOnly).eigenvalues()(0);
    const double tolu = 1e-4 + eps * (200 + 30 * (1 + r.g.cwiseAbs().maxCoeff()) / lmin);
    auto judge = [&](const U & u0, const char * who) {
      const double e = (u0 - r.ul[0] - s.u.head(Nu)).cwiseAbs().maxCoeff();
      calib("u0", e / (tolu * sc));
      if (!(e <= tolu * sc)) fail("wrong-control", "%s: %s is off by %g from the optimal input (%g)", wh.c_str(), who, e, s.u(0) + r.ul[0](0));
    };
    judge(ret.first, "input");
    if (outs) {
      Eigen::VectorXd u(Nu * r.N);
      for (int i = 0; i < r.N; ++i) u.segment(Nu * i, Nu) = us[size_t(i)] - r.ul[size_t(i)];
      const double e0 = smooth::rminus(xs[0], x).norm();
      calib("x0", e0 / (tol * sc));
      if (!(e0 <= tol * sc)) fail("wrong-start", "%s: state trajectory starts %g away from the given state", wh.c_str(), e0);
      const Eigen::VectorXd xv = r.G * u + r.x0;
      double ed = 0;
      for (int i = 0; i <= r.N; ++i) {
        const double q = smooth::rminus(xs[size_t(i)], X(smooth::rplus(r.xl[size_t(i)], Tx(xv.segment(Nx * i, Nx))))).norm();
        ed             = q <= ed ? ed : q;
      }
      calib("dyn", ed / (tol * sc));
      if (!(ed <= tol * sc)) fail("dynamics-violated", "%s: states are off by %g from those the inputs lead to", wh.c_str(), ed);
      const Eigen::VectorXd cu = r.C * u;
      const double ec = std::max((r.l - cu).maxCoeff(), (cu - r.h).maxCoeff());
      calib("con", ec / (tol * sc));
      if (!(ec <= tol * sc)) fail("constraint-violated", "%s: running constraint violated by %g", wh.c_str(), ec);
      const double gap = 0.5 * u.dot(r.H * u) + r.g.dot(u) - s.obj, gs = 1 + std::fabs(s.obj + r.c) + std::fabs(r.c);
      calib("gap", gap / (tol * gs));
      if (!(gap <= tol * gs)) fail("suboptimal", "%s: cost of the trajectory exceeds the optimum by %g", wh.c_str(), gap);
      const double eu = (u - s.u).cwiseAbs().maxCoeff();
      calib("u", eu / (tolu * sc));
      if (!(eu <= tolu * sc)) fail("wrong-trajectory", "%s: input trajectory is off by %g from the optimum", wh.c_str(), eu);
      probe("trajectory_checked");
    } else
      probe("input_checked");
    if (op.i("fresh")) {  // a newly created controller given the same data
      std::pair<U, fb::QPSolutionStatus> r2;
      auto res2 = sut([&] {
        M m2(o.f, o.cr, Eigen::Vector<double, NCR>(o.l), Eigen::Vector<double, NCR>(o.u), o.prm);
        install(m2, o);
        if (o.wset) m2.set_weights(o.wt);
        r2 = m2(t, x);
      });
      if (!res2.ok) fail("unexpected-exception", "%s: fresh controller: %s", wh.c_str(), res2.ex.c_str());
      if (solved(r2.second)) judge(r2.first, "input of a fresh controller");
      else if (r2.second != fb::QPSolutionStatus::MaxIterations && r2.second != fb::QPSolutionStatus::MaxTime) fail("history-dependent", "%s: reported %s, a fresh controller %s", wh.c_str(), code_name(code), code_name(r2.second));
      probe("fresh_compared");
    }
    if (o.calls > 1) probe("repeated_call");
  }

  static void calib(const char * n, double v)
  {
    static const bool on = getenv("SIM_CALIB") != nullptr;
    if (on && v > 0.01) fprintf(stderr, "CALIB %s %g\n", n, v);
  }

  std::vector<std::map<int, Obj>> all{std::vector<std::map<int, Obj>>(4)};

  void run(const Plan & plan, int tid, bool pre) override
  {
    size_t opi = 0;
    int64_t ep = 0;
    for (auto & op : plan.ops) {
      ++opi;
      if (op.k == "cfg") { ep = rep::kEpoch[op.i("ep") % 6]; continue; }
      if (op.k == "fill") { if (pre) heap_fill(uint64_t(op.i("f"))); continue; }
      if (op.k == "sched" || op.k == "switch" || bool(op.i("pre")) != pre) continue;
      if (!pre && op.i("k") != tid) continue;
      auto & os    = all[size_t(op.i("k")) % 4];
      const int id = int(op.i("o"));
      Rng g(uint64_t(op.i("vs")) * 59 + 13);
      if (op.k == "new") {
        Obj o;
        o.f.ref = o.cr.ref = at(int64_t(g.i(-1000, 1000)) * 1000000, ep);
        o.f.d.w  = mat<Nx, 1>(g, 0.2);
        o.f.d.w1 = mat<Nx, 1>(g, 0.2);
        o.f.d.a  = g.u(0.5, 4);
        o.f.d.b1 = g.p(0.5) ? g.u(0, 0.6) : 0;
        o.f.d.A  = mat<Nx, Nx>(g, op.d("nl", 0.4));
        o.f.d.B  = mat<Nx, Nu>(g, 0.8);
        if constexpr (!smooth::IsCommutative<X>) { o.f.d.B.setZero(); o.f.d.B(0, 0) = 1; o.f.d.B(2, 1) = 1; }
        o.cr.d.c0 = mat<NCR, 1>(g, 0.1);
        o.cr.d.c1 = mat<NCR, 1>(g, 0.1);
        o.cr.d.a  = g.u(0.5, 3);
        for (int i = 0; i < NCR; ++i) {
          if (i < Nu) { o.cr.d.Cu(i, i) = 1; o.u(i) = g.u(0.4, 2); o.l(i) = g.p(0.1) ? -std::numeric_limits<double>::infinity() : -g.u(0.4, 2); }
          else {
            o.cr.d.Cx.row(i) = mat<1, Nx>(g, 0.5);
            if (g.p(0.4)) o.cr.d.Cu.row(i) = mat<1, Nu>(g, 0.5);
            const double s = g.pick<double>({0.3, 1, 4});
            o.u(i) = s * g.u(0.5, 1.5);
            o.l(i) = g.p(0.2) ? -std::numeric_limits<double>::infinity() : -s * g.u(0.5, 1.5);
          }
        }
        o.prm.K         = size_t(g.i(1, op.i("big") ? 16 : 9));
        o.prm.tf        = g.logu(0.2, 4);
        o.prm.warmstart = !op.i("cold");
        o.prm.qp.eps_abs = o.prm.qp.eps_rel = g.pick<double>({1e-5, 1e-6, 1e-6});
        o.prm.qp.polish  = g.p(0.8);
        o.prm.qp.max_iter = uint32_t(op.i("mi", 20000));
        if (op.i("mt")) o.prm.qp.max_time = std::chrono::seconds(1);
        o.now = 0;
        auto r = sut([&] { o.m = std::make_unique<M>(o.f, o.cr, Eigen::Vector<double, NCR>(o.l), Eigen::Vector<double, NCR>(o.u), o.prm); });
        if (!r.ok) fail("unexpected-exception", "op %zu: constructor: %s", opi, r.ex.c_str());
        os[id] = std::move(o);
        continue;
      }
      if (!os.count(id)) continue;
      Obj & o = os[id];
      SutResult s;
      if (op.k == "call") { call(o, op, opi, ep); continue; }
      else if (op.k == "xdes") {
        o.xd.def = false;
        o.xd.ref = at(o.now + int64_t(g.i(-2000, 2000)) * 1000000, ep);
        o.xd.a = mat<Nx, 1>(g, 0.4); o.xd.b = mat<Nx, 1>(g, 0.2); o.xd.v = mat<Nx, 1>(g, 0.3); o.xd.w = g.u(0.3, 3);
        o.xhow = int(op.i("how"));
        s = sut([&] { Obj d; d.xd = o.xd; d.xhow = o.xhow; install(*o.m, d); });
      } else if (op.k == "udes") {
        o.ud.def = false;
        o.ud.ref = at(o.now + int64_t(g.i(-2000, 2000)) * 1000000, ep);
        o.ud.a = mat<Nu, 1>(g, 0.3); o.ud.b = mat<Nu, 1>(g, 0.2); o.ud.w = g.u(0.3, 3);
        o.uhow = int(op.i("how"));
        s = sut([&] { Obj d; d.ud = o.ud; d.uhow = o.uhow; install(*o.m, d); });
      } else if (op.k == "weights") {
        o.wt.Q   = psd<Nx>(g, 0, int(g.i(0, 2)));
        o.wt.Qtf = psd<Nx>(g, 0, int(g.i(0, 2)));
        if (g.p(0.3)) o.wt.Qtf *= 10;
        o.wt.R = psd<Nu>(g, 0.2, int(g.i(0, 2)));
        o.wset = true;
        tl_ctl = {0, op.has("fail") ? int(op.i("fail")) : -1, false};
        s = sut([&] { o.m->set_weights(o.wt); });
        const bool fired = tl_ctl.fired;
        tl_ctl = {};
        if (!s.ok && fired) { fault("callback_failure"); s = sut([&] { o.m->set_weights(o.wt); }); }
        probe("weights_changed");
      } else if (op.k == "resetw") {
        s = sut([&] { o.m->reset_warmstart(); });
      } else if (op.k == "copy") {
        auto & ot    = all[size_t(op.i("tk", op.i("k"))) % 4];
        const int to = int(op.i("to"));
        if (&ot == &os && to == id) continue;
        const int how = int(op.i("how"));
        Obj d;
        d.f = o.f; d.cr = o.cr; d.l = o.l; d.u = o.u; d.prm = o.prm; d.wt = o.wt; d.xd = o.xd; d.ud = o.ud; d.xhow = o.xhow; d.uhow = o.uhow; d.wset = o.wset; d.now = o.now; d.calls = o.calls;
        const bool assign = (how & 1) && ot.count(to), mv = how & 2;
        s = sut([&] {
          if (assign) { d.m = std::move(ot[to].m); if (mv) *d.m = std::move(*o.m); else *d.m = *o.m; }
          else if (how & 1) { d.m = std::make_unique<M>(); if (mv) *d.m = std::move(*o.m); else *d.m = *o.m; }
          else if (mv) d.m = std::make_unique<M>(std::move(*o.m));
          else d.m = std::make_unique<M>(*o.m);
        });
        if (s.ok) {
          ot[to] = std::move(d);
          if (mv || op.i("drop")) os.erase(id);
          probe(mv ? "moved" : "copied");
        }
      } else if (op.k == "selfassign") {
        s = sut([&] { M & m = *o.m; *o.m = m; });
      }
      if (!s.ok) fail("unexpected-exception", "op %zu: %s: %s", opi, op.k.c_str(), s.ex.c_str());
    }
    if (!pre) for (auto & [k, o] : all[size_t(tid) % 4]) { (void)k; auto s = sut([&] { o.m.reset(); }); (void)s; }
  }
};

}  // namespace mpcsim
