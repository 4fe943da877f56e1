// Functions over a mesh and transcribed problems: reused work memory (C16), conversions between solutions (C19).
#pragma once
#include "mesh_iface.hpp"
#include "smooth/feedback/collocation/dyn_error.hpp"
#include "smooth/feedback/collocation/mesh.hpp"
#include "smooth/feedback/collocation/mesh_function.hpp"
#include "smooth/feedback/ocp_to_nlp.hpp"
#include "smooth/feedback/ocp_to_qp.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <optional>

namespace meshfun {
using namespace sim;
namespace fb = smooth::feedback;
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct CallbackError : std::runtime_error { using runtime_error::runtime_error; };
struct Ctl
{
  int calls{0}, fail{-1};
  void tick() { if (calls++ == fail) throw CallbackError("callback failed"); }
};

// smooth function R^NI -> R^NF with exact derivatives
template<int NI, int NF>
struct Fn
{
  Eigen::Matrix<double, NF, 1> c, s;
  Eigen::Matrix<double, NF, NI> b, w;
  std::array<Eigen::Matrix<double, NI, NI>, NF> A;
  Fn() { c.setZero(); s.setZero(); b.setZero(); w.setZero(); for (auto & a : A) a.setZero(); }
  Fn(uint64_t seed, double dens, bool zeromix)
      : Fn()
  {
    Rng r(seed * 131 + 17);
    for (int i = 0; i < NF; ++i) {
      c(i) = r.n();
      s(i) = r.p(0.5) ? r.n() : 0;
      for (int j = 0; j < NI; ++j) {
        if (r.p(dens)) b(i, j) = r.n();
        if (r.p(dens)) w(i, j) = 0.7 * r.n();
        for (int k = 0; k <= j; ++k)
          if (r.p(dens)) A[size_t(i)](j, k) = A[size_t(i)](k, j) = r.n();
      }
      if (zeromix && r.p(0.3)) { c(i) = s(i) = 0; b.row(i).setZero(); A[size_t(i)].setZero(); }
    }
  }
  using V = Eigen::Matrix<double, NI, 1>;
  Eigen::Matrix<double, NF, 1> val(const V & v) const
  {
    Eigen::Matrix<double, NF, 1> r;
    for (int i = 0; i < NF; ++i) r(i) = c(i) + b.row(i).dot(v) + 0.5 * v.dot(A[size_t(i)] * v) + s(i) * std::sin(w.row(i).dot(v));
    return r;
  }
  Eigen::Matrix<double, NF, NI> jac(const V & v) const
  {
    Eigen::Matrix<double, NF, NI> r;
    for (int i = 0; i < NF; ++i) r.row(i) = b.row(i) + (A[size_t(i)] * v).transpose() + s(i) * std::cos(w.row(i).dot(v)) * w.row(i);
    return r;
  }
  Eigen::Matrix<double, NI, NI> hes(const V & v, int i) const { return A[size_t(i)] - s(i) * std::sin(w.row(i).dot(v)) * w.row(i).transpose() * w.row(i); }
};

// callable over a mesh: (t, x, u) -> R^NF or (tf, x0, xf, q) -> R^NF
template<int NF, bool Sparse, bool Scalar, int... Ns>
struct Call
{
  static constexpr int NI = (Ns + ... + 0);
  using V = Eigen::Matrix<double, NI, 1>;
  Fn<NI, NF> f;
  Ctl * ctl{nullptr};
  template<typename... A> static V cat(const A &... a)
  {
    V v;
    int o = 0;
    auto put = [&](const auto & x) {
      if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x)>>) v(o++) = x;
      else for (Eigen::Index k = 0; k < x.size(); ++k) v(o++) = x(k);
    };
    (put(a), ...);
    return v;
  }
  template<typename... A> auto value(const A &... a) const
  {
    if (ctl) ctl->tick();
    const Eigen::Matrix<double, NF, 1> r = f.val(cat(a...));
    if constexpr (Scalar) return double(r(0)); else return r;
  }
  static auto out(const MatrixXd & m)
  {
    Eigen::SparseMatrix<double> s(m.rows(), m.cols());
    for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j)
        if (m(i, j) != 0) s.insert(i, j) = m(i, j);
    s.makeCompressed();
    return s;
  }
  template<typename... A> auto jacv(const A &... a) const
  {
    if (ctl) ctl->tick();
    Eigen::Matrix<double, NF, NI> J = f.jac(cat(a...));
    if constexpr (Sparse) return out(J); else return J;
  }
  template<typename... A> auto hesv(const A &... a) const
  {
    if (ctl) ctl->tick();
    Eigen::Matrix<double, NI, NF * NI> H;
    const V v = cat(a...);
    for (int i = 0; i < NF; ++i) H.template middleCols<NI>(i * NI) = f.hes(v, i);
    if constexpr (Sparse) return out(H); else return H;
  }
};
template<int NX, int NU, int NF, bool Sparse>
struct Inner : Call<NF, Sparse, false, 1, NX, NU>
{
  using X = Eigen::Matrix<double, NX, 1>;
  using U = Eigen::Matrix<double, NU, 1>;
  Eigen::Matrix<double, NF, 1> operator()(double t, const X & x, const U & u) const { return this->value(t, x, u); }
  auto jacobian(double t, const X & x, const U & u) const { return this->jacv(t, x, u); }
  auto hessian(double t, const X & x, const U & u) const { return this->hesv(t, x, u); }
};
template<int NX, int NQ, int NF, bool Sparse, bool Scalar>
struct Outer : Call<NF, Sparse, Scalar, 1, NX, NX, NQ>
{
  using X = Eigen::Matrix<double, NX, 1>;
  using Q = Eigen::Matrix<double, NQ, 1>;
  auto operator()(double t, const X & a, const X & b, const Q & q) const { return this->value(t, a, b, q); }
  auto jacobian(double t, const X & a, const X & b, const Q & q) const { return this->jacv(t, a, b, q); }
  auto hessian(double t, const X & a, const X & b, const Q & q) const { return this->hesv(t, a, b, q); }
};

struct Ref
{
  VectorXd F;
  MatrixXd dF, d2F;
};

template<class S> bool well_formed(const S & m, MatrixXd & v)
{
  v.setZero(m.rows(), m.cols());
  Eigen::Array<bool, -1, -1> seen = Eigen::Array<bool, -1, -1>::Constant(m.rows(), m.cols(), false);
  for (int k = 0; k < m.outerSize(); ++k)
    for (typename S::InnerIterator it(m, k); it; ++it) {
      if (it.row() < 0 || it.row() >= m.rows() || it.col() < 0 || it.col() >= m.cols() || seen(it.row(), it.col())) return false;
      seen(it.row(), it.col()) = true;
      v(it.row(), it.col())    = it.value();
    }
  return true;
}

inline void cmp(const MatrixXd & got, const MatrixXd & exp, const char * cls, const std::string & wh, const char * what, double tol = 1e-9)
{
  if (got.rows() != exp.rows() || got.cols() != exp.cols()) fail("wrong-size", "%s: %s is %dx%d, expected %dx%d", wh.c_str(), what, int(got.rows()), int(got.cols()), int(exp.rows()), int(exp.cols()));
  if (!got.size()) return;
  const double sc = 1 + exp.cwiseAbs().maxCoeff();
  for (Eigen::Index j = 0; j < got.cols(); ++j)
    for (Eigen::Index i = 0; i < got.rows(); ++i) {
      if (std::isinf(exp(i, j)) && got(i, j) == exp(i, j)) continue;
      if (!(std::fabs(got(i, j) - exp(i, j)) <= tol * (std::isfinite(sc) ? sc : 1e3))) fail(cls, "%s: %s(%d,%d) is %.12g, expected %.12g", wh.c_str(), what, int(i), int(j), got(i, j), exp(i, j));
    }
}
inline MatrixXd upper(const MatrixXd & m) { return m.triangularView<Eigen::Upper>(); }

template<class M> struct Grid
{
  size_t N{0};
  std::vector<double> tau, w;
  std::vector<size_t> i0, K;
  std::vector<MatrixXd> D;
  explicit Grid(const M & m)
  {
    N = m.N_colloc();
    for (double x : m.all_nodes()) tau.push_back(x);
    for (double x : m.all_weights()) w.push_back(x);
    size_t o = 0;
    for (size_t i = 0; i < m.N_ivals(); ++i) {
      i0.push_back(o);
      K.push_back(m.N_colloc_ival(i));
      D.push_back(m.interval_diffmat(i));
      o += K.back();
    }
  }
};

// kind 0 eval, 1 scaled eval, 2 integrate, 3 dynamics
template<int NX, int NU, class F, class M>
Ref reference(const Grid<M> & g, const F & fn, int kind, double t0, double tf, const MatrixXd & X, const MatrixXd & U, const VectorXd & lam)
{
  constexpr int NF = int(decltype(fn.f.c)::RowsAtCompileTime), NI = 1 + NX + NU;
  const int N = int(g.N), nv = 2 + NX * (N + 1) + NU * N, no = kind == 2 ? NF : NF * N;
  Ref r;
  r.F.setZero(no);
  r.dF.setZero(no, nv);
  r.d2F.setZero(nv, nv);
  VectorXd dl = VectorXd::Zero(nv);  // derivative of tf - t0
  dl(0) = -1;
  dl(1) = 1;
  const double l = tf - t0;
  for (int i = 0; i < N; ++i) {
    MatrixXd A = MatrixXd::Zero(NI, nv);
    const double tau = g.tau[size_t(i)], w = g.w[size_t(i)];
    A(0, 0) = 1 - tau;
    A(0, 1) = tau;
    A.block(1, 2 + NX * i, NX, NX).setIdentity();
    A.block(1 + NX, 2 + NX * (N + 1) + NU * i, NU, NU).setIdentity();
    Eigen::Matrix<double, NI, 1> v;
    v << t0 * (1 - tau) + tf * tau, X.col(i), U.col(i);
    const VectorXd f = fn.f.val(v);
    const MatrixXd J = fn.f.jac(v) * A;
    for (int k = 0; k < NF; ++k) {
      const MatrixXd H = A.transpose() * fn.f.hes(v, k) * A;
      const int row    = kind == 2 ? k : NF * i + k;
      const double lm  = lam.size() ? lam(row) : 0;
      if (kind < 2) {
        const double s = kind ? w : 1;
        r.F(row) = s * f(k);
        r.dF.row(row) = s * J.row(k);
        r.d2F += lm * s * H;
      } else {
        r.F(row) += w * l * f(k);
        r.dF.row(row) += w * (l * J.row(k) + f(k) * dl.transpose());
        r.d2F += lm * w * (l * H + dl * J.row(k) + J.row(k).transpose() * dl.transpose());
      }
    }
  }
  if (kind == 3)
    for (size_t q = 0; q < g.K.size(); ++q)
      for (size_t j = 0; j < g.K[q]; ++j)
        for (size_t k = 0; k <= g.K[q]; ++k) {
          const double c = -g.w[g.i0[q] + j] * g.D[q](Eigen::Index(k), Eigen::Index(j));
          for (int d = 0; d < NX; ++d) {
            const int row = NX * int(g.i0[q] + j) + d, col = int(g.i0[q] + k);
            r.F(row) += c * X(d, col);
            r.dF(row, 2 + NX * col + d) += c;
          }
        }
  return r;
}

template<class M, int NX, int NU, int NF, int NQ, int NC, int NE, bool SP>
struct FunRunner final : MeshRunner
{
  using X  = Eigen::Matrix<double, NX, 1>;
  using U  = Eigen::Matrix<double, NU, 1>;
  using FE = Inner<NX, NU, NF, SP>;  // evaluated, integrated
  using FD = Inner<NX, NU, NX, SP>;  // dynamics
  using TH = Outer<NX, NQ, 1, SP, true>;
  using GI = Inner<NX, NU, NQ, SP>;
  using CR = Inner<NX, NU, NC, SP>;
  using CE = Outer<NX, NQ, NE, SP, false>;
  using Ocp = fb::OCP<X, U, TH, FD, GI, CR, CE>;
  using Nlp = fb::detail::OCPNLP<Ocp, M>;
  using Sol = fb::OCPSolution<X, U, NQ, NC, NE>;
  // one integral, as needed for quadratic programs
  using TH1  = Outer<NX, 1, 1, SP, true>;
  using GI1  = Inner<NX, NU, 1, SP>;
  using CE1  = Outer<NX, 1, NE, SP, false>;
  using Ocp1 = fb::OCP<X, U, TH1, FD, GI1, CR, CE1>;
  // polynomial trajectory with its exact derivative
  template<int K> struct Poly
  {
    Eigen::Matrix<double, K, 4> c;
    Ctl * ctl{nullptr};
    explicit Poly(Rng & r, double sc) : c(rnd(r, K, 4, sc)) {}
    Eigen::Matrix<double, K, 1> operator()(double t) const { if (ctl) ctl->tick(); t /= 10; return c.col(0) + t * (c.col(1) + t * (c.col(2) + t * c.col(3))); }
    Eigen::Matrix<double, K, 1> jacobian(double t) const { t /= 10; return (c.col(1) + t * (2 * c.col(2) + 3 * t * c.col(3))) / 10; }
  };

  static M mesh(uint64_t seed)
  {
    Rng r(seed * 7 + 1);
    M m(size_t(r.i(1, 3)), M::Kmin);
    for (int k = int(r.i(0, 2)); k > 0; --k) {
      const size_t i = size_t(r.i(0, int64_t(m.N_ivals()) - 1));
      if (r.p(0.5)) m.refine_ph(i, size_t(r.i(int64_t(M::Kmin), int64_t(M::Kmax) + 1)));
      else m.set_N_colloc_ival(i, size_t(r.i(int64_t(M::Kmin), int64_t(M::Kmax) + 1)));
      if (m.N_ivals() > 4) break;
    }
    return m;
  }
  static MatrixXd rnd(Rng & r, Eigen::Index a, Eigen::Index b, double sc = 1)
  {
    MatrixXd m(a, b);
    for (Eigen::Index j = 0; j < b; ++j)
      for (Eigen::Index i = 0; i < a; ++i) m(i, j) = sc * r.n();
    return m;
  }

  template<uint8_t D> struct Slot
  {
    fb::MeshValue<D> mv;
    int64_t rows{-1}, cols{-1};  // what it is allocated for
    uint64_t uses{0};
  };
  struct Data
  {
    Slot<0> s0[2];
    Slot<1> s1[2];
    Slot<2> s2[2];
    struct N { std::unique_ptr<Nlp> nlp; std::shared_ptr<Ctl> ctl; uint64_t fs, ms; double dens; uint64_t calls{0}; };
    std::map<int, N> nlps;
    struct S { Sol sol; MatrixXd Xs, Us, Ld, Lc; VectorXd lq, le, q; double tf; uint64_t ms; };
    std::map<int, S> sols;
    struct Q { fb::QuadraticProgramSparse<double> qp; fb::detail::OcpToQpWorkmemory work; std::shared_ptr<Ctl> ctl; uint64_t fs, ms; double dens; uint64_t calls{0}; };
    std::map<int, Q> qps;
  };

  template<class V> static std::string sizes(const V & a) { return fmt("%d", int(a.size())); }

  // ---- work memory of functions over a mesh
  template<uint8_t D> void fun(Slot<D> & s, const Op & op, const std::string & wh0)
  {
    const int kind = int(op.i("kind")) % 4;
    const M m      = mesh(uint64_t(op.i("ms")));
    if (kind == 3) { FD f; go<D>(s, op, wh0, kind, m, f); }
    else { FE f; go<D>(s, op, wh0, kind, m, f); }
  }
  template<uint8_t D, class F> void go(Slot<D> & s, const Op & op, const std::string & wh0, int kind, const M & m, F & f)
  {
    constexpr int nf = int(decltype(f.f.c)::RowsAtCompileTime);
    Ctl ctl;
    f.f   = decltype(f.f)(uint64_t(op.i("fs")), op.d("dens", 0.6), op.i("zm"));
    f.ctl = &ctl;
    Rng r(uint64_t(op.i("vs")) * 11 + 5);
    const Eigen::Index N = Eigen::Index(m.N_colloc());
    const MatrixXd xs = rnd(r, NX, N + 1, op.d("sc", 1)), us = rnd(r, NU, N, op.d("sc", 1));
    const double t0 = r.p(0.3) ? 0 : r.n(), tf = r.p(0.08) ? t0 : t0 + r.n() + (r.p(0.7) ? 2 : 0);
    const int64_t rows = kind == 2 ? nf : nf * N, cols = 2 + NX * (N + 1) + NU * N;
    const VectorXd lam = rnd(r, rows, 1, op.i("lz") ? 0 : 1);
    static const char * kn[] = {"eval", "scaled eval", "integrate", "dynamics"};
    auto wh = fmt("%s: mesh %s, order %d, %d intervals, %d points, use %llu of the memory", wh0.c_str(), kn[kind], int(D), int(m.N_ivals()), int(N), (unsigned long long)s.uses);
    // the contract: memory allocated for other dimensions must be allocated again
    if (s.rows != rows || s.cols != cols || op.i("realloc")) { if (s.uses) probe("memory_reallocated"); s.mv.allocated = false; }
    else probe("memory_reused");
    auto call = [&](fb::MeshValue<D> & mv) {
      if constexpr (D == 2) mv.lambda = lam;
      std::vector<X> xv;
      std::vector<U> uv;
      const bool vec = op.i("vec");
      if (vec) { for (Eigen::Index k = 0; k <= N; ++k) xv.push_back(xs.col(k)); for (Eigen::Index k = 0; k < N; ++k) uv.push_back(us.col(k)); }
      const Eigen::Map<const Eigen::Matrix<double, NX, -1>> xm(xs.data(), NX, N + 1);
      const Eigen::Map<const Eigen::Matrix<double, NU, -1>> um(us.data(), NU, N);
      auto with = [&](auto && a, auto && b) {
        if (kind == 0) fb::mesh_eval<D>(mv, m, f, t0, tf, a, b);
        else if (kind == 1) fb::mesh_eval<D>(mv, m, f, t0, tf, a, b, true);
        else if (kind == 2) fb::mesh_integrate<D>(mv, m, f, t0, tf, a, b);
        else if constexpr (nf == NX) fb::mesh_dyn<D>(mv, m, f, t0, tf, a, b);
      };
      return sut([&] { if (vec) with(xv, uv); else with(xm.colwise(), um.colwise()); });
    };
    if (op.has("fail")) {
      ctl.fail = int(op.i("fail"));
      auto res = call(s.mv);
      s.rows = rows; s.cols = cols; ++s.uses;
      if (!res.ok && res.ex.find("callback failed") == std::string::npos) fail("unexpected-exception", "%s: %s", wh.c_str(), res.ex.c_str());
      if (!res.ok) { fault("callback_failure"); ctl.fail = -1; if (op.i("giveup")) return; probe("retry_after_failure"); wh += " (retry after a failing callback)"; }
      ctl.fail = -1;
    }
    auto res = call(s.mv);
    s.rows = rows; s.cols = cols; ++s.uses;
    if (!res.ok) fail("unexpected-exception", "%s: %s", wh.c_str(), res.ex.c_str());
    fb::MeshValue<D> fresh;
    if (auto q = call(fresh); !q.ok) fail("unexpected-exception", "%s: fresh memory: %s", wh.c_str(), q.ex.c_str());
    const Grid<M> g(m);
    const Ref ref = reference<NX, NU>(g, f, kind, t0, tf, xs, us, lam);
    cmp(fresh.F, ref.F, "wrong-value", wh + " (fresh)", "F");
    cmp(s.mv.F, fresh.F, "depends-on-history", wh, "F", 1e-12);
    if constexpr (D >= 1) {
      MatrixXd a, b;
      if (!well_formed(fresh.dF, b) || !well_formed(s.mv.dF, a)) fail("corrupt-structure", "%s: dF", wh.c_str());
      cmp(b, ref.dF, "wrong-derivative", wh + " (fresh)", "dF");
      cmp(a, b, "depends-on-history", wh, "dF", 1e-12);
    }
    if constexpr (D >= 2) {
      MatrixXd a, b;
      if (!well_formed(fresh.d2F, b) || !well_formed(s.mv.d2F, a)) fail("corrupt-structure", "%s: d2F", wh.c_str());
      cmp(b, upper(ref.d2F), "wrong-hessian", wh + " (fresh)", "d2F");
      cmp(a, b, "depends-on-history", wh, "d2F", 1e-12);
    }
    for (Eigen::Index k = 0; k < s.mv.F.size(); ++k) logd(s.mv.F(k));
    // what callers do with the result
    if constexpr (D >= 1) { if (op.i("comp") & 1) s.mv.dF.makeCompressed(); }
    if constexpr (D >= 2) { if (op.i("comp") & 2) s.mv.d2F.makeCompressed(); }
    if (op.i("smash")) {
      s.mv.F.setConstant(1e30);
      if constexpr (D >= 1) for (int k = 0; k < s.mv.dF.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(s.mv.dF, k); it; ++it) it.valueRef() = std::nan("");
      if constexpr (D >= 2) for (int k = 0; k < s.mv.d2F.outerSize(); ++k) for (Eigen::SparseMatrix<double>::InnerIterator it(s.mv.d2F, k); it; ++it) it.valueRef() = 1e30;
      probe("result_overwritten_by_caller");
    }
    state(hcomb(hcomb(uint64_t(kind * 4 + D), uint64_t(op.i("comp") * 4 + op.i("smash") * 2 + op.i("vec"))), hcomb(uint64_t(m.N_ivals() * 64 + m.N_colloc()), std::min<uint64_t>(s.uses, 6) * 4 + uint64_t(op.has("fail")))));
  }

  // ---- transcribed problem
  static Ocp make_ocp(uint64_t fs, double dens, Ctl * ctl)
  {
    Ocp o;
    o.theta.f = decltype(o.theta.f)(fs + 1, dens, false);
    o.f.f     = decltype(o.f.f)(fs + 2, dens, true);
    o.g.f     = decltype(o.g.f)(fs + 3, dens, true);
    o.cr.f    = decltype(o.cr.f)(fs + 4, dens, true);
    o.ce.f    = decltype(o.ce.f)(fs + 5, dens, true);
    o.theta.ctl = o.f.ctl = o.g.ctl = o.cr.ctl = o.ce.ctl = ctl;
    Rng r(fs * 3 + 2);
    for (int k = 0; k < NC; ++k) { o.crl(k) = r.p(0.3) ? -HUGE_VAL : -1 - r.u(); o.cru(k) = r.p(0.3) ? HUGE_VAL : 1 + r.u(); }
    for (int k = 0; k < NE; ++k) { o.cel(k) = r.p(0.3) ? -HUGE_VAL : -1 - r.u(); o.ceu(k) = r.p(0.3) ? HUGE_VAL : 1 + r.u(); }
    return o;
  }
  struct Lay { int N, qB, xB, uB, n, dB, gB, cB, eB, m; };
  static Lay lay(const Grid<M> & g)
  {
    Lay l;
    l.N = int(g.N); l.qB = 1; l.xB = 1 + NQ; l.uB = l.xB + NX * (l.N + 1); l.n = l.uB + NU * l.N;
    l.dB = 0; l.gB = NX * l.N; l.cB = l.gB + NQ; l.eB = l.cB + NC * l.N; l.m = l.eB + NE;
    return l;
  }
  // lift derivatives w.r.t. (t0, tf, X, U) to NLP variables (t0 = 0 fixed)
  static MatrixXd lift(const Lay & l)
  {
    const int nv = 2 + NX * (l.N + 1) + NU * l.N;
    MatrixXd P = MatrixXd::Zero(nv, l.n);
    P(1, 0) = 1;
    for (int k = 0; k < nv - 2; ++k) P(2 + k, l.xB + k) = 1;
    return P;
  }
  static MatrixXd liftouter(const Lay & l)
  {
    MatrixXd P = MatrixXd::Zero(1 + 2 * NX + NQ, l.n);
    P(0, 0) = 1;
    for (int k = 0; k < NX; ++k) { P(1 + k, l.xB + k) = 1; P(1 + NX + k, l.xB + NX * l.N + k) = 1; }
    for (int k = 0; k < NQ; ++k) P(1 + 2 * NX + k, l.qB + k) = 1;
    return P;
  }
  void nlp(Data & d, const Op & op, const std::string & wh0)
  {
    const int id = int(op.i("o"));
    if (op.k == "nnew") {
      typename Data::N n;
      n.fs = uint64_t(op.i("fs")); n.ms = uint64_t(op.i("ms")); n.dens = op.d("dens", 0.6);
      n.ctl = std::make_shared<Ctl>();
      auto s = sut([&] { n.nlp = std::make_unique<Nlp>(fb::ocp_to_nlp(make_ocp(n.fs, n.dens, n.ctl.get()), mesh(n.ms))); });
      if (!s.ok) fail("unexpected-exception", "%s: %s", wh0.c_str(), s.ex.c_str());
      d.nlps[id] = std::move(n);
      return;
    }
    if (!d.nlps.count(id)) return;
    auto & n = d.nlps[id];
    if (op.k == "ncopy") {
      const int to = int(op.i("to"));
      if (to == id) return;
      typename Data::N c;
      c.fs = n.fs; c.ms = n.ms; c.dens = n.dens; c.ctl = n.ctl; c.calls = n.calls;
      SutResult s;
      if (op.i("how") == 1 && d.nlps.count(to)) { s = sut([&] { *d.nlps[to].nlp = *n.nlp; }); c.nlp = std::move(d.nlps[to].nlp); }
      else if (op.i("how") == 2) { s = sut([&] { c.nlp = std::make_unique<Nlp>(std::move(*n.nlp)); }); d.nlps.erase(id); }
      else s = sut([&] { c.nlp = std::make_unique<Nlp>(*n.nlp); });
      if (!s.ok) fail("unexpected-exception", "%s: %s", wh0.c_str(), s.ex.c_str());
      d.nlps[to] = std::move(c);
      probe("transcription_copied");
      return;
    }
    const M m = mesh(n.ms);
    const Grid<M> g(m);
    const Lay l = lay(g);
    Rng r(uint64_t(op.i("vs")) * 17 + 3);
    VectorXd x = rnd(r, l.n, 1, op.d("sc", 1)), lam = rnd(r, l.m, 1, op.i("lz") ? 0 : 1);
    x(0) = r.p(0.06) ? 0 : r.logu(0.1, 20);
    const int what = int(op.i("what")) % 6;
    static const char * kn[] = {"f", "df", "d2f", "g", "dg", "d2g"};
    auto wh = fmt("%s: %s of a transcribed problem (%d intervals, %d points, after %llu calls)", wh0.c_str(), kn[what], int(m.N_ivals()), l.N, (unsigned long long)n.calls);
    auto call = [&](Nlp & p, MatrixXd & out) {
      bool ok = true;
      auto s = sut([&] {
        switch (what) {
          case 0: out = MatrixXd::Constant(1, 1, p.f(x)); break;
          case 1: ok = well_formed(p.df_dx(x), out); break;
          case 2: ok = well_formed(p.d2f_dx2(x), out); break;
          case 3: out = p.g(x); break;
          case 4: ok = well_formed(p.dg_dx(x), out); break;
          default: ok = well_formed(p.d2g_dx2(x, lam), out);
        }
      });
      if (!ok) fail("corrupt-structure", "%s", wh.c_str());
      return s;
    };
    MatrixXd got, fre;
    n.ctl->calls = 0;
    n.ctl->fail  = op.has("fail") ? int(op.i("fail")) : -1;
    auto s = call(*n.nlp, got);
    ++n.calls;
    n.ctl->fail = -1;
    if (!s.ok) {
      if (s.ex.find("callback failed") == std::string::npos) fail("unexpected-exception", "%s: %s", wh.c_str(), s.ex.c_str());
      fault("callback_failure");
      if (op.i("giveup")) return;
      s = call(*n.nlp, got);
      if (!s.ok) fail("unexpected-exception", "%s: retry: %s", wh.c_str(), s.ex.c_str());
      wh += " (retry after a failing callback)";
      probe("retry_after_failure");
    }
    Nlp fr(make_ocp(n.fs, n.dens, n.ctl.get()), mesh(n.ms));
    if (auto q = call(fr, fre); !q.ok) fail("unexpected-exception", "%s: fresh: %s", wh.c_str(), q.ex.c_str());
    cmp(got, fre, "depends-on-history", wh, kn[what], 1e-12);
    // reference
    const Ocp o = make_ocp(n.fs, n.dens, nullptr);
    double wmax = 0;
    for (double w : g.w) wmax = std::max(wmax, w);
    const double W = 1 / wmax;
    const MatrixXd Xs = Eigen::Map<const MatrixXd>(x.data() + l.xB, NX, l.N + 1), Us = Eigen::Map<const MatrixXd>(x.data() + l.uB, NU, l.N);
    const MatrixXd P = lift(l), PO = liftouter(l);
    const Eigen::Matrix<double, 1 + 2 * NX + NQ, 1> vo = PO * x;
    if (int(n.nlp->n()) != l.n || int(n.nlp->m()) != l.m) fail("wrong-size", "%s: %d variables, %d constraints, expected %d, %d", wh.c_str(), int(n.nlp->n()), int(n.nlp->m()), l.n, l.m);
    MatrixXd e;
    if (what == 0) e = o.theta.f.val(vo);
    else if (what == 1) e = o.theta.f.jac(vo) * PO;
    else if (what == 2) e = upper(PO.transpose() * o.theta.f.hes(vo, 0) * PO);
    else {
      const Ref rd = reference<NX, NU>(g, o.f, 3, 0, x(0), Xs, Us, lam.segment(l.dB, NX * l.N)), ri = reference<NX, NU>(g, o.g, 2, 0, x(0), Xs, Us, lam.segment(l.gB, NQ)), rc = reference<NX, NU>(g, o.cr, 1, 0, x(0), Xs, Us, lam.segment(l.cB, NC * l.N));
      if (what == 3) {
        e.resize(l.m, 1);
        e << W * rd.F, W * (ri.F - x.segment(l.qB, NQ)), W * rc.F, o.ce.f.val(vo);
        VectorXd gl(l.m), gu(l.m), xl = VectorXd::Constant(l.n, -HUGE_VAL), xu = VectorXd::Constant(l.n, HUGE_VAL);
        xl(0) = 0;
        gl.setZero(); gu.setZero();
        for (int i = 0; i < l.N; ++i) { gl.segment(l.cB + NC * i, NC) = W * g.w[size_t(i)] * o.crl; gu.segment(l.cB + NC * i, NC) = W * g.w[size_t(i)] * o.cru; }
        gl.tail(NE) = o.cel; gu.tail(NE) = o.ceu;
        cmp(n.nlp->gl(), gl, "wrong-bounds", wh, "gl"); cmp(n.nlp->gu(), gu, "wrong-bounds", wh, "gu");
        cmp(n.nlp->xl(), xl, "wrong-bounds", wh, "xl"); cmp(n.nlp->xu(), xu, "wrong-bounds", wh, "xu");
      } else if (what == 4) {
        e.setZero(l.m, l.n);
        e.middleRows(l.dB, NX * l.N) = W * rd.dF * P;
        e.middleRows(l.gB, NQ)       = W * ri.dF * P;
        for (int k = 0; k < NQ; ++k) e(l.gB + k, l.qB + k) -= W;
        e.middleRows(l.cB, NC * l.N) = W * rc.dF * P;
        e.bottomRows(NE)             = o.ce.f.jac(vo) * PO;
      } else {
        e = W * P.transpose() * (rd.d2F + ri.d2F + rc.d2F) * P;
        for (int k = 0; k < NE; ++k) e += lam(l.eB + k) * PO.transpose() * o.ce.f.hes(vo, k) * PO;
        e = upper(e);
      }
    }
    cmp(got, e, what == 0 || what == 3 ? "wrong-value" : what == 1 || what == 4 ? "wrong-derivative" : "wrong-hessian", wh, kn[what]);
    for (Eigen::Index k = 0; k < got.size(); k += 3) logd(got(k));
    state(hcomb(hcomb(0x77, uint64_t(what)), hcomb(uint64_t(m.N_ivals() * 64 + m.N_colloc()), std::min<uint64_t>(n.calls, 8) * 2 + uint64_t(op.has("fail")))));
  }

  // ---- quadratic program of a linearised problem
  static Ocp1 make_ocp1(uint64_t fs, double dens, Ctl * ctl)
  {
    Ocp1 o;
    o.theta.f = decltype(o.theta.f)(fs + 1, dens, false);
    o.f.f     = decltype(o.f.f)(fs + 2, dens, true);
    o.g.f     = decltype(o.g.f)(fs + 3, dens, true);
    o.cr.f    = decltype(o.cr.f)(fs + 4, dens, true);
    o.ce.f    = decltype(o.ce.f)(fs + 5, dens, true);
    o.theta.ctl = o.f.ctl = o.g.ctl = o.cr.ctl = o.ce.ctl = ctl;
    Rng r(fs * 3 + 2);
    for (int k = 0; k < NC; ++k) { o.crl(k) = r.p(0.3) ? -HUGE_VAL : -1 - r.u(); o.cru(k) = r.p(0.3) ? HUGE_VAL : 1 + r.u(); }
    for (int k = 0; k < NE; ++k) { o.cel(k) = r.p(0.3) ? -HUGE_VAL : -1 - r.u(); o.ceu(k) = r.p(0.3) ? HUGE_VAL : 1 + r.u(); }
    return o;
  }
  void qprog(Data & d, const Op & op, const std::string & wh0)
  {
    const int id = int(op.i("o"));
    if (op.k == "qnew") {
      typename Data::Q n;
      n.fs = uint64_t(op.i("fs")); n.ms = uint64_t(op.i("ms")); n.dens = op.d("dens", 0.6);
      n.ctl = std::make_shared<Ctl>();
      // a used program and work memory may be allocated again for another problem
      if (op.i("over") && d.qps.count(id)) { n.qp = std::move(d.qps[id].qp); n.work = fb::detail::OcpToQpWorkmemory{}; probe("program_reallocated"); }
      Ocp1 o = make_ocp1(n.fs, n.dens, n.ctl.get());
      const M m = mesh(n.ms);
      auto s = sut([&] { fb::detail::ocp_to_qp_allocate(n.qp, n.work, o, m); });
      if (!s.ok) fail("unexpected-exception", "%s: %s", wh0.c_str(), s.ex.c_str());
      d.qps[id] = std::move(n);
      return;
    }
    if (!d.qps.count(id)) return;
    auto & n = d.qps[id];
    const M m = mesh(n.ms);
    const Grid<M> g(m);
    const int N = int(g.N), nv = NX * (N + 1) + NU * N, uB = NX * (N + 1), cB = NX * N, eB = cB + NC * N, nc = eB + NE;
    Rng r(uint64_t(op.i("vs")) * 29 + 7);
    const double tf = r.logu(0.1, 20);
    Poly<NX> xl(r, op.d("sc", 1));
    Poly<NU> ul(r, op.d("sc", 1));
    Ocp1 o = make_ocp1(n.fs, n.dens, n.ctl.get());
    auto wh = fmt("%s: quadratic program (%d intervals, %d points, after %llu updates)", wh0.c_str(), int(m.N_ivals()), N, (unsigned long long)n.calls);
    auto call = [&] { return sut([&] { fb::detail::ocp_to_qp_update(n.qp, n.work, o, m, tf, xl, ul); }); };
    n.ctl->calls = 0;
    n.ctl->fail  = op.has("fail") ? int(op.i("fail")) : -1;
    if (op.i("failx")) xl.ctl = ul.ctl = n.ctl.get();
    auto s = call();
    ++n.calls;
    n.ctl->fail = -1;
    if (!s.ok) {
      if (s.ex.find("callback failed") == std::string::npos) fail("unexpected-exception", "%s: %s", wh.c_str(), s.ex.c_str());
      fault("callback_failure");
      if (op.i("giveup")) return;
      s = call();
      if (!s.ok) fail("unexpected-exception", "%s: retry: %s", wh.c_str(), s.ex.c_str());
      wh += " (retry after a failing callback)";
      probe("retry_after_failure");
    }
    xl.ctl = ul.ctl = nullptr;
    fb::QuadraticProgramSparse<double> fr;
    if (auto q = sut([&] { fr = fb::ocp_to_qp(o, m, tf, xl, ul); }); !q.ok) fail("unexpected-exception", "%s: fresh: %s", wh.c_str(), q.ex.c_str());
    // reference
    const Ocp1 e = make_ocp1(n.fs, n.dens, nullptr);
    MatrixXd P = MatrixXd::Zero(nv, nv), A = MatrixXd::Zero(nc, nv);
    VectorXd q = VectorXd::Zero(nv), l = VectorXd::Zero(nc), u = VectorXd::Zero(nc);
    using VI = Eigen::Matrix<double, 1 + NX + NU, 1>;
    using VO = Eigen::Matrix<double, 2 + 2 * NX, 1>;
    VO vo;
    vo << tf, xl(0), xl(tf), 1.;
    const auto Jt = e.theta.f.jac(vo);
    const auto Ht = e.theta.f.hes(vo, 0);
    const auto Je = e.ce.f.jac(vo);
    const double lq = Jt(0, 1 + 2 * NX);
    for (size_t iv = 0; iv < g.K.size(); ++iv)
      for (size_t k = 0; k < g.K[iv]; ++k) {
        const size_t i = g.i0[iv] + k;
        const int xi = NX * int(i), ui = uB + NU * int(i);
        const double t = tf * g.tau[i];
        VI v;
        v << t, xl(t), ul(t);
        const auto f = e.f.f.val(v);
        const auto F = e.f.f.jac(v);
        A.block(xi, xi, NX, NX) += tf * F.middleCols(1, NX);
        A.block(xi, ui, NX, NU) += tf * F.middleCols(1 + NX, NU);
        for (size_t j = 0; j <= g.K[iv]; ++j)
          for (int c = 0; c < NX; ++c) A(xi + c, NX * int(g.i0[iv] + j) + c) -= g.D[iv](Eigen::Index(j), Eigen::Index(k));
        l.segment(xi, NX) = u.segment(xi, NX) = -tf * (f - xl.jacobian(t));
        const auto C = e.cr.f.jac(v);
        A.block(cB + NC * int(i), xi, NC, NX) = C.middleCols(1, NX);
        A.block(cB + NC * int(i), ui, NC, NU) = C.middleCols(1 + NX, NU);
        l.segment(cB + NC * int(i), NC) = e.crl - e.cr.f.val(v);
        u.segment(cB + NC * int(i), NC) = e.cru - e.cr.f.val(v);
        const auto G = e.g.f.jac(v);
        const MatrixXd H = e.g.f.hes(v, 0);
        const double w = lq * g.w[i] * tf;
        q.segment(xi, NX) += w * G.middleCols(1, NX).transpose();
        q.segment(ui, NU) += w * G.middleCols(1 + NX, NU).transpose();
        P.block(xi, xi, NX, NX) += w * H.block(1, 1, NX, NX);
        P.block(xi, ui, NX, NU) += w * H.block(1, 1 + NX, NX, NU);
        P.block(ui, ui, NU, NU) += w * H.block(1 + NX, 1 + NX, NU, NU);
      }
    P.block(0, 0, NX, NX) += Ht.block(1, 1, NX, NX);
    P.block(0, NX * N, NX, NX) += Ht.block(1, 1 + NX, NX, NX);
    P.block(NX * N, NX * N, NX, NX) += Ht.block(1 + NX, 1 + NX, NX, NX);
    q.head(NX) += Jt.segment(1, NX).transpose();
    q.segment(NX * N, NX) += Jt.segment(1 + NX, NX).transpose();
    A.block(eB, 0, NE, NX)      = Je.middleCols(1, NX);
    A.block(eB, NX * N, NE, NX) = Je.middleCols(1 + NX, NX);
    l.tail(NE) = e.cel - e.ce.f.val(vo);
    u.tail(NE) = e.ceu - e.ce.f.val(vo);
    MatrixXd gP, gA, fP, fA;
    if (!well_formed(n.qp.P, gP) || !well_formed(n.qp.A, gA) || !well_formed(fr.P, fP) || !well_formed(fr.A, fA)) fail("corrupt-structure", "%s", wh.c_str());
    cmp(upper(fP), upper(P), "wrong-program", wh + " (fresh)", "P");
    cmp(fr.q, q, "wrong-program", wh + " (fresh)", "q");
    cmp(fA, A, "wrong-program", wh + " (fresh)", "A");
    cmp(fr.l, l, "wrong-program", wh + " (fresh)", "l");
    cmp(fr.u, u, "wrong-program", wh + " (fresh)", "u");
    cmp(upper(gP), upper(fP), "depends-on-history", wh, "P", 1e-12);
    cmp(n.qp.q, fr.q, "depends-on-history", wh, "q", 1e-12);
    cmp(gA, fA, "depends-on-history", wh, "A", 1e-12);
    cmp(n.qp.l, fr.l, "depends-on-history", wh, "l", 1e-12);
    cmp(n.qp.u, fr.u, "depends-on-history", wh, "u", 1e-12);
    for (Eigen::Index k = 0; k < q.size(); k += 2) logd(n.qp.q(k));
    if (op.i("comp") & 1) n.qp.A.makeCompressed();
    if (op.i("comp") & 2) n.qp.P.makeCompressed();
    probe("program_checked");
    state(hcomb(0x99, hcomb(uint64_t(m.N_ivals() * 64 + m.N_colloc()), std::min<uint64_t>(n.calls, 8) * 4 + uint64_t(op.has("fail")) * 2 + (op.d("sc", 1) == 0))));
  }
  // solution of the quadratic program as trajectories
  void qsol(const Op & op, const std::string & wh0)
  {
    const M m = mesh(uint64_t(op.i("ms")));
    const Grid<M> g(m);
    const int N = int(g.N);
    Rng r(uint64_t(op.i("vs")) * 37 + 11);
    const double tf = r.logu(0.1, 20);
    const Poly<NX> xl(r, 1);
    const Poly<NU> ul(r, 1);
    const MatrixXd Z = rnd(r, NX, N + 1), V = rnd(r, NU, N);
    const VectorXd y = rnd(r, NX * N + NC * N + NE, 1);
    using QSol = decltype(fb::qpsol_to_ocpsol(std::declval<const Ocp1 &>(), m, std::declval<const fb::QPSolution<-1, -1, double> &>(), tf, xl, ul));
    if (!std::is_same_v<QSol, typename Ocp1::Solution>) fail("wrong-type", "%s: qpsol_to_ocpsol returns multipliers for %d running and %d end constraints, the problem has %d and %d", wh0.c_str(), QSol::Ncr, QSol::Nce, NC, NE);
    std::optional<QSol> s, c;
    auto src  = std::make_unique<fb::QPSolution<-1, -1, double>>();
    auto ocp  = std::make_unique<Ocp1>(make_ocp1(uint64_t(op.i("fs")), 0.6, nullptr));
    auto m2   = std::make_unique<M>(m);
    auto xl2  = std::make_unique<Poly<NX>>(xl);
    auto ul2  = std::make_unique<Poly<NU>>(ul);
    src->code = fb::QPSolutionStatus::Optimal;
    src->primal.resize(NX * (N + 1) + NU * N);
    src->primal << Z.reshaped(), V.reshaped();
    src->dual = y;
    auto res = sut([&] { s.emplace(fb::qpsol_to_ocpsol(*ocp, *m2, *src, tf, *xl2, *ul2)); });
    if (!res.ok) fail("unexpected-exception", "%s: %s", wh0.c_str(), res.ex.c_str());
    // the sources change and go away
    src->primal.setConstant(std::nan(""));
    xl2->c.setConstant(1e30); ul2->c.setConstant(1e30);
    m2->refine_ph(0, 5 * M::Kmax);
    src.reset(); ocp.reset(); m2.reset(); xl2.reset(); ul2.reset();
    if (op.i("how")) { c = s; s.reset(); s = std::move(c); }
    if (s->t0 != 0 || s->tf != tf) fail("wrong-conversion", "%s: interval [%g, %g], expected [0, %g]", wh0.c_str(), s->t0, s->tf, tf);
    for (int k = 0; k <= N; ++k) {
      const double tau = k % 2 && k < N ? 0.3 * g.tau[size_t(k)] + 0.7 * g.tau[size_t(k + 1)] : g.tau[size_t(k)], t = tau * tf;
      MatrixXd x, u;
      auto q = sut([&] { x = s->x(t); u = s->u(t); });
      if (!q.ok) fail("unexpected-exception", "%s: evaluation at %g: %s", wh0.c_str(), t, q.ex.c_str());
      const bool node = tau == g.tau[size_t(k)];
      cmp(x, xl(t) + (node ? VectorXd(Z.col(k)) : lag(g, Z, tau, true)), "wrong-conversion", wh0 + " solution of a quadratic program", "x(t)", 1e-7);
      if (k < N) cmp(u, ul(t) + (node ? VectorXd(V.col(k)) : lag(g, V, tau, false)), "wrong-conversion", wh0 + " solution of a quadratic program", "u(t)", 1e-7);
      logd(x(0));
    }
    probe("program_solution_converted");
    state(hcomb(0xaa, uint64_t(m.N_ivals() * 64 + m.N_colloc())));
  }

  // ---- conversions between solutions
  void sol(Data & d, const Op & op, const std::string & wh0)
  {
    const int id   = int(op.i("o"));
    const auto ocp = make_ocp(uint64_t(op.i("fs")), 0.6, nullptr);
    if (op.k == "snew") {
      typename Data::S s;
      s.ms = uint64_t(op.i("ms"));
      Rng r(uint64_t(op.i("vs")) * 19 + 3);
      SutResult res;
      const Grid<M> g(mesh(s.ms));
      const Lay l = lay(g);
      s.tf = r.logu(0.1, 20);
      s.Xs = rnd(r, NX, l.N + 1); s.Us = rnd(r, NU, l.N); s.Ld = rnd(r, NX, l.N); s.Lc = rnd(r, NC, l.N);
      if (op.i("smooth")) {  // trajectories that every mesh of this type represents
        const Eigen::Index deg = Eigen::Index(M::Kmin) - 1;
        auto poly = [&](MatrixXd & A) { const MatrixXd c = rnd(r, A.rows(), deg + 1); for (Eigen::Index k = 0; k < A.cols(); ++k) { A.col(k).setZero(); for (Eigen::Index p = 0; p <= deg; ++p) A.col(k) += c.col(p) * std::pow(g.tau[size_t(k)], double(p)); } };
        poly(s.Xs); poly(s.Us); poly(s.Ld); poly(s.Lc);
      }
      s.q = rnd(r, NQ, 1); s.lq = rnd(r, NQ, 1); s.le = rnd(r, NE, 1);
      auto ns    = std::make_unique<fb::NLPSolution>();
      ns->status = fb::NLPSolution::Status::Optimal;
      ns->x.resize(l.n); ns->lambda.resize(l.m);
      ns->x << s.tf, s.q, s.Xs.reshaped(), s.Us.reshaped();
      ns->lambda << s.Ld.reshaped(), s.lq, s.Lc.reshaped(), s.le;
      ns->zl = ns->zu = VectorXd::Zero(l.n);
      auto m2  = std::make_unique<M>(mesh(s.ms));
      auto ocp2 = std::make_unique<Ocp>(ocp);
      res = sut([&] { s.sol = fb::nlpsol_to_ocpsol(*ocp2, *m2, *ns); });
      if (!res.ok) fail("unexpected-exception", "%s: %s", wh0.c_str(), res.ex.c_str());
      // the sources change and go away
      ns->x.setConstant(std::nan(""));
      ns->lambda.setConstant(std::nan(""));
      m2->refine_ph(0, 5 * M::Kmax);
      d.sols[id] = std::move(s);
    }
    if (!d.sols.count(id)) return;
    auto & s = d.sols[id];
    if (op.k == "scopy") {
      const int to = int(op.i("to"));
      if (to == id) return;
      auto res = sut([&] { if (d.sols.count(to) && op.i("how")) d.sols[to].sol = s.sol; });
      typename Data::S c = s;
      if (d.sols.count(to) && op.i("how")) c.sol = d.sols[to].sol;
      d.sols[to] = std::move(c);
      if (op.i("drop")) { d.sols.erase(id); check(d.sols[to], wh0 + " copy of a destroyed solution"); return; }
    }
    check(s, wh0);
    if (op.k == "sback") {
      // same mesh or a refinement of it
      M m = mesh(s.ms);
      const bool ref = op.i("ref");
      Rng r(uint64_t(op.i("vs")) * 23 + 9);
      if (ref) for (int k = int(r.i(1, 3)); k > 0; --k) m.refine_ph(size_t(r.i(0, int64_t(m.N_ivals()) - 1)), size_t(r.i(int64_t(M::Kmin), 2 * int64_t(M::Kmax))));
      const Grid<M> g(m), g0(mesh(s.ms));
      const Lay l = lay(g);
      fb::NLPSolution ns;
      auto res = sut([&] { ns = fb::ocpsol_to_nlpsol(ocp, m, s.sol); });
      if (!res.ok) fail("unexpected-exception", "%s: %s", wh0.c_str(), res.ex.c_str());
      auto wh = wh0 + (ref ? " to a refined mesh" : " to the same mesh");
      if (ns.x.size() != l.n || ns.lambda.size() != l.m || ns.zl.size() != l.n || ns.zu.size() != l.n) fail("wrong-size", "%s: sizes %d, %d, %d, %d", wh.c_str(), int(ns.x.size()), int(ns.lambda.size()), int(ns.zl.size()), int(ns.zu.size()));
      VectorXd x(l.n), lam(l.m);
      MatrixXd X1(NX, l.N + 1), U1(NU, l.N), Ld(NX, l.N), Lc(NC, l.N);
      if (!ref) { X1 = s.Xs; U1 = s.Us; Ld = s.Ld; Lc = s.Lc; }
      else
        for (int k = 0; k <= l.N; ++k) {  // interpolate with our own Lagrange polynomials
          X1.col(k) = lag(g0, s.Xs, g.tau[size_t(k)], true);
          if (k == l.N) break;
          U1.col(k) = lag(g0, s.Us, g.tau[size_t(k)], false);
          Ld.col(k) = lag(g0, s.Ld, g.tau[size_t(k)], false);
          Lc.col(k) = lag(g0, s.Lc, g.tau[size_t(k)], false);
        }
      x << s.tf, s.q, X1.reshaped(), U1.reshaped();
      lam << Ld.reshaped(), s.lq, Lc.reshaped(), s.le;
      cmp(ns.x, x, "wrong-conversion", wh, "x", 1e-7);
      cmp(ns.lambda, lam, "wrong-conversion", wh, "lambda", 1e-7);
      probe(ref ? "moved_to_refined_mesh" : "round_trip");
      for (Eigen::Index k = 0; k < ns.x.size(); ++k) logd(ns.x(k));
      if (op.i("onward")) {
        // continue with the new mesh: a solution made from the moved one agrees with the old one
        Sol s2;
        res = sut([&] { s2 = fb::nlpsol_to_ocpsol(ocp, m, ns); });
        if (!res.ok) fail("unexpected-exception", "%s: %s", wh.c_str(), res.ex.c_str());
        bool same_poly = !ref || M::Kmin >= M::Kmax;
        for (int k = 0; k <= l.N; ++k) {
          const double t = g.tau[size_t(k)] * s.tf;
          cmp(s2.x(t), s.sol.x(t), "wrong-conversion", wh + " and back", "x", 1e-6);
          if (k < l.N) { cmp(s2.u(t), s.sol.u(t), "wrong-conversion", wh + " and back", "u", 1e-6); }
        }
        (void)same_poly;
      }
    }
    if (op.k == "serr") errors(s, op, wh0);
    state(hcomb(hash_str(op.k), hcomb(uint64_t(op.i("smooth") * 4 + op.i("ref") * 2 + op.i("onward")), s.ms % 64)));
  }
  static VectorXd lag(const Grid<M> & g, const MatrixXd & V, double t, bool ext)
  {
    size_t q = 0;
    while (q + 1 < g.K.size() && t >= g.tau[g.i0[q + 1]]) ++q;
    const size_t n = g.K[q] + ((ext || q + 1 < g.K.size()) ? 1 : 0);
    VectorXd r = VectorXd::Zero(V.rows());
    for (size_t j = 0; j < n; ++j) {
      double w = 1;
      for (size_t k = 0; k < n; ++k) if (k != j) w *= (t - g.tau[g.i0[q] + k]) / (g.tau[g.i0[q] + j] - g.tau[g.i0[q] + k]);
      r += w * V.col(Eigen::Index(g.i0[q] + j));
    }
    return r;
  }
  void check(typename Data::S & s, const std::string & wh)
  {
    const Grid<M> g(mesh(s.ms));
    if (s.sol.tf != s.tf || s.sol.t0 != 0) fail("wrong-conversion", "%s: interval [%g, %g], expected [0, %g]", wh.c_str(), s.sol.t0, s.sol.tf, s.tf);
    cmp(s.sol.Q, s.q, "wrong-conversion", wh, "Q");
    cmp(s.sol.lambda_q, s.lq, "wrong-conversion", wh, "lambda_q");
    cmp(s.sol.lambda_ce, s.le, "wrong-conversion", wh, "lambda_ce");
    for (size_t k = 0; k <= g.N; ++k) {
      const double tau = k % 2 && k < g.N ? 0.3 * g.tau[k] + 0.7 * g.tau[k + 1] : g.tau[k], t = tau * s.tf;
      MatrixXd x, u, ld, lc;
      auto r = sut([&] { x = s.sol.x(t); u = s.sol.u(t); ld = s.sol.lambda_dyn(t); lc = s.sol.lambda_cr(t); });
      if (!r.ok) fail("unexpected-exception", "%s: evaluation at %g: %s", wh.c_str(), t, r.ex.c_str());
      const Eigen::Index i = Eigen::Index(k);
      const bool node = tau == g.tau[k];
      cmp(x, node ? MatrixXd(s.Xs.col(i)) : MatrixXd(lag(g, s.Xs, tau, true)), "wrong-conversion", wh, "x(t)", 1e-7);
      if (k < g.N) {
        cmp(u, node ? MatrixXd(s.Us.col(i)) : MatrixXd(lag(g, s.Us, tau, false)), "wrong-conversion", wh, "u(t)", 1e-7);
        cmp(ld, node ? MatrixXd(s.Ld.col(i)) : MatrixXd(lag(g, s.Ld, tau, false)), "wrong-conversion", wh, "lambda_dyn(t)", 1e-7);
        cmp(lc, node ? MatrixXd(s.Lc.col(i)) : MatrixXd(lag(g, s.Lc, tau, false)), "wrong-conversion", wh, "lambda_cr(t)", 1e-7);
      }
    }
  }
  // error estimate of the trajectory on a mesh, then refinement by it
  void errors(typename Data::S & s, const Op & op, const std::string & wh0)
  {
    M m = mesh(uint64_t(op.i("ms")));
    const Grid<M> g(m);
    Ctl ctl;
    FD f;
    f.f   = decltype(f.f)(uint64_t(op.i("fs")), 0.6, false);
    f.ctl = &ctl;
    ctl.fail = op.has("fail") ? int(op.i("fail")) : -1;
    VectorXd e;
    auto call = [&] { return sut([&] { e = fb::mesh_dyn_error(f, m, 0, s.tf, s.sol.x, s.sol.u); }); };
    auto r = call();
    if (!r.ok) {
      if (r.ex.find("callback failed") == std::string::npos) fail("unexpected-exception", "%s: %s", wh0.c_str(), r.ex.c_str());
      fault("callback_failure");
      ctl.fail = -1;
      r = call();
      if (!r.ok) fail("unexpected-exception", "%s: %s", wh0.c_str(), r.ex.c_str());
      probe("retry_after_failure");
    }
    VectorXd ex(Eigen::Index(m.N_ivals()));
    for (size_t q = 0; q < g.K.size(); ++q) {
      const Eigen::Index K = Eigen::Index(g.K[q]);
      MatrixXd Xv(NX, K + 1), Fv(NX, K);
      for (Eigen::Index j = 0; j <= K; ++j) {
        const double t = s.tf * g.tau[g.i0[q] + size_t(j)];
        const X x = s.sol.x(t);
        const U u = s.sol.u(t);
        Xv.col(j) = x;
        Eigen::Matrix<double, 1 + NX + NU, 1> v;
        v << t, x, u;
        if (j < K) Fv.col(j) = s.tf * f.f.val(v);
      }
      // the polynomial through x0 with these derivatives: y D = F
      const MatrixXd D = g.D[q];
      const MatrixXd Y = (Fv - Xv.col(0) * D.row(0)) * MatrixXd(D.bottomRows(K)).fullPivLu().inverse();
      ex(Eigen::Index(q)) = (Y - Xv.rightCols(K)).colwise().norm().maxCoeff() / (1 + Xv.rightCols(K).colwise().norm().maxCoeff());
    }
    cmp(e, ex, "wrong-error-estimate", wh0, "relative error", 1e-7);
    for (Eigen::Index k = 0; k < e.size(); ++k) logd(e(k));
    probe("error_estimate_checked");
  }

  void run(const Plan & plan, int tid) override
  {
    Data d;
    size_t opi = 0;
    for (auto & op : plan.ops) {
      ++opi;
      if (op.k == "fill") { if (tid == 0) heap_fill(uint64_t(op.i("f"))); continue; }
      if (op.k == "cfg" || op.k == "sched" || op.k == "switch" || op.i("k") != tid) continue;
      const auto wh = fmt("op %zu", opi);
      const int o   = int(op.i("o")) % 2;
      if (op.k == "fun") {
        if (op.i("D") == 0) fun<0>(d.s0[o], op, wh);
        else if (op.i("D") == 1) fun<1>(d.s1[o], op, wh);
        else fun<2>(d.s2[o], op, wh);
      } else if (op.k == "nnew" || op.k == "ncall" || op.k == "ncopy") nlp(d, op, wh);
      else if (op.k == "qnew" || op.k == "qupd") qprog(d, op, wh);
      else if (op.k == "qsol") qsol(op, wh);
      else sol(d, op, wh);
    }
  }
};
}  // namespace meshfun
