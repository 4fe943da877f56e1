// Flattened optimal control problems (C21) and the derivative checker (C22).
#pragma once
#include "flat_iface.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <array>
#include <cstdlib>
#include <iostream>
#include <map>
#include <optional>
#include <smooth/bundle.hpp>
#include <smooth/se2.hpp>
#include <smooth/so3.hpp>
#include "smooth/feedback/ocp_flatten.hpp"

namespace flat {
using namespace sim;
namespace fb = smooth::feedback;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using Sp = Eigen::SparseMatrix<double>;

struct CallbackError : std::runtime_error { using runtime_error::runtime_error; };
struct Ctl
{
  int calls{0}, fail{-1};
  void tick() { yield_point(); if (calls++ == fail) throw CallbackError("callback failed"); }
};

// ---------------------------------------------------------------- smooth coordinates of a group with exact derivatives
// phi(x) in R^P, J(p, i) along the right tangent, H_p(i, j) = derivative of J(p, i) along j
template<class G> struct Feat
{
  static constexpr int N = int(smooth::Dof<G>);
  static constexpr int P = N;  // vectors
  static VectorXd val(const G & x) { return x; }
  static MatrixXd jac(const G &) { return MatrixXd::Identity(N, N); }
  static MatrixXd hes(const G &, int) { return MatrixXd::Zero(N, N); }
};
template<> struct Feat<smooth::SO3d>
{
  static constexpr int N = 3, P = 6;
  static Eigen::Matrix3d hat(int i)
  {
    const Eigen::Vector3d a = Eigen::Vector3d::Unit(i);
    return (Eigen::Matrix3d() << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0).finished();
  }
  static Eigen::Vector3d w(int s) { return s ? Eigen::Vector3d(0.2, 0.9, -0.4) : Eigen::Vector3d(0.7, -0.3, 0.5); }
  static VectorXd val(const smooth::SO3d & x) { VectorXd r(6); r << x.matrix() * w(0), x.matrix() * w(1); return r; }
  static MatrixXd jac(const smooth::SO3d & x)
  {
    MatrixXd J(6, 3);
    for (int i = 0; i < 3; ++i) J.col(i) << x.matrix() * (hat(i) * w(0)), x.matrix() * (hat(i) * w(1));
    return J;
  }
  static MatrixXd hes(const smooth::SO3d & x, int p)
  {
    MatrixXd H(3, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) H(i, j) = (x.matrix() * (hat(j) * hat(i) * w(p / 3)))(p % 3);
    return H;
  }
};
template<> struct Feat<smooth::SE2d>
{
  static constexpr int N = 3, P = 4;
  static Eigen::Matrix3d hat(int i)
  {
    Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
    if (i < 2) m(i, 2) = 1;
    else { m(0, 1) = -1; m(1, 0) = 1; }
    return m;
  }
  static Eigen::Matrix3d mat(const smooth::SE2d & x)
  {
    return (Eigen::Matrix3d() << x.c, -x.s, x.p.x(), x.s, x.c, x.p.y(), 0, 0, 1).finished();
  }
  static Eigen::Vector3d w(int s) { return s ? Eigen::Vector3d(0.6, -0.8, 1) : Eigen::Vector3d(-0.3, 0.4, 1); }
  static VectorXd val(const smooth::SE2d & x)
  {
    VectorXd r(4);
    r << (mat(x) * w(0)).head<2>(), (mat(x) * w(1)).head<2>();
    return r;
  }
  static MatrixXd jac(const smooth::SE2d & x)
  {
    MatrixXd J(4, 3);
    for (int i = 0; i < 3; ++i) J.col(i) << (mat(x) * (hat(i) * w(0))).head<2>(), (mat(x) * (hat(i) * w(1))).head<2>();
    return J;
  }
  static MatrixXd hes(const smooth::SE2d & x, int p)
  {
    MatrixXd H(3, 3);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) H(i, j) = (mat(x) * (hat(j) * hat(i) * w(p / 2)))(p % 2);
    return H;
  }
};
template<> struct Feat<double>
{
  static constexpr int N = 1, P = 1;
  static VectorXd val(double x) { return VectorXd::Constant(1, x); }
  static MatrixXd jac(double) { return MatrixXd::Identity(1, 1); }
  static MatrixXd hes(double, int) { return MatrixXd::Zero(1, 1); }
};

// random smooth function of the coordinates of its arguments, with exact derivatives
struct Bad  // a wrong derivative: order 1 or 2, what, position
{
  int order{0}, what{0}, r{0}, c{0};
  double by{0};
};
template<int NF, int ORD, class... A>
struct Fun
{
  static constexpr int NV = int((smooth::Dof<A> + ... + 0)), NP = (Feat<A>::P + ... + 0);
  VectorXd c{VectorXd::Zero(NF)}, s{VectorXd::Zero(NF)};
  MatrixXd b{MatrixXd::Zero(NF, NP)}, w{MatrixXd::Zero(NF, NP)};
  std::vector<MatrixXd> Q{std::size_t(NF), MatrixXd::Zero(NP, NP)};
  Ctl * ctl{nullptr};
  Bad bad;
  Fun() = default;
  Fun(uint64_t seed, double dens)
  {
    Rng g(seed * 977 + 5);
    for (int i = 0; i < NF; ++i) {
      c(i) = g.n();
      s(i) = g.p(0.5) ? g.n() : 0;
      for (int j = 0; j < NP; ++j) {
        if (g.p(dens)) b(i, j) = g.n();
        if (g.p(dens)) w(i, j) = 0.6 * g.n();
        for (int k = 0; k <= j; ++k) if (g.p(dens)) Q[size_t(i)](j, k) = Q[size_t(i)](k, j) = 0.7 * g.n();
      }
    }
  }
  static VectorXd coord(const A &... a)
  {
    VectorXd v(NP);
    int o = 0;
    ((v.segment(o, Feat<A>::P) = Feat<A>::val(a), o += Feat<A>::P), ...);
    return v;
  }
  static MatrixXd dcoord(const A &... a)
  {
    MatrixXd D = MatrixXd::Zero(NP, NV);
    int o = 0, v = 0;
    ((D.block(o, v, Feat<A>::P, int(smooth::Dof<A>)) = Feat<A>::jac(a), o += Feat<A>::P, v += int(smooth::Dof<A>)), ...);
    return D;
  }
  VectorXd value(const A &... a) const
  {
    const VectorXd v = coord(a...);
    VectorXd r(NF);
    for (int i = 0; i < NF; ++i) r(i) = c(i) + b.row(i).dot(v) + 0.5 * v.dot(Q[size_t(i)] * v) + s(i) * std::sin(w.row(i).dot(v));
    return r;
  }
  MatrixXd dvalue(const VectorXd & v) const
  {
    MatrixXd J(NF, NP);
    for (int i = 0; i < NF; ++i) J.row(i) = b.row(i) + (Q[size_t(i)] * v).transpose() + s(i) * std::cos(w.row(i).dot(v)) * w.row(i);
    return J;
  }
  static Sp sparse(const MatrixXd & m, const Bad & bad, int order)
  {
    const bool wrong = bad.order == order;
    Sp r(m.rows(), m.cols() + (wrong && bad.what == 1));
    for (int j = 0; j < m.cols(); ++j)
      for (int i = 0; i < m.rows(); ++i) {
        double x = m(i, j);
        if (wrong && i == bad.r % int(m.rows()) && j == bad.c % int(m.cols())) {
          if (bad.what == 0) x += bad.by;
          if (bad.what == 2) x = std::numeric_limits<double>::quiet_NaN();
        }
        if (x != 0) r.insert(i, j) = x;
      }
    r.makeCompressed();
    return r;
  }
  Sp jacobian(const A &... a) const requires(ORD >= 1)
  {
    if (ctl) ctl->tick();
    return sparse(dvalue(coord(a...)) * dcoord(a...), bad, 1);
  }
  Sp hessian(const A &... a) const requires(ORD >= 2)
  {
    if (ctl) ctl->tick();
    const VectorXd v = coord(a...);
    const MatrixXd D = dcoord(a...), J = dvalue(v);
    MatrixXd H(NV, NF * NV);
    for (int i = 0; i < NF; ++i) {
      MatrixXd h = D.transpose() * (Q[size_t(i)] - s(i) * std::sin(w.row(i).dot(v)) * w.row(i).transpose() * w.row(i)) * D;
      int o = 0, n = 0;
      auto add = [&](const auto & x) {
        using G = std::decay_t<decltype(x)>;
        for (int p = 0; p < Feat<G>::P; ++p) h.block(n, n, int(smooth::Dof<G>), int(smooth::Dof<G>)) += J(i, o + p) * Feat<G>::hes(x, p);
        o += Feat<G>::P;
        n += int(smooth::Dof<G>);
      };
      (add(a), ...);
      H.middleCols(i * NV, NV) = h;
    }
    return sparse(H, bad, 2);
  }
};
template<int NF, int ORD, class X, class U> struct Inner : Fun<NF, ORD, double, X, U>
{
  using Fun<NF, ORD, double, X, U>::Fun;
  template<typename T> Eigen::Matrix<T, NF, 1> operator()(const T & t, const smooth::CastT<T, X> & x, const smooth::CastT<T, U> & u) const
  {
    if (this->ctl) this->ctl->tick();
    return this->value(t, x, u);
  }
};
template<int NF, int ORD, bool Scalar, class X, class Q> struct Outer : Fun<NF, ORD, double, X, X, Q>
{
  using Fun<NF, ORD, double, X, X, Q>::Fun;
  template<typename T> auto operator()(const T & t, const smooth::CastT<T, X> & a, const smooth::CastT<T, X> & b, const smooth::CastT<T, Q> & q) const
  {
    if (this->ctl) this->ctl->tick();
    const VectorXd r = this->value(t, a, b, q);
    if constexpr (Scalar) return T(r(0));
    else return Eigen::Matrix<T, NF, 1>(r);
  }
};

// trajectory with constant velocity; owns its data
template<class G> struct Traj
{
  static constexpr int N = int(smooth::Dof<G>);
  std::vector<double> d;  // base point, velocity
  Ctl * ctl{nullptr};
  Traj(uint64_t seed, Ctl * c) : ctl(c)
  {
    Rng g(seed * 31 + 3);
    const double s = g.pick<double>({0, 0.5, 1});
    for (int k = 0; k < N; ++k) d.push_back(g.n());
    for (int k = 0; k < N; ++k) d.push_back(s * g.n());
  }
  Eigen::Matrix<double, N, 1> vel() const { return Eigen::Map<const Eigen::Matrix<double, N, 1>>(d.data() + N); }
  G at(double t) const
  {
    const Eigen::Matrix<double, N, 1> p = Eigen::Map<const Eigen::Matrix<double, N, 1>>(d.data()), v = t * vel();
    return smooth::rplus(smooth::exp<G>(p), v);
  }
  template<typename T> smooth::CastT<T, G> operator()(const T & t) const
  {
    if (ctl) ctl->tick();
    return at(double(t));
  }
};

// ---------------------------------------------------------------- runner
template<class X, class U>
struct Runner : FlatRunner
{
  static constexpr int Nx = int(smooth::Dof<X>), Nu = int(smooth::Dof<U>), Nq = 2, Ncr = 2, Nce = 3;
  static constexpr int NI = 1 + Nx + Nu, NO = 1 + 2 * Nx + Nq;
  using Q  = Eigen::Matrix<double, Nq, 1>;
  using Th = Outer<1, 2, true, X, Q>;
  using F  = Inner<Nx, 2, X, U>;
  using Gi = Inner<Nq, 2, X, U>;
  using Cr = Inner<Ncr, 2, X, U>;
  using Ce = Outer<Nce, 2, false, X, Q>;
  using Ocp  = fb::OCP<X, U, Th, F, Gi, Cr, Ce>;
  using Flat = decltype(fb::flatten_ocp(std::declval<const Ocp &>(), std::declval<Traj<X> &>(), std::declval<Traj<U> &>()));
  using FlatC = decltype(fb::flatten_ocp(std::declval<const Ocp &>(), std::declval<const Traj<X> &>(), std::declval<const Traj<U> &>()));

  using E = Eigen::Matrix<double, Nx, 1>;
  using V = Eigen::Matrix<double, Nu, 1>;

  struct Model  // what the object was made from
  {
    Ocp ocp;
    Traj<X> xl;
    Traj<U> ul;
  };
  struct Held  // the last derivative an object handed out
  {
    const Sp * p{nullptr};
    MatrixXd v;
  };
  struct Obj
  {
    std::shared_ptr<Model> m;
    std::unique_ptr<Flat> f;
    Held h[5][2];
    int evals{0};
  };

  Ctl ctl;
  std::map<int, Obj> objs;
  std::vector<std::unique_ptr<Model>> sources;  // what stays alive of the things the problems were made from

  static Ocp make_ocp(uint64_t fs, double dens, Ctl * c)
  {
    Ocp o{.theta = Th(fs * 7 + 1, dens), .f = F(fs * 7 + 2, dens), .g = Gi(fs * 7 + 3, dens), .cr = Cr(fs * 7 + 4, dens), .ce = Ce(fs * 7 + 5, dens)};
    Rng g(fs);
    for (int i = 0; i < Ncr; ++i) { o.crl(i) = -g.u(); o.cru(i) = g.u(); }
    for (int i = 0; i < Nce; ++i) { o.cel(i) = -g.u(); o.ceu(i) = g.u(); }
    o.theta.ctl = o.f.ctl = o.g.ctl = o.cr.ctl = o.ce.ctl = c;
    return o;
  }

  // reference values, from the definition x = xl + e, u = ul + v
  static E dexpinv(const E & e, const E & y)
  {
    if constexpr (smooth::IsCommutative<X>) return y;
    const Eigen::Matrix<double, Nx, Nx> A = -smooth::ad<X>(e);
    Eigen::Matrix<double, Nx, Nx> M = Eigen::Matrix<double, Nx, Nx>::Identity(), P = M;
    for (int n = 1; n < 26; ++n) { P = (P * A / double(n + 1)).eval(); M += P; }
    return M.partialPivLu().solve(y);
  }
  static VectorXd ref(const Model & m, int fn, const VectorXd & z)
  {
    if (fn == 0 || fn == 4) {
      const E e0 = z.segment(1, Nx), ef = z.segment(1 + Nx, Nx);
      const Q q = z.tail(Nq);
      const X x0 = smooth::rplus(m.xl.at(0), e0), xf = smooth::rplus(m.xl.at(z(0)), ef);
      return fn == 0 ? m.ocp.theta.value(z(0), x0, xf, q) : m.ocp.ce.value(z(0), x0, xf, q);
    }
    const E e = z.segment(1, Nx);
    const V v = z.tail(Nu);
    const X x = smooth::rplus(m.xl.at(z(0)), e);
    const U u = smooth::rplus(m.ul.at(z(0)), v);
    if (fn == 2) return m.ocp.g.value(z(0), x, u);
    if (fn == 3) return m.ocp.cr.value(z(0), x, u);
    const E ne = -e;
    const E back = smooth::Ad<X>(smooth::exp<X>(ne)) * m.xl.vel();
    return dexpinv(e, E(m.ocp.f.value(z(0), x, u)) - back);
  }
  static constexpr double kH = 2e-3;
  template<class Fn> static VectorXd diff1(const Fn & f, VectorXd z, int i)
  {
    const double z0 = z(i);
    auto at = [&](double d) { z(i) = z0 + d; return VectorXd(f(z)); };
    return (8 * (at(kH) - at(-kH)) - (at(2 * kH) - at(-2 * kH))) / (12 * kH);
  }
  static MatrixXd ref_jac(const Model & m, int fn, const VectorXd & z)
  {
    const int n = int(z.size());
    MatrixXd J;
    for (int i = 0; i < n; ++i) {
      const VectorXd c = diff1([&](const VectorXd & y) { return ref(m, fn, y); }, z, i);
      if (!i) J.resize(c.size(), n);
      J.col(i) = c;
    }
    return J;
  }
  static MatrixXd ref_hes(const Model & m, int fn, const VectorXd & z)
  {
    const int n = int(z.size());
    MatrixXd H;
    for (int j = 0; j < n; ++j)
      for (int i = 0; i <= j; ++i) {
        const VectorXd c = diff1([&](const VectorXd & y) { return diff1([&](const VectorXd & x) { return ref(m, fn, x); }, y, i); }, z, j);
        if (!H.size()) H.resize(n, n * c.size());
        for (int k = 0; k < c.size(); ++k) H(i, k * n + j) = H(j, k * n + i) = c(k);
      }
    return H;
  }

  // call function fn of a problem: what 0 value, 1 Jacobian, 2 Hessian
  template<class R> static const Sp * take(R && r, Sp & keep)
  {
    if constexpr (std::is_lvalue_reference_v<R &&> && std::is_convertible_v<R, const Sp &>) {
      const Sp & m = r;
      keep = m;
      return &m;
    } else {
      const Sp & m = r;
      keep = m;
      return nullptr;
    }
  }
  template<class R> static const Sp * take(const std::reference_wrapper<R> & r, Sp & keep) { keep = r.get(); return &r.get(); }
  template<class R> static const Sp * take(std::reference_wrapper<R> && r, Sp & keep) { keep = r.get(); return &r.get(); }
  template<class R> static const Sp * take(std::reference_wrapper<R> & r, Sp & keep) { keep = r.get(); return &r.get(); }
  template<class P> static const Sp * call(P & p, int fn, int what, const VectorXd & z, VectorXd & val, Sp & sp)
  {
    const double t = z(0);
    auto go = [&](auto & f, const auto &... a) -> const Sp * {
      if (what == 0) {
        const auto r = f(t, a...);
        if constexpr (std::is_arithmetic_v<std::decay_t<decltype(r)>>) val = VectorXd::Constant(1, r);
        else val = r;
        return nullptr;
      }
      if constexpr (!std::is_const_v<P>) {
        if (what == 1) return take(f.jacobian(t, a...), sp);
        return take(f.hessian(t, a...), sp);
      } else return nullptr;
    };
    if (fn == 0 || fn == 4) {
      const E e0 = z.segment(1, Nx), ef = z.segment(1 + Nx, Nx);
      const Q q = z.tail(Nq);
      return fn == 0 ? go(p.theta, e0, ef, q) : go(p.ce, e0, ef, q);
    }
    const E e = z.segment(1, Nx);
    const V v = z.tail(Nu);
    return fn == 1 ? go(p.f, e, v) : fn == 2 ? go(p.g, e, v) : go(p.cr, e, v);
  }
  static int nvars(int fn) { return fn == 0 || fn == 4 ? NO : NI; }
  static int nouts(int fn) { return fn == 0 ? 1 : fn == 1 ? Nx : fn == 2 ? Nq : fn == 3 ? Ncr : Nce; }
  static VectorXd point(int fn, uint64_t vs, double sc)
  {
    Rng g(vs * 13 + 7);
    VectorXd z(nvars(fn));
    z(0) = g.p(0.1) ? 0 : g.u(0, 2);
    for (int i = 1; i < z.size(); ++i) z(i) = g.p(0.1) ? 0 : sc * g.u(-0.8, 0.8);
    return z;
  }

  void check_close(const char * what, int fn, const MatrixXd & got, const MatrixXd & want, double tol)
  {
    static const char * names[] = {"theta", "f", "g", "cr", "ce"};
    if (got.rows() != want.rows() || got.cols() != want.cols()) fail("flat-size", "%s of %s has size %ldx%ld instead of %ldx%ld", what, names[fn], long(got.rows()), long(got.cols()), long(want.rows()), long(want.cols()));
    const double sc = 1 + want.cwiseAbs().maxCoeff();
    for (int j = 0; j < got.cols(); ++j)
      for (int i = 0; i < got.rows(); ++i)
        if (!(std::fabs(got(i, j) - want(i, j)) <= tol * sc)) fail(std::string("flat-") + what, "%s of flattened %s: entry (%d, %d) is %.12g instead of %.12g", what, names[fn], i, j, got(i, j), want(i, j));
  }
  static MatrixXd dense(const Sp & s)
  {
    MatrixXd m = MatrixXd::Zero(s.rows(), s.cols());
    for (int k = 0; k < s.outerSize(); ++k)
      for (Sp::InnerIterator it(s, k); it; ++it) {
        if (it.row() < 0 || it.row() >= s.rows() || it.col() < 0 || it.col() >= s.cols()) fail("flat-malformed", "entry outside the matrix");
        m(it.row(), it.col()) += it.value();
      }
    return m;
  }
  void check_held()
  {
    for (auto & [id, o] : objs)
      for (int fn = 0; fn < 5; ++fn)
        for (int w = 0; w < 2; ++w)
          if (o.h[fn][w].p) {
            const MatrixXd now = dense(*o.h[fn][w].p);
            if (!(now.rows() == o.h[fn][w].v.rows() && now.cols() == o.h[fn][w].v.cols() && now == o.h[fn][w].v)) fail("flat-alias", "the %s of function %d handed out by problem %d changed although that problem was not evaluated", w ? "Hessian" : "Jacobian", fn, id);
          }
  }
  static void forget(Obj & o) { for (auto & r : o.h) for (auto & h : r) h = Held(); }

  void op_new(const Op & o)
  {
    auto src = std::make_unique<Model>(Model{make_ocp(uint64_t(o.i("fs")), o.d("dens", 0.6), &ctl), Traj<X>(uint64_t(o.i("ms")), &ctl), Traj<U>(uint64_t(o.i("ms")) + 77, &ctl)});
    auto m   = std::make_shared<Model>(*src);
    ctl      = Ctl();
    Obj n;
    n.m = m;
    auto r = sut([&] { n.f = std::make_unique<Flat>(fb::flatten_ocp(src->ocp, src->xl, src->ul)); });
    if (!r.ok) fail("flat-throw", "flatten_ocp threw: %s", r.ex.c_str());
    if (n.f->crl != m->ocp.crl || n.f->cru != m->ocp.cru || n.f->cel != m->ocp.cel || n.f->ceu != m->ocp.ceu) fail("flat-bounds", "bounds of the flattened problem differ");
    objs[int(o.i("o"))] = std::move(n);
    const int life = int(o.i("life"));
    if (life == 0) { sources.push_back(std::move(src)); probe("source_alive"); }
    else if (life == 1) { src.reset(); fault("source_destroyed"); }
    else {  // overwritten: another problem along other trajectories
      *src = Model{make_ocp(uint64_t(o.i("fs")) + 500, 0.6, &ctl), Traj<X>(uint64_t(o.i("ms")) + 500, &ctl), Traj<U>(uint64_t(o.i("ms")) + 577, &ctl)};
      sources.push_back(std::move(src));
      fault("source_overwritten");
    }
  }
  void op_eval(const Op & o)
  {
    auto it = objs.find(int(o.i("o")));
    if (it == objs.end()) return;
    Obj & b = it->second;
    const int fn = int(o.i("fn")) % 5, what = int(o.i("what"));  // 0 value, 1 Jacobian, 2 Hessian, 3: both, 4: both, other order
    VectorXd z = point(fn, uint64_t(o.i("vs")), o.d("sc", 1));
    if (o.has("gt")) {  // time, (first) state and the rest from a pool of two each
      z(0) = o.i("gt") ? 0.7 : 0.3;
      z.segment(1, Nx) = point(fn, uint64_t(40 + o.i("ge")), 1).segment(1, Nx);
      z.tail(z.size() - 1 - Nx) = point(fn, uint64_t(60 + o.i("gv")), 1).tail(z.size() - 1 - Nx);
    }
    const bool is_const = o.i("c") && what == 0;
    VectorXd val;
    auto one = [&](int w, int failat) -> bool {
      Sp sp;
      const Sp * p = nullptr;
      ctl = Ctl();
      ctl.fail = failat;
      if (w > 0) b.h[fn][w - 1] = Held();
      const MatrixXd other = w > 0 && b.h[fn][2 - w].p ? b.h[fn][2 - w].v : MatrixXd();
      auto r = sut([&] {
        if (is_const) p = call(std::as_const(*b.f), fn, 0, z, val, sp);
        else p = call(*b.f, fn, w, z, val, sp);
      });
      if (!r.ok) {
        if (failat < 0 || ctl.calls <= failat) fail("flat-throw", "evaluation threw: %s", r.ex.c_str());
        if (r.ex.find("callback failed") == std::string::npos && !r.injected) fail("flat-throw", "a failing callback was reported as: %s", r.ex.c_str());
        fault(w == 0 ? "callback_failed_value" : w == 1 ? "callback_failed_jacobian" : "callback_failed_hessian");
        for (auto & h : b.h[fn]) h = Held();
        return false;
      }
      ++b.evals;
      // against an independent evaluation
      if (w == 0) check_close("value", fn, val, ref(*b.m, fn, z), 1e-7);
      else {
        check_close(w == 1 ? "Jacobian" : "Hessian", fn, dense(sp), w == 1 ? ref_jac(*b.m, fn, z) : ref_hes(*b.m, fn, z), w == 1 ? 1e-6 : 1e-5);
        if (!sp.isCompressed()) probe("uncompressed");
      }
      // against a fresh problem
      if (o.i("fresh")) {
        Sp sp2;
        VectorXd val2;
        Model src = *b.m;
        ctl = Ctl();
        auto fresh = fb::flatten_ocp(src.ocp, src.xl, src.ul);
        call(fresh, fn, w, z, val2, sp2);
        if (w == 0) check_close("repeated-value", fn, val, val2, 1e-12);
        else check_close(w == 1 ? "repeated-Jacobian" : "repeated-Hessian", fn, dense(sp), dense(sp2), 1e-11);
      }
      if (p) b.h[fn][w - 1] = Held{p, dense(*p)};
      logd(w == 0 ? val.sum() : dense(sp).sum());
      state(hcomb(hcomb(uint64_t(fn), uint64_t(w)), hcomb(uint64_t(std::min(b.evals, 12)), hcomb(uint64_t(o.d("sc", 1) * 4), uint64_t(Nx * 10 + Nu)))));
      return true;
    };
    const int fl = int(o.i("fail", -1));
    if (what <= 2) {
      for (auto & h : b.h[fn]) h = Held();  // only pairs for the same point are kept
      if (!one(what, fl) && o.i("retry")) { one(what, -1); probe("retried"); }
    } else {  // both, as diff::dr<2> hands them to the solvers: the first stays valid while the second is computed
      for (auto & h : b.h[fn]) h = Held();
      const bool ok1 = one(what == 3 ? 1 : 2, -1);
      const bool ok2 = one(what == 3 ? 2 : 1, fl);
      if (!ok2) one(what == 3 ? 2 : 1, -1);
      (void)ok1;
    }
  }
  void op_copy(const Op & o)
  {
    auto it = objs.find(int(o.i("o")));
    const int to = int(o.i("to")), how = int(o.i("how"));
    if (it == objs.end() || to == int(o.i("o"))) return;
    Obj & a = it->second;
    auto t  = objs.find(to);
    auto r  = sut([&] {
      if constexpr (std::is_copy_assignable_v<Flat>) {
        if (how == 1 && t != objs.end()) { *t->second.f = *a.f; return; }
        if (how == 3 && t != objs.end()) { *t->second.f = std::move(*a.f); return; }
      }
      auto n = how >= 2 ? std::make_unique<Flat>(std::move(*a.f)) : std::make_unique<Flat>(*a.f);
      if (t == objs.end()) { objs[to].f = std::move(n); t = objs.find(to); }
      else t->second.f = std::move(n);
    });
    if (!r.ok) fail("flat-throw", "copying a flattened problem threw: %s", r.ex.c_str());
    Obj & b = objs[to];
    b.m = objs[int(o.i("o"))].m;
    b.evals = objs[int(o.i("o"))].evals;
    forget(b);
    if (how >= 2) { objs.erase(int(o.i("o"))); probe("moved"); }
    else probe("copied");
  }
  void op_unflat(const Op & o)
  {
    Rng g(uint64_t(o.i("vs")) * 3 + 1);
    struct Sol
    {
      fb::OCPSolution<E, V, Nq, Ncr, Nce> s;
    };
    using Fs = fb::OCPSolution<E, V, Nq, Ncr, Nce>;
    auto fs = std::make_unique<Fs>();
    const E a0 = E::Constant(g.u(-0.3, 0.3)), a1 = E::Constant(g.u(-0.3, 0.3));
    const V b0 = V::Constant(g.u(-0.3, 0.3)), b1 = V::Constant(g.u(-0.3, 0.3));
    fs->t0 = g.u(0, 1); fs->tf = fs->t0 + g.u(0.1, 5);
    for (int i = 0; i < Nq; ++i) { fs->Q(i) = g.n(); fs->lambda_q(i) = g.n(); }
    for (int i = 0; i < Nce; ++i) fs->lambda_ce(i) = g.n();
    auto own = std::make_shared<std::vector<double>>(4, 1.0);
    Ctl * c = &ctl;
    fs->x = [a0, a1, own, c](double t) -> E { c->tick(); return a0 + std::sin(t) * a1; };
    fs->u = [b0, b1, own, c](double t) -> V { c->tick(); return b0 + std::cos(t) * b1; };
    const double l0 = g.n(), l1 = g.n();
    fs->lambda_dyn = [l0](double t) -> E { return E::Constant(l0 + t); };
    fs->lambda_cr  = [l1](double t) -> Eigen::Matrix<double, Ncr, 1> { return Eigen::Matrix<double, Ncr, 1>::Constant(l1 - t); };
    const Fs want = *fs;
    auto xl = std::make_unique<Traj<X>>(uint64_t(o.i("ms")), &ctl);
    auto ul = std::make_unique<Traj<U>>(uint64_t(o.i("ms")) + 77, &ctl);
    const Traj<X> xlc = *xl;
    const Traj<U> ulc = *ul;
    using Out = fb::OCPSolution<X, U, Nq, Ncr, Nce>;
    std::unique_ptr<Out> out;
    ctl = Ctl();
    bool right = true;
    auto r = sut([&] {
      if (o.i("how") == 0) {
        auto s = fb::unflatten_ocpsol<X, U>(*fs, *xl, *ul);
        if constexpr (std::is_same_v<decltype(s), Out>) out = std::make_unique<Out>(std::move(s)); else right = false;
      } else {
        auto s = fb::unflatten_ocpsol<X, U>(*fs, Traj<X>(*xl), Traj<U>(*ul));
        if constexpr (std::is_same_v<decltype(s), Out>) out = std::make_unique<Out>(std::move(s)); else right = false;
      }
    });
    if (!r.ok) fail("unflat-throw", "unflatten_ocpsol threw: %s", r.ex.c_str());
    if (!right) fail("unflat-type", "unflatten_ocpsol returns another type than the solution type of the problem");
    if (o.i("drop")) { fs.reset(); xl.reset(); ul.reset(); fault("source_destroyed"); }
    auto chk = [&](const Out & s) {
      if (s.t0 != want.t0 || s.tf != want.tf || s.Q != want.Q || s.lambda_q != want.lambda_q || s.lambda_ce != want.lambda_ce) fail("unflat-fields", "a field of the solution was not carried over");
      for (int k = 0; k < 3; ++k) {
        const double t = g.u(want.t0, want.tf);
        ctl = Ctl();
        if (o.i("fail", -1) >= 0) {
          ctl.fail = int(o.i("fail")) % 2;
          auto q = sut([&] { (void)s.x(t); });
          if (q.ok) fail("unflat-swallow", "a failing trajectory was not reported");
          fault("callback_failed_solution");
          ctl = Ctl();
        }
        const E ex = want.x(t);
        const V ev = want.u(t);
        const X x = smooth::rplus(xlc.at(t), ex);
        const U u = smooth::rplus(ulc.at(t), ev);
        const double dx = smooth::rminus(s.x(t), x).norm(), du = smooth::rminus(s.u(t), u).norm();
        if (!(dx <= 1e-9 && du <= 1e-9)) fail("unflat-value", "the unflattened trajectory is off by %g (state), %g (input) at t = %g", dx, du, t);
        if (s.lambda_dyn(t) != want.lambda_dyn(t) || s.lambda_cr(t) != want.lambda_cr(t)) fail("unflat-fields", "a multiplier trajectory was not carried over");
      }
    };
    chk(*out);
    Out cp = *out;
    out.reset();
    chk(cp);
    state(hcomb(0x77, hcomb(uint64_t(o.i("how")), uint64_t(o.i("drop")))));
    logd(want.tf);
    probe("unflattened");
  }

  // ------------------------------------------------ the derivative checker
  template<int OTh, int OF, int OG, int OCr, int OCe>
  void tder(const Op & o)
  {
    using P = fb::OCP<X, U, Outer<1, OTh, true, X, Q>, Inner<Nx, OF, X, U>, Inner<Nq, OG, X, U>, Inner<Ncr, OCr, X, U>, Outer<Nce, OCe, false, X, Q>>;
    const uint64_t fs = uint64_t(o.i("fs"));
    const double dens = o.d("dens", 0.6);
    P p{.theta = {fs * 7 + 1, dens}, .f = {fs * 7 + 2, dens}, .g = {fs * 7 + 3, dens}, .cr = {fs * 7 + 4, dens}, .ce = {fs * 7 + 5, dens}};
    p.theta.ctl = p.f.ctl = p.g.ctl = p.cr.ctl = p.ce.ctl = &ctl;
    const int fn = int(o.i("fn")) % 5, order = int(o.i("order"));
    const int has[] = {OTh, OF, OG, OCr, OCe};
    Bad bad;
    if (order > 0 && has[fn] >= order) {
      bad = Bad{order, int(o.i("kind")), int(o.i("r")), int(o.i("c")), o.d("by", 0.5)};
      (fn == 0 ? p.theta.bad : fn == 1 ? p.f.bad : fn == 2 ? p.g.bad : fn == 3 ? p.cr.bad : p.ce.bad) = bad;
    }
    struct Dev : std::streambuf
    {
      int mode{0};
      long n{0};
      int overflow(int c) override { ++n; if (mode == 2) throw std::runtime_error("device"); return mode == 1 ? EOF : c; }
      std::streamsize xsputn(const char *, std::streamsize k) override { n += k; if (mode == 2) throw std::runtime_error("device"); return mode == 1 ? 0 : k; }
    } dev;
    dev.mode = int(o.i("dev"));
    const int trials = int(o.i("n", 1));
    bool res = false;
    ctl = Ctl();
    ctl.fail = int(o.i("fail", -1));
    auto * old = std::cout.rdbuf(&dev);
    std::cout.clear();
    std::srand(unsigned(o.i("rs")));
    auto r = sut([&] { res = fb::test_ocp_derivatives(p, uint32_t(trials), o.d("eps", 1e-4)); });
    std::cout.rdbuf(old);
    std::cout.clear();
    if (dev.mode && dev.n) fault(dev.mode == 1 ? "stdout_full" : "stdout_throws");
    if (!r.ok) {
      if (ctl.fail < 0 || ctl.calls <= ctl.fail) fail("tder-throw", "test_ocp_derivatives threw: %s", r.ex.c_str());
      fault("callback_failed_check");
      return;
    }
    if (ctl.fail >= 0 && ctl.calls > ctl.fail) fail("tder-swallow", "a failing function was not reported");
    static const char * names[] = {"theta", "f", "g", "cr", "ce"};
    static const char * kinds[] = {"an entry is off", "the size is wrong", "an entry is NaN"};
    if (bad.order && trials > 0) {
      fault(bad.what == 0 ? "wrong_entry" : bad.what == 1 ? "wrong_size" : "nan_entry");
      if (res) fail("tder-accept", "wrong derivatives of order %d of %s (%s) were accepted", bad.order, names[fn], kinds[bad.what]);
    } else if (!res)
      fail("tder-reject", "correct derivatives were rejected");
    logv(res);
    state(hcomb(hcomb(uint64_t(fn), uint64_t(bad.order)), hcomb(uint64_t(bad.what), uint64_t(trials * 8 + o.i("var")))));
  }

  void run(const Plan & plan, int tid) override
  {
    for (auto & o : plan.ops) {
      if (o.i("k") != tid) continue;
      if (o.k == "fill") { if (tid == 0) heap_fill(uint64_t(o.i("f"))); continue; }
      if (o.k == "new") op_new(o);
      else if (o.k == "eval") op_eval(o);
      else if (o.k == "copy") op_copy(o);
      else if (o.k == "drop") { objs.erase(int(o.i("o"))); probe("dropped"); }
      else if (o.k == "unflat") op_unflat(o);
      else if (o.k == "tder") {
        switch (o.i("var")) {
          case 0: tder<2, 2, 2, 2, 2>(o); break;
          case 1: tder<1, 2, 0, 1, 2>(o); break;
          default: tder<0, 1, 2, 2, 1>(o); break;
        }
      } else continue;
      logs(fmt("t%d %s", tid, o.k.c_str()));
      check_held();
    }
  }
};
}  // namespace flat
