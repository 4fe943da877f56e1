// Stand-in for the parts of pettni/smooth that smooth_feedback uses (see ../README.md).
#pragma once

#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <array>
#include <concepts>
#include <cmath>
#include <functional>
#include <limits>
#include <optional>
#include <ranges>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace smooth {

namespace traits {
template<typename M>
struct man;  // manifold
template<typename G>
struct lie;  // Lie group
}  // namespace traits

// ------------------------------------------------------------------ basic accessors
template<typename M>
concept Manifold = requires { typename traits::man<std::remove_cvref_t<M>>::Scalar; };

template<typename G>
concept LieGroup = Manifold<G> && requires { traits::lie<std::remove_cvref_t<G>>::IsCommutative; };

template<typename M>
using Scalar = typename traits::man<std::remove_cvref_t<M>>::Scalar;
template<typename M>
using PlainObject = typename traits::man<std::remove_cvref_t<M>>::PlainObject;
template<typename M>
inline constexpr Eigen::Index Dof = traits::man<std::remove_cvref_t<M>>::Dof;
template<typename S, typename M>
using CastT = typename traits::man<M>::template CastT<S>;
template<typename M>
using Tangent = Eigen::Matrix<Scalar<M>, Dof<M>, 1>;
template<typename M>
using TangentMap = Eigen::Matrix<Scalar<M>, Dof<M>, Dof<M>>;
template<typename G>
inline constexpr bool IsCommutative = traits::lie<std::remove_cvref_t<G>>::IsCommutative;

template<typename M>
PlainObject<M> Default() { return traits::man<M>::Default(); }
template<typename M, typename D>
PlainObject<M> rplus(const M & m, const Eigen::MatrixBase<D> & a) { return traits::man<M>::rplus(m, a); }
template<typename M1, typename M2>
Tangent<M1> rminus(const M1 & a, const M2 & b) { return traits::man<M1>::rminus(a, b); }
template<typename S, typename M>
auto cast(const M & m) { return traits::man<M>::template cast<S>(m); }

template<LieGroup G>
PlainObject<G> Identity() { return traits::lie<G>::Identity(); }
template<LieGroup G>
PlainObject<G> Random() { return traits::lie<G>::exp(Tangent<G>::Random()); }
template<LieGroup G, typename D>
PlainObject<G> exp(const Eigen::MatrixBase<D> & a) { return traits::lie<G>::exp(a); }
template<LieGroup G>
Tangent<G> log(const G & g) { return traits::lie<G>::log(g); }
template<LieGroup G>
TangentMap<G> Ad(const G & g) { return traits::lie<G>::Ad(g); }
template<LieGroup G, typename D>
TangentMap<G> ad(const Eigen::MatrixBase<D> & a) { return traits::lie<G>::ad(a); }

template<LieGroup G, typename D>
TangentMap<G> dr_exp(const Eigen::MatrixBase<D> & a)
{
  if constexpr (IsCommutative<G>) return TangentMap<G>::Identity();
  const TangentMap<G> A = -ad<G>(a);
  TangentMap<G> r = TangentMap<G>::Identity(), p = r;
  for (int n = 1; n < 40; ++n) { p = (p * A / double(n + 1)).eval(); r += p; }
  return r;
}
template<LieGroup G, typename D>
TangentMap<G> dr_expinv(const Eigen::MatrixBase<D> & a)
{
  if constexpr (IsCommutative<G>) return TangentMap<G>::Identity();
  else return dr_exp<G>(a).inverse();
}

// ------------------------------------------------------------------ scalars
template<std::floating_point S>
struct traits::man<S>
{
  using Scalar      = S;
  using PlainObject = S;
  template<typename T>
  using CastT = T;
  static constexpr Eigen::Index Dof = 1;
  static S Default() { return S(0); }
  template<typename D>
  static S rplus(S m, const Eigen::MatrixBase<D> & a) { return m + a.x(); }
  static Eigen::Matrix<S, 1, 1> rminus(S a, S b) { return Eigen::Matrix<S, 1, 1>(a - b); }
  template<typename T>
  static T cast(S m) { return T(m); }
};
template<std::floating_point S>
struct traits::lie<S>
{
  static constexpr bool IsCommutative = true;
  static S Identity() { return S(0); }
  template<typename D>
  static S exp(const Eigen::MatrixBase<D> & a) { return a.x(); }
  static Eigen::Matrix<S, 1, 1> log(S g) { return Eigen::Matrix<S, 1, 1>(g); }
  static Eigen::Matrix<S, 1, 1> Ad(S) { return Eigen::Matrix<S, 1, 1>::Identity(); }
  template<typename D>
  static Eigen::Matrix<S, 1, 1> ad(const Eigen::MatrixBase<D> &) { return Eigen::Matrix<S, 1, 1>::Zero(); }
};

// ------------------------------------------------------------------ Rn
template<typename M>
concept RnType = std::is_base_of_v<Eigen::MatrixBase<M>, M> && (M::ColsAtCompileTime == 1);

template<RnType M>
struct traits::man<M>
{
  using Scalar      = typename M::Scalar;
  using PlainObject = typename M::PlainObject;
  static constexpr Eigen::Index Dof = M::RowsAtCompileTime;
  template<typename T>
  using CastT = Eigen::Matrix<T, M::RowsAtCompileTime, 1>;
  static PlainObject Default() { return PlainObject::Zero(); }
  template<typename A, typename D>
  static PlainObject rplus(const A & m, const Eigen::MatrixBase<D> & a) { return m + a; }
  template<typename A, typename B>
  static Eigen::Matrix<Scalar, M::RowsAtCompileTime, 1> rminus(const A & a, const B & b) { return a - b; }
  template<typename T>
  static CastT<T> cast(const M & m) { return m.template cast<T>(); }
};
template<RnType M>
struct traits::lie<M>
{
  static constexpr bool IsCommutative = true;
  static constexpr int N              = int(traits::man<M>::Dof);
  using S                             = typename M::Scalar;
  static typename M::PlainObject Identity() { return M::PlainObject::Zero(); }
  template<typename D>
  static typename M::PlainObject exp(const Eigen::MatrixBase<D> & a) { return a; }
  static Eigen::Matrix<S, N, 1> log(const M & g) { return g; }
  static Eigen::Matrix<S, N, N> Ad(const M &) { return Eigen::Matrix<S, N, N>::Identity(); }
  template<typename D>
  static Eigen::Matrix<S, N, N> ad(const Eigen::MatrixBase<D> &) { return Eigen::Matrix<S, N, N>::Zero(); }
};

// ------------------------------------------------------------------ native groups
template<typename Derived, typename S, int N>
struct GroupBase
{
  using Tng = Eigen::Matrix<S, N, 1>;
  const Derived & self() const { return static_cast<const Derived &>(*this); }
  template<typename D>
  Derived operator+(const Eigen::MatrixBase<D> & a) const { return self() * Derived::exp(a); }
  template<typename D>
  Derived & operator+=(const Eigen::MatrixBase<D> & a) { return static_cast<Derived &>(*this) = self() * Derived::exp(a); }
  Tng operator-(const Derived & o) const { return (o.inverse() * self()).log(); }
  bool isApprox(const Derived & o, double eps = 1e-12) const { return (self() - o).norm() <= eps; }
  static Derived Identity() { return Derived(); }
};

template<typename S>
struct SO3 : GroupBase<SO3<S>, S, 3>
{
  static constexpr int N = 3;
  using V = Eigen::Matrix<S, 3, 1>;
  using M = Eigen::Matrix<S, 3, 3>;
  Eigen::Quaternion<S> q = Eigen::Quaternion<S>::Identity();
  SO3() = default;
  explicit SO3(const Eigen::Quaternion<S> & q_) : q(q_) { q.normalize(); if (q.w() < 0) q.coeffs() *= -1; }
  SO3 operator*(const SO3 & o) const { return SO3(q * o.q); }
  SO3 inverse() const { return SO3(q.conjugate()); }
  M matrix() const { return q.toRotationMatrix(); }
  template<typename D>
  static SO3 exp(const Eigen::MatrixBase<D> & a_)
  {
    const V a = a_;
    const S th = a.norm();
    const S f  = th < 1e-6 ? S(0.5) - th * th / 48 : std::sin(th / 2) / th;
    return SO3(Eigen::Quaternion<S>(std::cos(th / 2), f * a.x(), f * a.y(), f * a.z()));
  }
  V log() const
  {
    const S s = q.vec().norm(), c = q.w();
    if (s < 1e-9) return 2 * q.vec() / c;
    return 2 * std::atan2(s, c) / s * q.vec();
  }
  M Ad() const { return matrix(); }
  template<typename D>
  static M ad(const Eigen::MatrixBase<D> & a)
  {
    return (M() << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0).finished();
  }
  template<typename T>
  SO3<T> cast() const { return SO3<T>(q.template cast<T>()); }
};

template<typename S>
struct SE2 : GroupBase<SE2<S>, S, 3>
{
  static constexpr int N = 3;
  using V = Eigen::Matrix<S, 3, 1>;
  using M = Eigen::Matrix<S, 3, 3>;
  Eigen::Matrix<S, 2, 1> p = Eigen::Matrix<S, 2, 1>::Zero();
  S c = 1, s = 0;
  SE2() = default;
  SE2(S x, S y, S th) : p(x, y), c(std::cos(th)), s(std::sin(th)) {}
  SE2(const Eigen::Matrix<S, 2, 1> & p_, S c_, S s_) : p(p_), c(c_), s(s_)
  {
    const S n = std::hypot(c, s);
    c /= n;
    s /= n;
  }
  S angle() const { return std::atan2(s, c); }
  Eigen::Matrix<S, 2, 1> rot(const Eigen::Matrix<S, 2, 1> & v) const { return {c * v.x() - s * v.y(), s * v.x() + c * v.y()}; }
  Eigen::Matrix<S, 2, 1> unrot(const Eigen::Matrix<S, 2, 1> & v) const { return {c * v.x() + s * v.y(), -s * v.x() + c * v.y()}; }
  SE2 operator*(const SE2 & o) const { return SE2(p + rot(o.p), c * o.c - s * o.s, s * o.c + c * o.s); }
  SE2 inverse() const { return SE2(Eigen::Matrix<S, 2, 1>(-unrot(p)), c, -s); }
  template<typename D>
  static SE2 exp(const Eigen::MatrixBase<D> & a_)
  {
    const V a  = a_;
    const S th = a(2);
    S A, B;  // sin(th) / th, (1 - cos(th)) / th
    if (std::fabs(th) < 1e-4) { A = 1 - th * th / 6; B = th / 2 - th * th * th / 24; }
    else { A = std::sin(th) / th; B = (1 - std::cos(th)) / th; }
    return SE2(Eigen::Matrix<S, 2, 1>(A * a(0) - B * a(1), B * a(0) + A * a(1)), std::cos(th), std::sin(th));
  }
  V log() const
  {
    const S th = angle();
    S A, B;
    if (std::fabs(th) < 1e-4) { A = 1 - th * th / 6; B = th / 2 - th * th * th / 24; }
    else { A = std::sin(th) / th; B = (1 - std::cos(th)) / th; }
    const S d = A * A + B * B;
    return V((A * p.x() + B * p.y()) / d, (-B * p.x() + A * p.y()) / d, th);
  }
  M Ad() const { return (M() << c, -s, p.y(), s, c, -p.x(), 0, 0, 1).finished(); }
  template<typename D>
  static M ad(const Eigen::MatrixBase<D> & a)
  {
    return (M() << 0, -a(2), a(1), a(2), 0, -a(0), 0, 0, 0).finished();
  }
  template<typename T>
  SE2<T> cast() const { return SE2<T>(p.template cast<T>(), T(c), T(s)); }
};

using SO3d = SO3<double>;
using SE2d = SE2<double>;

#define SMOOTH_STUB_GROUP(G_)                                                                       \
  template<typename S>                                                                              \
  struct traits::man<G_<S>>                                                                         \
  {                                                                                                 \
    using Scalar      = S;                                                                          \
    using PlainObject = G_<S>;                                                                      \
    template<typename T>                                                                            \
    using CastT = G_<T>;                                                                            \
    static constexpr Eigen::Index Dof = G_<S>::N;                                                   \
    static G_<S> Default() { return G_<S>(); }                                                      \
    template<typename D>                                                                            \
    static G_<S> rplus(const G_<S> & m, const Eigen::MatrixBase<D> & a) { return m + a; }           \
    static Eigen::Matrix<S, G_<S>::N, 1> rminus(const G_<S> & a, const G_<S> & b) { return a - b; } \
    template<typename T>                                                                            \
    static G_<T> cast(const G_<S> & m) { return m.template cast<T>(); }                             \
  };                                                                                                \
  template<typename S>                                                                              \
  struct traits::lie<G_<S>>                                                                         \
  {                                                                                                 \
    static constexpr bool IsCommutative = false;                                                    \
    static G_<S> Identity() { return G_<S>(); }                                                     \
    template<typename D>                                                                            \
    static G_<S> exp(const Eigen::MatrixBase<D> & a) { return G_<S>::exp(a); }                      \
    static typename G_<S>::V log(const G_<S> & g) { return g.log(); }                               \
    static typename G_<S>::M Ad(const G_<S> & g) { return g.Ad(); }                                 \
    template<typename D>                                                                            \
    static typename G_<S>::M ad(const Eigen::MatrixBase<D> & a) { return G_<S>::ad(a); }            \
  };
SMOOTH_STUB_GROUP(SO3)
SMOOTH_STUB_GROUP(SE2)
#undef SMOOTH_STUB_GROUP

}  // namespace smooth
