// Stand-in for smooth/diff.hpp: numerical (central differences) and analytic differentiation.
#pragma once
#include <smooth/core.hpp>

namespace smooth {

template<typename... A>
auto wrt(A &&... a) { return std::tuple<PlainObject<std::remove_cvref_t<A>>...>(std::forward<A>(a)...); }

namespace diff {

enum class Type { Numerical, Autodiff, Ceres, Analytic, Default };

namespace detail {
template<typename F, typename T>
struct diffable : std::false_type
{
  static constexpr bool o1 = false, o2 = false;
};
template<typename F, typename... A>
struct diffable<F, std::tuple<A...>>
{
  static constexpr bool o1 = requires(std::remove_reference_t<F> & f, A... a) { f.jacobian(a...); };
  static constexpr bool o2 = requires(std::remove_reference_t<F> & f, A... a) { f.hessian(a...); };
};
template<typename F, typename T>
concept diffable_order1 = diffable<F, T>::o1;
template<typename F, typename T>
concept diffable_order2 = diffable<F, T>::o2;

template<typename... A>
constexpr int total_dof(const std::tuple<A...> *) { return int((Dof<A> + ... + 0)); }

// f(x + a e_k)
template<std::size_t I = 0, typename F, typename X, typename D>
void perturb(X & x, const Eigen::MatrixBase<D> & a, int off)
{
  if constexpr (I < std::tuple_size_v<X>) {
    using E = std::tuple_element_t<I, X>;
    std::get<I>(x) = rplus(std::get<I>(x), Eigen::Matrix<double, int(Dof<E>), 1>(a.template segment<int(Dof<E>)>(off)));
    perturb<I + 1, F>(x, a, off + int(Dof<E>));
  }
}
template<typename F, typename X>
auto numerical1(F && f, const X & x)
{
  constexpr int n = total_dof(static_cast<const X *>(nullptr));
  using R         = PlainObject<std::remove_cvref_t<decltype(std::apply(f, x))>>;
  constexpr int m = int(Dof<R>);
  const R r       = std::apply(f, x);
  Eigen::Matrix<double, m, n> J;
  const double h = 6e-6;
  for (int k = 0; k < n; ++k) {
    Eigen::Matrix<double, n, 1> e = Eigen::Matrix<double, n, 1>::Zero();
    X xp = x, xm = x;
    e(k) = h;
    perturb<0, F>(xp, e, 0);
    e(k) = -h;
    perturb<0, F>(xm, e, 0);
    const R rp = std::apply(f, xp), rm = std::apply(f, xm);
    J.col(k) = (rminus(rp, r) - rminus(rm, r)) / (2 * h);
  }
  return std::make_pair(r, J);
}
}  // namespace detail

template<std::size_t K, Type T = Type::Default, typename F, typename X>
auto dr(F && f, X && x_)
{
  const std::remove_cvref_t<X> x = x_;
  if constexpr (K == 0) {
    return std::make_tuple(std::apply(f, x));
  } else if constexpr (
    T == Type::Analytic || (T == Type::Default && K == 1 && detail::diffable_order1<F, std::remove_cvref_t<X>>)
    || (T == Type::Default && K == 2 && detail::diffable_order2<F, std::remove_cvref_t<X>>)) {
    auto jac = [&](const auto &... a) -> decltype(auto) { return f.jacobian(a...); };
    if constexpr (K == 1) {
      return std::make_tuple(std::apply(f, x), std::apply(jac, x));
    } else {
      auto hes = [&](const auto &... a) -> decltype(auto) { return f.hessian(a...); };
      return std::make_tuple(std::apply(f, x), std::apply(jac, x), std::apply(hes, x));
    }
  } else {
    auto [r, J] = detail::numerical1(f, x);
    if constexpr (K == 1) {
      return std::make_tuple(std::move(r), std::move(J));
    } else {
      constexpr int n = int(decltype(J)::ColsAtCompileTime), m = int(decltype(J)::RowsAtCompileTime);
      Eigen::Matrix<double, n, m * n> H;
      const double h = 1e-4;
      for (int k = 0; k < n; ++k) {
        Eigen::Matrix<double, n, 1> e = Eigen::Matrix<double, n, 1>::Zero();
        auto xp = x, xm = x;
        e(k) = h;
        detail::perturb<0, F>(xp, e, 0);
        e(k) = -h;
        detail::perturb<0, F>(xm, e, 0);
        const auto Jp = detail::numerical1(f, xp).second, Jm = detail::numerical1(f, xm).second;
        for (int j = 0; j < m; ++j) H.template block<n, 1>(0, j * n + k) = ((Jp.row(j) - Jm.row(j)) / (2 * h)).transpose();
      }
      return std::make_tuple(std::move(r), std::move(J), std::move(H));
    }
  }
}

}  // namespace diff
}  // namespace smooth
