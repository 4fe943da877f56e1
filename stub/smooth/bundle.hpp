// Stand-in for smooth/bundle.hpp: the product group, as far as its tangent space goes.
#pragma once
#include <smooth/core.hpp>
#include <smooth/lie_sparse.hpp>
namespace smooth {
template<typename... Gs>
struct Bundle
{
  std::tuple<Gs...> parts;
};
template<typename... Gs>
struct traits::man<Bundle<Gs...>>
{
  using Scalar      = double;
  using PlainObject = Bundle<Gs...>;
  static constexpr Eigen::Index Dof = (::smooth::Dof<Gs> + ... + 0);
};
template<typename... Gs>
struct traits::lie<Bundle<Gs...>>
{
  static constexpr bool IsCommutative = (::smooth::IsCommutative<Gs> && ...);
  static constexpr int N              = int(traits::man<Bundle<Gs...>>::Dof);
  template<typename D>
  static Eigen::Matrix<double, N, N> ad(const Eigen::MatrixBase<D> & a)
  {
    Eigen::Matrix<double, N, N> r = Eigen::Matrix<double, N, N>::Zero();
    int o = 0;
    auto put = [&]<typename G>(const G *) {
      constexpr int n = int(::smooth::Dof<G>);
      const Eigen::Matrix<double, n, 1> s = a.template segment<n>(o);
      r.template block<n, n>(o, o) = ::smooth::ad<G>(s);
      o += n;
    };
    (put(static_cast<const Gs *>(nullptr)), ...);
    return r;
  }
};
namespace detail {
template<typename... Gs>
struct exp_maps<Bundle<Gs...>>
{
  static constexpr int N = int(Dof<Bundle<Gs...>>);
  template<typename D>
  static Eigen::Matrix<double, N, N> dr(const Eigen::MatrixBase<D> & a)
  {
    Eigen::Matrix<double, N, N> r = Eigen::Matrix<double, N, N>::Zero();
    int o = 0;
    auto put = [&]<typename G>(const G *) {
      constexpr int n = int(Dof<G>);
      const Eigen::Matrix<double, n, 1> s = a.template segment<n>(o);
      r.template block<n, n>(o, o) = dr_exp<G>(s);
      o += n;
    };
    (put(static_cast<const Gs *>(nullptr)), ...);
    return r;
  }
  template<typename D>
  static Eigen::Matrix<double, N, N * N> d2r(const Eigen::MatrixBase<D> & a)
  {
    Eigen::Matrix<double, N, N * N> r = Eigen::Matrix<double, N, N * N>::Zero();
    int o = 0;
    auto put = [&]<typename G>(const G *) {
      constexpr int n = int(Dof<G>);
      const Eigen::Matrix<double, n, 1> s = a.template segment<n>(o);
      const auto h = d2r_exp<G>(s);
      for (int k = 0; k < n; ++k) r.template block<n, n>(o, (o + k) * N + o) = h.template middleCols<n>(k * n);
      o += n;
    };
    (put(static_cast<const Gs *>(nullptr)), ...);
    return r;
  }
};
template<typename... Gs>
struct lie_parts<Bundle<Gs...>>
{
  static int part(int i)
  {
    const int d[] = {int(Dof<Gs>)...};
    int p = 0;
    while (i >= d[p]) i -= d[p++];
    return p;
  }
  static bool commutative(int i)
  {
    const bool c[] = {IsCommutative<Gs>...};
    return c[part(i)];
  }
};
}  // namespace detail
}  // namespace smooth
