#pragma once
#include <Eigen/Sparse>
#include <array>
#include <smooth/core.hpp>
namespace smooth {

// d2r_exp(a): entry (i, k * Dof + j) is the derivative of dr_exp(a)(k, i) w.r.t. a_j
template<LieGroup G, typename D>
Eigen::Matrix<double, int(Dof<G>), int(Dof<G> * Dof<G>)> d2r_exp(const Eigen::MatrixBase<D> & a)
{
  constexpr int N = int(Dof<G>);
  if constexpr (IsCommutative<G>) return Eigen::Matrix<double, N, N * N>::Zero();
  const TangentMap<G> A = -ad<G>(a);
  Eigen::Matrix<double, N, N * N> H;
  for (int j = 0; j < N; ++j) {
    const TangentMap<G> dA = -ad<G>(Tangent<G>::Unit(j));
    TangentMap<G> p = TangentMap<G>::Identity(), dp = TangentMap<G>::Zero(), r = dp;
    for (int n = 1; n < 40; ++n) {
      dp = ((dp * A + p * dA) / double(n + 1)).eval();
      p  = (p * A / double(n + 1)).eval();
      r += dp;
    }
    for (int k = 0; k < N; ++k)
      for (int i = 0; i < N; ++i) H(i, k * N + j) = r(k, i);
  }
  return H;
}
template<LieGroup G, typename D>
Eigen::Matrix<double, int(Dof<G>), int(Dof<G> * Dof<G>)> d2r_expinv(const Eigen::MatrixBase<D> & a)
{
  constexpr int N         = int(Dof<G>);
  const TangentMap<G> inv = dr_expinv<G>(a);
  const auto He           = d2r_exp<G>(a);
  Eigen::Matrix<double, N, N * N> H;
  for (int j = 0; j < N; ++j) {
    TangentMap<G> d;
    for (int k = 0; k < N; ++k)
      for (int i = 0; i < N; ++i) d(k, i) = He(i, k * N + j);
    const TangentMap<G> r = -inv * d * inv;
    for (int k = 0; k < N; ++k)
      for (int i = 0; i < N; ++i) H(i, k * N + j) = r(k, i);
  }
  return H;
}

namespace detail {
template<typename G>
struct exp_maps
{
  template<typename D>
  static auto dr(const Eigen::MatrixBase<D> & a) { return dr_exp<G>(a); }
  template<typename D>
  static auto d2r(const Eigen::MatrixBase<D> & a) { return d2r_exp<G>(a); }
};
// group g of every degree of freedom (products have several)
template<typename G>
struct lie_parts
{
  static int part(int) { return 0; }
  static bool commutative(int) { return IsCommutative<G>; }
};
template<typename G>
Eigen::SparseMatrix<double> make_d_exp_pattern(bool diagonal = true)
{
  Eigen::SparseMatrix<double> r(Dof<G>, Dof<G>);
  for (int j = 0; j < Dof<G>; ++j)
    for (int i = 0; i < Dof<G>; ++i)
      if ((diagonal && i == j) || (lie_parts<G>::part(i) == lie_parts<G>::part(j) && !lie_parts<G>::commutative(i))) r.insert(i, j) = 0;
  r.makeCompressed();
  return r;
}
template<typename G>
Eigen::SparseMatrix<double> make_d2_exp_pattern()
{
  constexpr int N = int(Dof<G>);
  Eigen::SparseMatrix<double> r(N, N * N);
  for (int k = 0; k < N; ++k)
    for (int j = 0; j < N; ++j)
      for (int i = 0; i < N; ++i)
        if (!lie_parts<G>::commutative(k) && lie_parts<G>::part(k) == lie_parts<G>::part(j) && lie_parts<G>::part(i) == lie_parts<G>::part(j)) r.insert(i, k * N + j) = 0;
  r.makeCompressed();
  return r;
}
// write the entries of the pattern, leave the others alone
template<typename M>
void write_pattern(Eigen::SparseMatrix<double> & sp, const Eigen::SparseMatrix<double> & pattern, const M & m)
{
  for (int c = 0; c < pattern.outerSize(); ++c)
    for (Eigen::SparseMatrix<double>::InnerIterator it(pattern, c); it; ++it) sp.coeffRef(it.row(), it.col()) = m(it.row(), it.col());
}
template<typename G>
struct Generators
{
  using Arr = std::array<Eigen::SparseMatrix<double, Eigen::RowMajor>, std::size_t(Dof<G>)>;
  const Eigen::SparseMatrix<double, Eigen::RowMajor> & operator[](std::size_t i) const
  {
    static const Arr arr = [] {
      Arr r;
      for (int k = 0; k < Dof<G>; ++k) {
        r[std::size_t(k)] = ad<G>(Tangent<G>::Unit(k)).sparseView();
        r[std::size_t(k)].makeCompressed();
      }
      return r;
    }();
    return arr[i];
  }
};
}  // namespace detail

template<typename G>
inline const Eigen::SparseMatrix<double> d_exp_sparse_pattern = detail::make_d_exp_pattern<G>();
template<typename G>
inline const Eigen::SparseMatrix<double> ad_sparse_pattern = detail::make_d_exp_pattern<G>(false);
template<typename G>
inline const Eigen::SparseMatrix<double> d2_exp_sparse_pattern = detail::make_d2_exp_pattern<G>();
template<typename G>
inline constexpr detail::Generators<G> generators_sparse{};

template<typename G, typename D>
void ad_sparse(Eigen::SparseMatrix<double> & sp, const Eigen::MatrixBase<D> & a) { detail::write_pattern(sp, ad_sparse_pattern<G>, ad<G>(a)); }
template<typename G, typename D>
void dr_exp_sparse(Eigen::SparseMatrix<double> & sp, const Eigen::MatrixBase<D> & a) { detail::write_pattern(sp, d_exp_sparse_pattern<G>, detail::exp_maps<G>::dr(a)); }
template<typename G, typename D>
void dr_expinv_sparse(Eigen::SparseMatrix<double> & sp, const Eigen::MatrixBase<D> & a) { detail::write_pattern(sp, d_exp_sparse_pattern<G>, dr_expinv<G>(a)); }
template<typename G, typename D>
void d2r_exp_sparse(Eigen::SparseMatrix<double> & sp, const Eigen::MatrixBase<D> & a) { detail::write_pattern(sp, d2_exp_sparse_pattern<G>, detail::exp_maps<G>::d2r(a)); }
template<typename G, typename D>
void d2r_expinv_sparse(Eigen::SparseMatrix<double> & sp, const Eigen::MatrixBase<D> & a) { detail::write_pattern(sp, d2_exp_sparse_pattern<G>, d2r_expinv<G>(a)); }
}  // namespace smooth
