#pragma once
#include <array>
#include <cstddef>
#include <utility>
namespace smooth {

template<typename T, std::size_t R, std::size_t C>
struct StaticMatrix : std::array<std::array<T, C>, R>
{
  template<std::size_t r, std::size_t c>
  constexpr StaticMatrix<T, r, c> block(std::size_t i0, std::size_t j0) const
  {
    StaticMatrix<T, r, c> o{};
    for (std::size_t i = 0; i < r; ++i)
      for (std::size_t j = 0; j < c; ++j) o[i][j] = (*this)[i0 + i][j0 + j];
    return o;
  }
  template<std::size_t D>
  constexpr StaticMatrix<T, R, D> operator*(const StaticMatrix<T, C, D> & b) const
  {
    StaticMatrix<T, R, D> o{};
    for (std::size_t i = 0; i < R; ++i)
      for (std::size_t j = 0; j < D; ++j) {
        o[i][j] = 0;
        for (std::size_t k = 0; k < C; ++k) o[i][j] += (*this)[i][k] * b[k][j];
      }
    return o;
  }
};

namespace detail {
constexpr std::pair<double, double> legendre(std::size_t n, double x)  // P_n, P_n'
{
  if (n == 0) return {1, 0};
  double p0 = 1, p1 = x, d0 = 0, d1 = 1;
  for (std::size_t k = 1; k < n; ++k) {
    const double p2 = ((2 * k + 1) * x * p1 - k * p0) / (k + 1);
    const double d2 = d0 + (2 * k + 1) * p1;
    p0 = p1; p1 = p2; d0 = d1; d1 = d2;
  }
  return {p1, d1};
}
}  // namespace detail

/// @brief Legendre-Gauss-Radau nodes and weights on [-1, 1): roots of P_{K-1} + P_K
template<std::size_t K, std::size_t I = 8>
constexpr std::pair<std::array<double, K>, std::array<double, K>> lgr_nodes()
{
  std::array<double, K> x{}, w{};
  const auto f = [](double t) { return detail::legendre(K - 1, t).first + detail::legendre(K, t).first; };
  x[0] = -1;
  std::size_t found = 1;
  // bracket the remaining roots on a fine grid, then bisect and polish
  const int n = 1200;
  double a = -1 + 1e-7, fa = f(a);
  for (int i = 1; i <= n && found < K; ++i) {
    const double b = -1 + 2.0 * i / n, fb = f(b);
    if ((fa < 0) != (fb < 0)) {
      double l = a, h = b, fl = fa;
      for (int j = 0; j < 30; ++j) {
        const double m = (l + h) / 2, fm = f(m);
        if ((fm < 0) == (fl < 0)) { l = m; fl = fm; } else h = m;
      }
      double r = (l + h) / 2;
      for (int j = 0; j < 3; ++j) r -= f(r) / (detail::legendre(K - 1, r).second + detail::legendre(K, r).second);
      x[found++] = r;
    }
    a = b; fa = fb;
  }
  for (std::size_t i = 0; i < K; ++i) {
    const double p = detail::legendre(K - 1, x[i]).first;
    w[i] = (1 - x[i]) / (double(K * K) * p * p);
  }
  return {x, w};
}

/// @brief Column j holds the monomial coefficients of the j:th Lagrange polynomial
template<std::size_t K>
constexpr StaticMatrix<double, K + 1, K + 1> lagrange_basis(const std::array<double, K + 1> & t)
{
  StaticMatrix<double, K + 1, K + 1> B{};
  for (std::size_t j = 0; j <= K; ++j) {
    std::array<double, K + 1> c{};
    c[0] = 1;
    std::size_t deg = 0;
    for (std::size_t i = 0; i <= K; ++i) {
      if (i == j) continue;
      const double s = 1 / (t[j] - t[i]);
      ++deg;
      for (std::size_t k = deg + 1; k-- > 0;) c[k] = ((k > 0 ? c[k - 1] : 0) - t[i] * c[k]) * s;
    }
    for (std::size_t k = 0; k <= K; ++k) B[k][j] = c[k];
  }
  return B;
}

template<std::size_t K>
constexpr StaticMatrix<double, 1, K + 1> monomial_derivative(double u, std::size_t p = 0)
{
  StaticMatrix<double, 1, K + 1> r{};
  for (std::size_t k = 0; k <= K; ++k) {
    if (k < p) { r[0][k] = 0; continue; }
    double c = 1;
    for (std::size_t i = 0; i < p; ++i) c *= double(k - i);
    for (std::size_t i = 0; i < k - p; ++i) c *= u;
    r[0][k] = c;
  }
  return r;
}

/// @brief Element (i, j) is the derivative of polynomial i at t[j]
template<std::size_t K, std::size_t N>
constexpr StaticMatrix<double, K + 1, N> polynomial_basis_derivatives(const StaticMatrix<double, K + 1, K + 1> & B, const std::array<double, N> & t)
{
  StaticMatrix<double, K + 1, N> r{};
  for (std::size_t j = 0; j < N; ++j) {
    const auto U = monomial_derivative<K>(t[j], 1);
    for (std::size_t i = 0; i <= K; ++i) {
      r[i][j] = 0;
      for (std::size_t k = 0; k <= K; ++k) r[i][j] += U[0][k] * B[k][i];
    }
  }
  return r;
}
}  // namespace smooth
