// Small dense convex quadratic programs, min 1/2 u'Hu + g'u  s.t.  l <= C u + d <= h, by an interior point method.
// Written independently of the code under test; used as a reference only.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <limits>

namespace refqp {

struct Result
{
  bool ok{false};          // converged to high accuracy
  bool fixed_bad{false};   // a row that no u influences violates its bounds by more than the margin
  bool fixed_edge{false};  // such a row is within the margin of its bounds
  Eigen::VectorXd u;
  double obj{0};
};

inline Result solve(const Eigen::MatrixXd & H, const Eigen::VectorXd & g, const Eigen::MatrixXd & C, const Eigen::VectorXd & l, const Eigen::VectorXd & h, double margin)
{
  Result r;
  const int n = int(H.rows());
  // one sided rows a'u <= b
  std::vector<std::pair<int, double>> rows;
  for (int i = 0; i < C.rows(); ++i) {
    const double nr = C.row(i).norm();
    if (nr < 1e-9) {
      const double v = std::max(l(i), -h(i));  // 0 must lie in [l, h]
      if (v > margin) r.fixed_bad = true;
      else if (v > -margin) r.fixed_edge = true;
      continue;
    }
    if (std::isfinite(h(i))) rows.emplace_back(i, 1);
    if (std::isfinite(l(i))) rows.emplace_back(i, -1);
  }
  const int m = int(rows.size());
  Eigen::MatrixXd A(m, n);
  Eigen::VectorXd b(m);
  for (int k = 0; k < m; ++k) {
    const auto [i, s] = rows[size_t(k)];
    const double nr = C.row(i).norm();
    A.row(k) = s * C.row(i) / nr;
    b(k)     = (s > 0 ? h(i) : -l(i)) / nr;
  }
  Eigen::VectorXd u = H.ldlt().solve(-g);
  if (m == 0) { r.ok = !r.fixed_bad; r.u = u; r.obj = 0.5 * u.dot(H * u) + g.dot(u); return r; }
  const double sc = 1 + g.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff();
  Eigen::VectorXd s = (b - A * u).cwiseMax(0.1), y = Eigen::VectorXd::Constant(m, 1.);
  for (int it = 0; it < 80; ++it) {
    const Eigen::VectorXd rd = H * u + g + A.transpose() * y, rp = A * u + s - b;
    const double mu = s.dot(y) / m;
    if (rd.cwiseAbs().maxCoeff() < 1e-9 * sc && rp.cwiseAbs().maxCoeff() < 1e-10 * sc && mu < 1e-11 * sc) { r.ok = !r.fixed_bad; break; }
    const Eigen::MatrixXd K = H + A.transpose() * y.cwiseQuotient(s).asDiagonal() * A;
    const Eigen::LDLT<Eigen::MatrixXd> f(K);
    auto dir = [&](const Eigen::VectorXd & rc, Eigen::VectorXd & du, Eigen::VectorXd & ds, Eigen::VectorXd & dy) {
      // rc = s.*y + corrections - target:  y ds + s dy = -rc
      du = f.solve(-rd - A.transpose() * (y.cwiseProduct(rp) - rc).cwiseQuotient(s));
      ds = -rp - A * du;
      dy = (-rc - y.cwiseProduct(ds)).cwiseQuotient(s);
    };
    auto step = [&](const Eigen::VectorXd & v, const Eigen::VectorXd & d) {
      double a = 1;
      for (int k = 0; k < m; ++k) if (d(k) < 0) a = std::min(a, -v(k) / d(k));
      return a;
    };
    Eigen::VectorXd du, ds, dy;
    dir(s.cwiseProduct(y), du, ds, dy);
    const double ap = step(s, ds), ad = step(y, dy);
    const double mua = (s + ap * ds).dot(y + ad * dy) / m, sig = std::pow(mua / mu, 3);
    dir(Eigen::VectorXd(s.cwiseProduct(y) + ds.cwiseProduct(dy) - Eigen::VectorXd::Constant(m, sig * mu)), du, ds, dy);
    const double a1 = std::min(1., 0.99 * step(s, ds)), a2 = std::min(1., 0.99 * step(y, dy)), a = std::min(a1, a2);
    u += a * du;
    s += a * ds;
    y += a * dy;
    if (!u.allFinite() || y.maxCoeff() > 1e14) break;
  }
  r.u   = u;
  r.obj = 0.5 * u.dot(H * u) + g.dot(u);
  return r;
}

}  // namespace refqp
