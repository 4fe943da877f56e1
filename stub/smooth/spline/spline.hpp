#pragma once
#include <smooth/core.hpp>
namespace smooth {
/// @brief Curve of constant velocity segments (degree 1 stands in for all degrees)
template<int K, LieGroup G>
class Spline
{
  std::vector<double> t_{0};
  std::vector<G> g_{Identity<G>()};
  std::vector<Tangent<G>> v_;

public:
  Spline() = default;
  void add(double dt, const Tangent<G> & v)
  {
    t_.push_back(t_.back() + dt);
    g_.push_back(rplus(g_.back(), dt * v));
    v_.push_back(v);
  }
  G operator()(double t, Tangent<G> & vel, Tangent<G> & acc) const
  {
    acc.setZero();
    vel.setZero();
    if (v_.empty() || t <= 0) return g_.front();
    if (t >= t_.back()) return g_.back();
    std::size_t i = 0;
    while (t >= t_[i + 1]) ++i;
    vel = v_[i];
    return rplus(g_[i], (t - t_[i]) * v_[i]);
  }
};
}  // namespace smooth
