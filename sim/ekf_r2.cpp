#include "ekf_run.hpp"
std::unique_ptr<EkfIface> make_ekf_r2(bool rk4)
{
  if (rk4) return std::make_unique<EkfRun<Eigen::Vector2d, boost::numeric::odeint::runge_kutta4, true>>();
  return std::make_unique<EkfRun<Eigen::Vector2d, boost::numeric::odeint::euler, false>>();
}
