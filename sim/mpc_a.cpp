#include "mpc_run.hpp"
std::unique_ptr<MpcRunner> make_mpc_a() { return std::make_unique<mpcsim::Run<double, Eigen::Vector2d, Eigen::Matrix<double, 1, 1>, 2, 3, false, false, true, smooth::diff::Type::Default>>(); }
