#include "mpc_run.hpp"
std::unique_ptr<MpcRunner> make_mpc_c() { return std::make_unique<mpcsim::Run<std::chrono::time_point<std::chrono::steady_clock, std::chrono::microseconds>, Eigen::Vector3d, Eigen::Vector2d, 3, 2, true, false, false, smooth::diff::Type::Numerical>>(); }
