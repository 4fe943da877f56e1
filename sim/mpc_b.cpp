#include "mpc_run.hpp"
std::unique_ptr<MpcRunner> make_mpc_b() { return std::make_unique<mpcsim::Run<std::chrono::nanoseconds, smooth::SE2d, Eigen::Vector2d, 3, 4, true, true, false, smooth::diff::Type::Default>>(); }
