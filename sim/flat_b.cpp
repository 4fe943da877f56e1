#include "flat_run.hpp"
std::unique_ptr<FlatRunner> make_flat_b() { return std::make_unique<flat::Runner<smooth::SO3d, Eigen::Matrix<double, 1, 1>>>(); }
