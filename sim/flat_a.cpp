#include "flat_run.hpp"
std::unique_ptr<FlatRunner> make_flat_a() { return std::make_unique<flat::Runner<smooth::SE2d, Eigen::Matrix<double, 2, 1>>>(); }
