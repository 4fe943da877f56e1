#include "flat_run.hpp"
std::unique_ptr<FlatRunner> make_flat_c() { return std::make_unique<flat::Runner<Eigen::Matrix<double, 3, 1>, Eigen::Matrix<double, 2, 1>>>(); }
