#include "flat_run.hpp"
std::unique_ptr<FlatRunner> make_flat_d() { return std::make_unique<flat::Runner<smooth::SE2d, smooth::SO3d>>(); }
