#include "ctl_pid.hpp"
std::unique_ptr<PidIface> make_pid_r2(int t) { return make_pid<Eigen::Vector2d>(t); }
