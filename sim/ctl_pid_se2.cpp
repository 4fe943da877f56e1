#include "ctl_pid.hpp"
std::unique_ptr<PidIface> make_pid_se2(int t) { return make_pid<smooth::SE2d>(t); }
