#include "ctl_pid.hpp"
std::unique_ptr<PidIface> make_pid_so3(int t) { return make_pid<smooth::SO3d>(t); }
