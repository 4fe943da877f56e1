#pragma once
#include "rt.hpp"
struct PidIface
{
  virtual ~PidIface() = default;
  // run the operations of task tid; outputs appended to rec if given
  virtual void run(const sim::Plan & plan, int tid, std::vector<double> * rec) = 0;
};
std::unique_ptr<PidIface> make_pid_r2(int t);
std::unique_ptr<PidIface> make_pid_se2(int t);
std::unique_ptr<PidIface> make_pid_so3(int t);
static constexpr int kPidTimes = 8;  // the last one (float) has too little resolution for comparisons
