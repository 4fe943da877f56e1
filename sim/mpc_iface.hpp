#pragma once
#include "rt.hpp"
struct MpcRunner
{
  virtual ~MpcRunner() = default;
  virtual void run(const sim::Plan & plan, int tid, bool pre) = 0;  // tid: task; pre: the operations before the tasks start
};
std::unique_ptr<MpcRunner> make_mpc_a();
std::unique_ptr<MpcRunner> make_mpc_b();
std::unique_ptr<MpcRunner> make_mpc_c();
