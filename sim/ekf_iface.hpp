#pragma once
#include "rt.hpp"
struct EkfIface
{
  virtual ~EkfIface() = default;
  virtual void run(const sim::Plan & plan, int tid) = 0;
};
std::unique_ptr<EkfIface> make_ekf_r2(bool rk4);
std::unique_ptr<EkfIface> make_ekf_se2(bool rk4);
std::unique_ptr<EkfIface> make_ekf_so3(bool rk4);
