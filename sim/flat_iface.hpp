#pragma once
#include "rt.hpp"
#include <memory>
struct FlatRunner
{
  virtual ~FlatRunner() = default;
  virtual void run(const sim::Plan & plan, int tid) = 0;
};
std::unique_ptr<FlatRunner> make_flat_a();  // SE2 x R2
std::unique_ptr<FlatRunner> make_flat_b();  // SO3 x R1
std::unique_ptr<FlatRunner> make_flat_c();  // R3 x R2
std::unique_ptr<FlatRunner> make_flat_d();  // SE2 x SO3
