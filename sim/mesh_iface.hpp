#pragma once
#include "rt.hpp"
#include <memory>
struct MeshRunner
{
  virtual ~MeshRunner() = default;
  virtual void run(const sim::Plan & plan, int tid) = 0;
};
// C15
std::unique_ptr<MeshRunner> make_mesh_hist(int type);
constexpr int kMeshTypes = 5;
// C16, C19
std::unique_ptr<MeshRunner> make_mesh_fun_a();
std::unique_ptr<MeshRunner> make_mesh_fun_b();
std::unique_ptr<MeshRunner> make_mesh_fun_c();
