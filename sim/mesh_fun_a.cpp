#include "mesh_fun.hpp"
std::unique_ptr<MeshRunner> make_mesh_fun_a() { return std::make_unique<meshfun::FunRunner<smooth::feedback::Mesh<2, 3>, 2, 1, 3, 2, 1, 2, false>>(); }
