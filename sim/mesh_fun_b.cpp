#include "mesh_fun.hpp"
std::unique_ptr<MeshRunner> make_mesh_fun_b() { return std::make_unique<meshfun::FunRunner<smooth::feedback::Mesh<3, 5>, 1, 2, 1, 1, 2, 3, true>>(); }
