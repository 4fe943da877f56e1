#include "mesh_fun.hpp"
std::unique_ptr<MeshRunner> make_mesh_fun_c() { return std::make_unique<meshfun::FunRunner<smooth::feedback::Mesh<3, 4>, 3, 2, 2, 2, 3, 1, true>>(); }
