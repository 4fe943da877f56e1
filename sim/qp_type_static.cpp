#include "qp_impl.hpp"
namespace qp {
const IType & type_static()
{
  static const Impl<smooth::feedback::QuadraticProgram<4,3>> t("static");
  return t;
}
}  // namespace qp
