#include "qp_impl.hpp"
namespace qp {
const IType & type_static2()
{
  static const Impl<smooth::feedback::QuadraticProgram<3,2>> t("static2");
  return t;
}
}  // namespace qp
