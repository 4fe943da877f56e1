#include "qp_impl.hpp"
namespace qp {
const IType & type_partial()
{
  static const Impl<smooth::feedback::QuadraticProgram<-1,3>> t("partial");
  return t;
}
}  // namespace qp
