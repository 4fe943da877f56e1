#include "qp_impl.hpp"
namespace qp {
const IType & type_dense()
{
  static const Impl<smooth::feedback::QuadraticProgram<-1,-1>> t("dense");
  return t;
}
}  // namespace qp
