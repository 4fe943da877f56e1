#include "qp_impl.hpp"
namespace qp {
const IType & type_sparse()
{
  static const Impl<smooth::feedback::QuadraticProgramSparse<double>> t("sparse");
  return t;
}
}  // namespace qp
