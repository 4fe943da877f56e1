// Stand-in for smooth/compat/odeint.hpp: lets odeint steppers move along Lie groups.
#pragma once
#include <boost/numeric/odeint.hpp>
#include <smooth/core.hpp>
namespace smooth::detail {
struct LieOdeintOps
{
#define SMOOTH_STUB_OPS(n)
  template<class... F>
  struct scale_sum
  {
    std::tuple<F...> c;
    explicit scale_sum(F... f) : c(f...) {}
    using result_type = void;
    template<class Y, class X, class... D>
    void operator()(Y & y, const X & x, const D &... d) const
    {
      [&]<std::size_t... I>(std::index_sequence<I...>) { y = rplus(x, Tangent<X>((... + (std::get<I + 1>(c) * d)))); }(std::index_sequence_for<D...>{});
    }
  };
  template<class A = double, class B = A> using scale_sum2 = scale_sum<A, B>;
  template<class A = double, class B = A, class C = B> using scale_sum3 = scale_sum<A, B, C>;
  template<class A = double, class B = A, class C = B, class D = C> using scale_sum4 = scale_sum<A, B, C, D>;
  template<class A = double, class B = A, class C = B, class D = C, class E = D> using scale_sum5 = scale_sum<A, B, C, D, E>;
#undef SMOOTH_STUB_OPS
};
}  // namespace smooth::detail
namespace boost::numeric::odeint {
template<smooth::LieGroup G>
  requires(!std::floating_point<G>)
struct operations_dispatcher<G>
{
  using operations_type = ::smooth::detail::LieOdeintOps;
};
}  // namespace boost::numeric::odeint
