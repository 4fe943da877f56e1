// Time representations and their exact arithmetic, written independently of the code under test.
#pragma once
#include "rt.hpp"
#include <chrono>
#include <ratio>
#include <rclcpp/time.hpp>

namespace rep {
using namespace std::chrono;
using i128 = __int128;

// Rep<T>: make(ns) builds the representable time nearest below ns; secs(a, b) = a - b in seconds as represented
template<class T> struct Rep;

template<std::floating_point F> struct Rep<F>
{
  static constexpr bool is_int = false;
  static constexpr long double tick = 0;
  static F make(i128 ns) { return F((long double)(ns) * 1e-9L); }
  static long double value(F t) { return t; }
  static long double secs(F a, F b) { return (long double)(a) - (long double)(b); }
  static long double eps() { return std::numeric_limits<F>::epsilon(); }
};
template<class R, class P> struct Rep<duration<R, P>>
{
  using T = duration<R, P>;
  static constexpr bool is_int = std::is_integral_v<R>;
  static constexpr long double tick = (long double)(P::num) / P::den;
  static T make(i128 ns)
  {
    if constexpr (is_int) {
      const i128 n = ns * P::den, d = i128(P::num) * 1000000000;
      i128 q = n / d;
      if (n % d < 0) --q;
      return T(R(q));
    } else
      return T(R((long double)(ns) * 1e-9L / tick));
  }
  static i128 ticks(T t) { return i128(t.count()); }
  static T of_ticks(i128 k) { return T(R(k)); }
  static long double value(T t) { return (long double)(t.count()) * P::num / P::den; }
  static long double secs(T a, T b)
  {
    if constexpr (is_int) return (long double)(i128(a.count()) - i128(b.count())) * P::num / P::den;
    else return ((long double)(a.count()) - (long double)(b.count())) * P::num / P::den;
  }
  static long double eps() { return is_int ? 0 : (long double)(is_int ? 0 : std::numeric_limits<R>::epsilon()); }
};
template<class C, class D> struct Rep<time_point<C, D>>
{
  using T = time_point<C, D>;
  static constexpr bool is_int = Rep<D>::is_int;
  static constexpr long double tick = Rep<D>::tick;
  static T make(i128 ns) { return T(Rep<D>::make(ns)); }
  static i128 ticks(T t) { return Rep<D>::ticks(t.time_since_epoch()); }
  static T of_ticks(i128 k) { return T(Rep<D>::of_ticks(k)); }
  static long double value(T t) { return Rep<D>::value(t.time_since_epoch()); }
  static long double secs(T a, T b) { return Rep<D>::secs(a.time_since_epoch(), b.time_since_epoch()); }
  static long double eps() { return Rep<D>::eps(); }
};
template<> struct Rep<rclcpp::Time>
{
  using T = rclcpp::Time;
  static constexpr bool is_int = true;
  static constexpr long double tick = 1e-9L;
  static T make(i128 ns) { return T(int64_t(ns)); }
  static i128 ticks(T t) { return t.nanoseconds(); }
  static T of_ticks(i128 k) { return T(int64_t(k)); }
  static long double value(T t) { return (long double)(t.nanoseconds()) * 1e-9L; }
  static long double secs(T a, T b) { return (long double)(i128(a.nanoseconds()) - i128(b.nanoseconds())) / 1000000000.0L; }
  static long double eps() { return 0; }
};

static constexpr int64_t kEpoch[] = {0, 1700000000000000000ll, -500000000000000000ll, 3000000000000ll, -1000000ll, 4102444800000000000ll};
}  // namespace rep
