#pragma once
#include <smooth/core.hpp>
#include <compare>
#include <iterator>
namespace smooth::utils {

template<std::size_t N, typename F>
constexpr void static_for(F && f)
{
  [&]<std::size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }(std::make_index_sequence<N>{});
}

/// @brief Last element not larger than t (end if there is none)
template<std::ranges::range R, typename T, typename C>
auto binary_interval_search(R && r, T && t, C && cmp)
{
  auto first = std::ranges::begin(r), last = std::ranges::end(r);
  if (first == last || cmp(*first, t) > 0) return last;
  auto n = std::ranges::distance(first, last);
  while (n > 1) {
    const auto half = n / 2;
    auto mid = std::next(first, half);
    if (cmp(*mid, t) > 0) n = half;
    else { first = mid; n -= half; }
  }
  return first;
}

template<typename... R>
class zip_range
{
  std::tuple<R...> r_;

public:
  explicit zip_range(R &&... r) : r_(std::forward<R>(r)...) {}
  using Its  = std::tuple<decltype(std::ranges::begin(std::declval<std::remove_reference_t<R> &>()))...>;
  using Ends = std::tuple<decltype(std::ranges::end(std::declval<std::remove_reference_t<R> &>()))...>;
  struct sentinel { Ends e; };
  struct iterator
  {
    Its it;
    auto operator*() const { return std::apply([](auto &... i) { return std::tuple<decltype(*i)...>(*i...); }, const_cast<Its &>(it)); }
    iterator & operator++() { std::apply([](auto &... i) { (++i, ...); }, it); return *this; }
    bool operator!=(const sentinel & s) const
    {
      return [&]<std::size_t... I>(std::index_sequence<I...>) { return ((std::get<I>(it) != std::get<I>(s.e)) && ...); }(std::index_sequence_for<R...>{});
    }
  };
  iterator begin() { return std::apply([](auto &... r) { return iterator{Its(std::ranges::begin(r)...)}; }, r_); }
  sentinel end() { return std::apply([](auto &... r) { return sentinel{Ends(std::ranges::end(r)...)}; }, r_); }
};

template<typename... R>
auto zip(R &&... r) { return zip_range<R...>(std::forward<R>(r)...); }

}  // namespace smooth::utils
namespace smooth { namespace feedback { namespace utils = ::smooth::utils; } }
