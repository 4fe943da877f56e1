// Stand-in for rclcpp/time.hpp (time types as in ROS 2).
#pragma once
#include <chrono>
#include <cstdint>
#include <cmath>
#include <stdexcept>
enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
namespace rclcpp {
class Duration
{
  int64_t ns_{0};

public:
  explicit Duration(std::chrono::nanoseconds d) : ns_(d.count()) {}
  static Duration from_nanoseconds(int64_t ns) { return Duration(std::chrono::nanoseconds(ns)); }
  static Duration from_seconds(double s) { return from_nanoseconds(static_cast<int64_t>(s * 1000.0 * 1000.0 * 1000.0)); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  template<class D>
  D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
};
class Time
{
  int64_t ns_{0};
  rcl_clock_type_t ct_{RCL_SYSTEM_TIME};

public:
  explicit Time(int64_t ns = 0, rcl_clock_type_t ct = RCL_SYSTEM_TIME) : ns_(ns), ct_(ct) {}
  rcl_clock_type_t get_clock_type() const { return ct_; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return double(ns_) * 1e-9; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds(), ct_); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds(), ct_); }
  Duration operator-(const Time & o) const { return Duration::from_nanoseconds(ns_ - o.ns_); }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Time & o) const { return ns_ >= o.ns_; }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
};
}  // namespace rclcpp
