#ifndef COMPAT_ABSL_TIME_TIME_H_
#define COMPAT_ABSL_TIME_TIME_H_
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>
#include "absl/strings/str_cat.h"
namespace absl {
class Duration {
 public:
  constexpr Duration() = default;
  constexpr explicit Duration(double s) : s_(s) {}
  double s_ = 0;
  Duration operator-() const { return Duration(-s_); }
  friend bool operator==(Duration a, Duration b) { return a.s_ == b.s_; }
  friend auto operator<=>(Duration a, Duration b) { return a.s_ <=> b.s_; }
  friend Duration operator+(Duration a, Duration b) { return Duration(a.s_ + b.s_); }
  friend Duration operator-(Duration a, Duration b) { return Duration(a.s_ - b.s_); }
};
inline Duration InfiniteDuration() { return Duration(std::numeric_limits<double>::infinity()); }
inline Duration ZeroDuration() { return Duration(); }
inline Duration Seconds(double s) {
  if (std::isnan(s)) return InfiniteDuration();
  if (std::abs(s) >= 9223372036854775807.0) return Duration(s > 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity());
  return Duration(s);
}
inline Duration Milliseconds(double s) { return Seconds(s / 1000); }
inline Duration Microseconds(double s) { return Seconds(s / 1e6); }
inline double ToDoubleSeconds(Duration d) { return d.s_; }
inline double ToDoubleMilliseconds(Duration d) { return d.s_ * 1000; }
inline std::string FormatDuration(Duration d) { return std::isinf(d.s_) ? (d.s_ < 0 ? "-inf" : "inf") : StrCat(d.s_, "s"); }
}
#endif
