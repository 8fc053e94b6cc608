#ifndef COMPAT_ABSL_STRINGS_NUMBERS_H_
#define COMPAT_ABSL_STRINGS_NUMBERS_H_
#include <limits>
#include <string>
#include "absl/strings/ascii.h"
namespace absl {
// Like absl::SimpleAtoi: optional surrounding whitespace and sign; false on overflow (clamped) or junk.
template <typename T> bool SimpleAtoi(string_view s, T* out) {
  while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1);
  while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1);
  *out = 0;
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) {
    neg = s[0] == '-';
    if (neg && !std::numeric_limits<T>::is_signed) return false;
    s.remove_prefix(1);
  }
  if (s.empty()) return false;
  __int128 v = 0;
  for (char c : s) {
    if (!ascii_isdigit(c)) { return false; }
    v = v * 10 + (neg ? -(c - '0') : (c - '0'));
    if (v > (__int128)std::numeric_limits<T>::max()) { *out = std::numeric_limits<T>::max(); return false; }
    if (v < (__int128)std::numeric_limits<T>::min()) { *out = std::numeric_limits<T>::min(); return false; }
  }
  *out = static_cast<T>(v);
  return true;
}
}
#endif
