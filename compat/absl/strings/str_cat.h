#ifndef COMPAT_ABSL_STRINGS_STR_CAT_H_
#define COMPAT_ABSL_STRINGS_STR_CAT_H_
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
namespace compat {
struct StringSink {
  std::string s;
  void Append(string_view v) { s.append(v.data(), v.size()); }
  void Append(size_t n, char c) { s.append(n, c); }
  friend void AbslFormatFlush(StringSink* k, string_view v) { k->Append(v); }
};
template <typename T, typename = void> struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<StringSink&>(), std::declval<const T&>()))>> : std::true_type {};
// Six significant digits, like absl::StrCat of floats.
inline std::string SixDigits(double d) {
  if (std::isnan(d)) return "nan";
  if (std::isinf(d)) return d < 0 ? "-inf" : "inf";
  char b[64];
  std::snprintf(b, sizeof b, "%g", d);
  return b;
}
template <typename T> std::string ToStr(const T& t) {
  if constexpr (HasStringify<T>::value) {
    StringSink k; AbslStringify(k, t); return std::move(k.s);
  } else if constexpr (std::is_same_v<T, bool>) {
    return t ? "1" : "0";
  } else if constexpr (std::is_floating_point_v<T>) {
    return SixDigits(t);
  } else if constexpr (std::is_enum_v<T>) {
    return std::to_string(static_cast<std::underlying_type_t<T>>(t));
  } else if constexpr (std::is_integral_v<T>) {
    return std::to_string(t);
  } else if constexpr (std::is_convertible_v<const T&, const char*>) {
    const char* p = t; return p ? std::string(p) : std::string();
  } else {
    return std::string(string_view(t));
  }
}
}  // namespace compat
template <typename... A> std::string StrCat(const A&... a) {
  std::string r;
  (void)std::initializer_list<int>{0, ((void)(r += compat::ToStr(a)), 0)...};
  return r;
}
template <typename... A> void StrAppend(std::string* d, const A&... a) {
  std::string r = StrCat(a...);
  d->append(r);
}
class AlphaNum {
 public:
  template <typename T> AlphaNum(const T& t) : s_(compat::ToStr(t)) {}
  string_view Piece() const { return s_; }
 private:
  std::string s_;
};
}  // namespace absl
#endif
