#ifndef COMPAT_ABSL_STRINGS_STR_JOIN_H_
#define COMPAT_ABSL_STRINGS_STR_JOIN_H_
#include <initializer_list>
#include <string>
#include "absl/strings/str_cat.h"
namespace absl {
template <typename R, typename F> std::string StrJoin(const R& r, string_view sep, F&& f) {
  std::string out; bool first = true;
  for (const auto& e : r) { if (!first) out.append(sep); first = false; f(&out, e); }
  return out;
}
template <typename R> std::string StrJoin(const R& r, string_view sep) {
  return StrJoin(r, sep, [](std::string* o, const auto& e) { StrAppend(o, e); });
}
template <typename T> std::string StrJoin(std::initializer_list<T> r, string_view sep) {
  return StrJoin<std::initializer_list<T>>(r, sep);
}
template <typename I, typename = decltype(*std::declval<I>()), typename = std::enable_if_t<!std::is_convertible_v<I, string_view>>> std::string StrJoin(I b, I e, string_view sep) {
  std::string out; bool first = true;
  for (; b != e; ++b) { if (!first) out.append(sep); first = false; StrAppend(&out, *b); }
  return out;
}
template <typename I, typename F> std::string StrJoin(I b, I e, string_view sep, F&& f) {
  std::string out; bool first = true;
  for (; b != e; ++b) { if (!first) out.append(sep); first = false; f(&out, *b); }
  return out;
}
}
#endif
