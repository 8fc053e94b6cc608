#ifndef COMPAT_ABSL_STRINGS_SUBSTITUTE_H_
#define COMPAT_ABSL_STRINGS_SUBSTITUTE_H_
#include <string>
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl {
namespace compat {
template <typename T> std::string SubstStr(const T& t) {
  if constexpr (std::is_same_v<T, bool>) return t ? "true" : "false"; else return ToStr(t);
}
}
template <typename... A> std::string Substitute(string_view f, const A&... a) {
  std::vector<std::string> v{compat::SubstStr(a)...};
  std::string out;
  for (size_t k = 0; k < f.size(); ++k) {
    if (f[k] == '$' && k + 1 < f.size()) {
      char c = f[++k];
      if (c >= '0' && c <= '9') { if (size_t(c - '0') < v.size()) out += v[c - '0']; } else out += c;
    } else { out += f[k]; }
  }
  return out;
}
template <typename... A> void SubstituteAndAppend(std::string* d, string_view f, const A&... a) { d->append(Substitute(f, a...)); }
}
#endif
