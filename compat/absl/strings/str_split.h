#ifndef COMPAT_ABSL_STRINGS_STR_SPLIT_H_
#define COMPAT_ABSL_STRINGS_STR_SPLIT_H_
#include <vector>
#include "absl/strings/string_view.h"
namespace absl {
inline std::vector<string_view> StrSplit(string_view s, char d) {
  std::vector<string_view> r; size_t b = 0;
  for (;;) { size_t e = s.find(d, b); if (e == string_view::npos) { r.push_back(s.substr(b)); return r; } r.push_back(s.substr(b, e - b)); b = e + 1; }
}
}
#endif
