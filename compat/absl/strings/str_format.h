#ifndef COMPAT_ABSL_STRINGS_STR_FORMAT_H_
#define COMPAT_ABSL_STRINGS_STR_FORMAT_H_
#include <functional>
#include <string>
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl {
namespace compat {
struct FormatArg {
  enum Kind { kInt, kUint, kDouble, kString, kPtr, kChar } kind;
  long long i = 0; unsigned long long u = 0; double d = 0; const void* p = nullptr; std::string s;
  template <typename T> explicit FormatArg(const T& t) {
    using D = std::decay_t<T>;
    if constexpr (HasStringify<T>::value) { kind = kString; s = ToStr(t); }
    else if constexpr (std::is_same_v<D, bool>) { kind = kInt; i = t; s = t ? "true" : "false"; }
    else if constexpr (std::is_same_v<D, char>) { kind = kChar; i = t; s = std::string(1, t); }
    else if constexpr (std::is_floating_point_v<D>) { kind = kDouble; d = t; s = SixDigits(t); }
    else if constexpr (std::is_enum_v<D>) { kind = kInt; i = static_cast<long long>(t); s = std::to_string(i); }
    else if constexpr (std::is_integral_v<D> && std::is_signed_v<D>) { kind = kInt; i = t; s = std::to_string(i); }
    else if constexpr (std::is_integral_v<D>) { kind = kUint; u = t; s = std::to_string(u); }
    else if constexpr (std::is_convertible_v<const T&, string_view>) { kind = kString; s = std::string(string_view(t)); }
    else if constexpr (std::is_pointer_v<D>) { kind = kPtr; p = t; }
    else { kind = kString; s = ToStr(t); }
  }
};
inline std::string FormatPieces(string_view f, const std::vector<FormatArg>& a) {
  std::string out; size_t n = 0;
  for (size_t k = 0; k < f.size(); ++k) {
    if (f[k] != '%') { out += f[k]; continue; }
    if (k + 1 < f.size() && f[k + 1] == '%') { out += '%'; ++k; continue; }
    std::string spec = "%"; ++k;
    while (k < f.size() && std::strchr("-+ #0123456789.", f[k])) spec += f[k++];
    while (k < f.size() && std::strchr("hljztLq", f[k])) ++k;  // length modifiers are irrelevant
    if (k >= f.size() || n >= a.size()) { out += "%?"; continue; }
    const FormatArg& g = a[n++];
    char c = f[k], b[512];
    switch (c) {
      case 'v': out += g.s; break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o':
        if (g.kind == FormatArg::kUint) {
          std::snprintf(b, sizeof b, (spec + "ll" + (c == 'd' || c == 'i' ? 'u' : c)).c_str(), g.u);
        } else if (g.kind == FormatArg::kDouble) {
          std::snprintf(b, sizeof b, "%g", g.d);
        } else {
          std::snprintf(b, sizeof b, (spec + "ll" + c).c_str(), g.i);
        }
        out += b; break;
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A': {
        double d = g.kind == FormatArg::kDouble ? g.d : g.kind == FormatArg::kUint ? double(g.u) : double(g.i);
        std::snprintf(b, sizeof b, (spec + c).c_str(), d); out += b; break;
      }
      case 'c': out += char(g.i); break;
      case 'p': std::snprintf(b, sizeof b, "%p", g.p); out += b; break;
      default: {
        std::string w = spec + "s";
        if (spec == "%") { out += g.s; } else { std::snprintf(b, sizeof b, w.c_str(), g.s.c_str()); out += b; }
      }
    }
  }
  return out;
}
}  // namespace compat
template <typename... A> std::string StrFormat(string_view f, const A&... a) {
  return compat::FormatPieces(f, std::vector<compat::FormatArg>{compat::FormatArg(a)...});
}
template <typename... A> std::string& StrAppendFormat(std::string* d, string_view f, const A&... a) {
  return d->append(StrFormat(f, a...));
}
template <typename Sink, typename... A> void Format(Sink sink, string_view f, const A&... a) {
  sink->Append(StrFormat(f, a...));
}
}  // namespace absl
#endif
