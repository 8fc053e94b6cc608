#ifndef COMPAT_ABSL_STRINGS_STRIP_H_
#define COMPAT_ABSL_STRINGS_STRIP_H_
#include "absl/strings/match.h"
namespace absl {
inline bool ConsumePrefix(string_view* s, string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(string_view* s, string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
inline string_view StripPrefix(string_view s, string_view p) { if (StartsWith(s, p)) s.remove_prefix(p.size()); return s; }
}
#endif
