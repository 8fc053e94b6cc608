#ifndef COMPAT_ABSL_LOG_ABSL_CHECK_H_
#define COMPAT_ABSL_LOG_ABSL_CHECK_H_
// Fatal checks. Debug checks are on: a failed DCHECK is a crash of the code under test.
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <iostream>
#include "absl/base/attributes.h"
#include "absl/strings/str_cat.h"
namespace absl { namespace compat {
struct LogMessage {
  std::ostringstream os; bool fatal;
  LogMessage(bool f, const char* file, int line, const char* what) : fatal(f) { os << file << ":" << line << " " << what << " "; }
  ~LogMessage() {
    std::fputs((os.str() + "\n").c_str(), stderr);
    if (fatal) { std::fflush(nullptr); std::abort(); }
  }
  template <typename T> LogMessage& operator<<(const T& t) {
    if constexpr (HasStringify<T>::value) os << ToStr(t); else os << t;
    return *this;
  }
  LogMessage& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct Voidify { void operator&&(const LogMessage&) const {} };
template <typename T> decltype(auto) StatusOf(const T& t) {
  if constexpr (requires { t.status(); }) return t.status(); else return (t);
}
} }
#define COMPAT_FATAL(w) ::absl::compat::LogMessage(true, __FILE__, __LINE__, w)
#define ABSL_CHECK(c) (c) ? (void)0 : ::absl::compat::Voidify() && COMPAT_FATAL("CHECK failed: " #c)
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) ABSL_CHECK((a) != (b))
#define ABSL_CHECK_LT(a, b) ABSL_CHECK((a) < (b))
#define ABSL_CHECK_LE(a, b) ABSL_CHECK((a) <= (b))
#define ABSL_CHECK_GT(a, b) ABSL_CHECK((a) > (b))
#define ABSL_CHECK_GE(a, b) ABSL_CHECK((a) >= (b))
#define ABSL_CHECK_OK(e) \
  for (auto compat_st_ = ::absl::compat::StatusOf(e); !compat_st_.ok();) COMPAT_FATAL("CHECK_OK failed: " #e) << compat_st_.ToString()
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_DCHECK_OK(e) ABSL_CHECK_OK(e)
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#endif
