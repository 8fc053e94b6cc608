#ifndef COMPAT_ABSL_STATUS_STATUS_H_
#define COMPAT_ABSL_STATUS_STATUS_H_
#include <ostream>
#include <string>
#include <utility>
#include "absl/strings/str_cat.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11,
  kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
inline std::string StatusCodeToString(StatusCode c) {
  static const char* n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS",
    "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL",
    "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  return int(c) >= 0 && int(c) <= 16 ? n[int(c)] : "";
}
enum class StatusToStringMode { kDefault, kWithEverything };
class Status {
 public:
  Status() = default;
  Status(StatusCode c, string_view m) : code_(c), msg_(c == StatusCode::kOk ? "" : std::string(m)) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return int(code_); }
  string_view message() const { return msg_; }
  std::string ToString() const { return ok() ? "OK" : StatusCodeToString(code_) + ": " + msg_; }
  void Update(const Status& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  friend bool operator==(const Status&, const Status&) = default;
  friend std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.ToString(); }
  template <typename Sink> friend void AbslStringify(Sink& k, const Status& s) { k.Append(s.ToString()); }
 private:
  StatusCode code_ = StatusCode::kOk;
  std::string msg_;
};
inline std::ostream& operator<<(std::ostream& o, StatusCode c) { return o << StatusCodeToString(c); }
inline Status OkStatus() { return Status(); }
#define COMPAT_ERR(N) \
  inline Status N##Error(string_view m) { return Status(StatusCode::k##N, m); } \
  inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
COMPAT_ERR(Cancelled) COMPAT_ERR(Unknown) COMPAT_ERR(InvalidArgument) COMPAT_ERR(DeadlineExceeded) COMPAT_ERR(NotFound)
COMPAT_ERR(AlreadyExists) COMPAT_ERR(PermissionDenied) COMPAT_ERR(ResourceExhausted) COMPAT_ERR(FailedPrecondition)
COMPAT_ERR(Aborted) COMPAT_ERR(OutOfRange) COMPAT_ERR(Unimplemented) COMPAT_ERR(Internal) COMPAT_ERR(Unavailable)
COMPAT_ERR(DataLoss) COMPAT_ERR(Unauthenticated)
#undef COMPAT_ERR
}
#endif
