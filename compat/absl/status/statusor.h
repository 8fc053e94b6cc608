#ifndef COMPAT_ABSL_STATUS_STATUSOR_H_
#define COMPAT_ABSL_STATUS_STATUSOR_H_
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/log/absl_check.h"
#include "absl/status/status.h"
namespace absl {
template <typename T> class StatusOr {
  template <typename U> friend class StatusOr;
  template <typename U> static constexpr bool kIsStatusOr = false;
  template <typename U> struct IsSO : std::false_type {};
  template <typename U> struct IsSO<StatusOr<U>> : std::true_type {};
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  StatusOr(const Status& s) : status_(s) { CheckErr(); }
  StatusOr(Status&& s) : status_(std::move(s)) { CheckErr(); }
  template <typename U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, Status> &&
      !IsSO<std::decay_t<U>>::value && !std::is_same_v<std::decay_t<U>, std::in_place_t> && std::is_convertible_v<U&&, T>, int> = 0>
  StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <typename U = T, std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, Status> &&
      !IsSO<std::decay_t<U>>::value && !std::is_same_v<std::decay_t<U>, std::in_place_t> && !std::is_convertible_v<U&&, T>, int> = 0>
  explicit StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <typename... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  template <typename U, std::enable_if_t<!std::is_same_v<T, U> && std::is_constructible_v<T, const U&>, int> = 0>
  StatusOr(const StatusOr<U>& o) : status_(o.status_) { if (o.v_) v_.emplace(*o.v_); }
  template <typename U, std::enable_if_t<!std::is_same_v<T, U> && std::is_constructible_v<T, U&&>, int> = 0>
  StatusOr(StatusOr<U>&& o) : status_(std::move(o.status_)) { if (o.v_) v_.emplace(std::move(*o.v_)); }
  bool ok() const { return v_.has_value(); }
  const Status& status() const& { return status_; }
  Status status() && { return status_; }
  const T& value() const& { Need(); return *v_; }
  T& value() & { Need(); return *v_; }
  T&& value() && { Need(); return std::move(*v_); }
  const T& operator*() const& { Need(); return *v_; }
  T& operator*() & { Need(); return *v_; }
  T&& operator*() && { Need(); return std::move(*v_); }
  const T* operator->() const { Need(); return &*v_; }
  T* operator->() { Need(); return &*v_; }
  template <typename U> T value_or(U&& u) const& { return v_ ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <typename U> T value_or(U&& u) && { return v_ ? std::move(*v_) : static_cast<T>(std::forward<U>(u)); }
  template <typename... A> T& emplace(A&&... a) { status_ = OkStatus(); return v_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}
  friend bool operator==(const StatusOr& a, const StatusOr& b) { return a.ok() && b.ok() ? *a.v_ == *b.v_ : a.status_ == b.status_; }
 private:
  void CheckErr() { ABSL_CHECK(!status_.ok()); }
  void Need() const { if (!v_) COMPAT_FATAL("StatusOr has no value:") << status_.ToString(); }
  Status status_;
  std::optional<T> v_;
};
}
#endif
