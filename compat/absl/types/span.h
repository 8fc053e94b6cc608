#ifndef COMPAT_ABSL_TYPES_SPAN_H_
#define COMPAT_ABSL_TYPES_SPAN_H_
#include <algorithm>
#include <array>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <utility>
#include "absl/log/absl_check.h"
namespace absl {
template <typename T> class Span {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using pointer = T*; using const_pointer = const T*;
  using reference = T&; using const_reference = const T&; using iterator = T*; using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<iterator>; using size_type = size_t; using difference_type = ptrdiff_t;
  static constexpr size_t npos = size_t(-1);
  constexpr Span() = default;
  constexpr Span(T* p, size_t n) : p_(p), n_(n) {}
  template <size_t N> constexpr Span(T (&a)[N]) : p_(a), n_(N) {}
  template <typename C, typename = std::enable_if_t<!std::is_same_v<std::decay_t<C>, Span> &&
      std::is_convertible_v<decltype(std::declval<C&>().data()), T*> && std::is_convertible_v<decltype(std::declval<C&>().size()), size_t> &&
      (std::is_const_v<T> || std::is_lvalue_reference_v<C> )>>
  constexpr Span(C&& c) : p_(c.data()), n_(c.size()) {}
  template <typename LazyT = T, typename = std::enable_if_t<std::is_const_v<LazyT>>>
  constexpr Span(std::initializer_list<value_type> l) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { ABSL_CHECK(i < n_); return p_[i]; }
  constexpr T& at(size_t i) const { ABSL_CHECK(i < n_); return p_[i]; }
  constexpr T& front() const { ABSL_CHECK(n_ > 0); return p_[0]; }
  constexpr T& back() const { ABSL_CHECK(n_ > 0); return p_[n_ - 1]; }
  constexpr T* begin() const { return p_; }
  constexpr T* end() const { return p_ + n_; }
  constexpr const T* cbegin() const { return p_; }
  constexpr const T* cend() const { return p_ + n_; }
  constexpr reverse_iterator rbegin() const { return reverse_iterator(end()); }
  constexpr reverse_iterator rend() const { return reverse_iterator(begin()); }
  constexpr void remove_prefix(size_t k) { ABSL_CHECK(k <= n_); p_ += k; n_ -= k; }
  constexpr void remove_suffix(size_t k) { ABSL_CHECK(k <= n_); n_ -= k; }
  constexpr Span subspan(size_t pos = 0, size_t len = npos) const { ABSL_CHECK(pos <= n_); return Span(p_ + pos, std::min(n_ - pos, len)); }
  constexpr Span first(size_t k) const { return subspan(0, k); }
  constexpr Span last(size_t k) const { return subspan(n_ - k, k); }
  template <typename H> friend H AbslHashValue(H h, Span v) { return H::combine(H::combine_contiguous(std::move(h), v.data(), v.size()), v.size()); }
 private:
  T* p_ = nullptr; size_t n_ = 0;
};
template <typename T> inline bool CompatSpanEq(Span<const T> a, Span<const T> b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
template <typename T> bool operator==(Span<T> a, Span<T> b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
template <typename T, typename U, typename = std::enable_if_t<!std::is_same_v<T, U> && std::is_same_v<std::remove_cv_t<T>, std::remove_cv_t<U>>>>
bool operator==(Span<T> a, Span<U> b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
template <typename T, typename C, typename = std::enable_if_t<std::is_convertible_v<const C&, Span<const T>> >>
bool operator==(Span<T> a, const C& c) { Span<const T> b = c; return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
template <typename T> constexpr Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <typename T> Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <typename C> constexpr auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> { return {c.data(), c.size()}; }
template <typename T, size_t N> constexpr Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <typename T> constexpr Span<const T> MakeConstSpan(T* p, size_t n) { return Span<const T>(p, n); }
template <typename T> Span<const T> MakeConstSpan(T* b, T* e) { return Span<const T>(b, e - b); }
template <typename C> constexpr auto MakeConstSpan(const C& c) -> Span<std::add_const_t<std::remove_pointer_t<decltype(c.data())>>> { return {c.data(), c.size()}; }
template <typename T, size_t N> constexpr Span<const T> MakeConstSpan(const T (&a)[N]) { return Span<const T>(a, N); }
}
#endif
