#ifndef COMPAT_ABSL_CONTAINER_INLINED_VECTOR_H_
#define COMPAT_ABSL_CONTAINER_INLINED_VECTOR_H_
#include <algorithm>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <utility>
#include "absl/log/absl_check.h"
namespace absl {
template <typename T, size_t N> class InlinedVector {
 public:
  using value_type = T; using iterator = T*; using const_iterator = const T*; using reference = T&; using const_reference = const T&;
  using pointer = T*; using const_pointer = const T*; using size_type = size_t; using difference_type = ptrdiff_t;
  using reverse_iterator = std::reverse_iterator<T*>; using const_reverse_iterator = std::reverse_iterator<const T*>;
  InlinedVector() {}
  explicit InlinedVector(size_t n) { resize(n); }
  InlinedVector(size_t n, const T& v) { resize(n, v); }
  InlinedVector(std::initializer_list<T> l) { insert(end(), l.begin(), l.end()); }
  template <typename I, typename = typename std::iterator_traits<I>::iterator_category> InlinedVector(I b, I e) { insert(end(), b, e); }
  InlinedVector(const InlinedVector& o) { insert(end(), o.begin(), o.end()); }
  InlinedVector(InlinedVector&& o) noexcept { Steal(o); }
  InlinedVector& operator=(const InlinedVector& o) { if (this != &o) { clear(); insert(end(), o.begin(), o.end()); } return *this; }
  InlinedVector& operator=(InlinedVector&& o) noexcept { if (this != &o) { Free(); Steal(o); } return *this; }
  InlinedVector& operator=(std::initializer_list<T> l) { assign(l.begin(), l.end()); return *this; }
  ~InlinedVector() { Free(); }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t capacity() const { return cap_ ? cap_ : N; }
  T* data() { return cap_ ? u_.heap : reinterpret_cast<T*>(u_.in); }
  const T* data() const { return cap_ ? u_.heap : reinterpret_cast<const T*>(u_.in); }
  T* begin() { return data(); } T* end() { return data() + n_; }
  const T* begin() const { return data(); } const T* end() const { return data() + n_; }
  const T* cbegin() const { return data(); } const T* cend() const { return data() + n_; }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  T& operator[](size_t i) { ABSL_CHECK(i < n_); return data()[i]; }
  const T& operator[](size_t i) const { ABSL_CHECK(i < n_); return data()[i]; }
  T& at(size_t i) { return (*this)[i]; } const T& at(size_t i) const { return (*this)[i]; }
  T& front() { return (*this)[0]; } const T& front() const { return (*this)[0]; }
  T& back() { return (*this)[n_ - 1]; } const T& back() const { return (*this)[n_ - 1]; }
  void reserve(size_t c) { if (c > capacity()) Grow(c); }
  void shrink_to_fit() {}
  template <typename... A> T& emplace_back(A&&... a) {
    if (n_ == capacity()) { T tmp(std::forward<A>(a)...); Grow(2 * capacity() + 1); new (data() + n_) T(std::move(tmp)); }
    else { new (data() + n_) T(std::forward<A>(a)...); }
    ++n_; return back();
  }
  void push_back(const T& v) { emplace_back(v); }
  void push_back(T&& v) { emplace_back(std::move(v)); }
  void pop_back() { ABSL_CHECK(n_ > 0); --n_; std::destroy_at(data() + n_); }
  void clear() { std::destroy(begin(), end()); n_ = 0; }
  void resize(size_t n) { while (n_ > n) pop_back(); reserve(n); while (n_ < n) { new (data() + n_) T(); ++n_; } }
  void resize(size_t n, const T& v0) { T v(v0); while (n_ > n) pop_back(); reserve(n); while (n_ < n) emplace_back(v); }
  template <typename I, typename = typename std::iterator_traits<I>::iterator_category> void assign(I b, I e) { clear(); insert(end(), b, e); }
  void assign(size_t n, const T& v0) { T v(v0); clear(); resize(n, v); }
  void assign(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
  template <typename I, typename = typename std::iterator_traits<I>::iterator_category> T* insert(const T* pos, I b, I e) {
    size_t k = pos - data(), old = n_;
    for (; b != e; ++b) emplace_back(*b);
    std::rotate(begin() + k, begin() + old, end());
    return begin() + k;
  }
  T* insert(const T* pos, const T& v) { size_t k = pos - data(); push_back(v); std::rotate(begin() + k, end() - 1, end()); return begin() + k; }
  T* insert(const T* pos, std::initializer_list<T> l) { return insert(pos, l.begin(), l.end()); }
  template <typename... A> T* emplace(const T* pos, A&&... a) { size_t k = pos - data(); emplace_back(std::forward<A>(a)...); std::rotate(begin() + k, end() - 1, end()); return begin() + k; }
  T* erase(const T* p) { return erase(p, p + 1); }
  T* erase(const T* b, const T* e) {
    size_t k = b - data(), c = e - b;
    std::move(begin() + k + c, end(), begin() + k);
    while (c--) pop_back();
    return begin() + k;
  }
  void swap(InlinedVector& o) { std::swap(*this, o); }
  friend bool operator==(const InlinedVector& a, const InlinedVector& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
  template <typename H> friend H AbslHashValue(H h, const InlinedVector& v) { return H::combine(H::combine_contiguous(std::move(h), v.data(), v.size()), v.size()); }
 private:
  void Grow(size_t c) {
    T* h = static_cast<T*>(::operator new(c * sizeof(T), std::align_val_t(alignof(T))));
    std::uninitialized_move(begin(), end(), h);
    std::destroy(begin(), end());
    if (cap_) ::operator delete(u_.heap, std::align_val_t(alignof(T)));
    u_.heap = h; cap_ = uint32_t(c);
  }
  void Free() { clear(); if (cap_) ::operator delete(u_.heap, std::align_val_t(alignof(T))); cap_ = 0; }
  void Steal(InlinedVector& o) {
    if (o.cap_) { u_.heap = o.u_.heap; cap_ = o.cap_; n_ = o.n_; o.cap_ = 0; o.n_ = 0; }
    else { std::uninitialized_move(o.begin(), o.end(), data()); n_ = o.n_; o.clear(); }
  }
  uint32_t n_ = 0, cap_ = 0;
  union U { U() {} alignas(T) unsigned char in[(N ? N : 1) * sizeof(T)]; T* heap; } u_;
};
}
#endif
