#ifndef COMPAT_ABSL_HASH_HASH_TESTING_H_
#define COMPAT_ABSL_HASH_HASH_TESTING_H_
#include <initializer_list>
#include "absl/hash/hash.h"
namespace absl {
template <typename C> bool VerifyTypeImplementsAbslHashCorrectly(const C& c) {
  for (const auto& a : c) for (const auto& b : c) if (a == b && !(HashOf(a) == HashOf(b))) return false;
  return true;
}
template <typename T> bool VerifyTypeImplementsAbslHashCorrectly(std::initializer_list<T> c) { return VerifyTypeImplementsAbslHashCorrectly<std::initializer_list<T>>(c); }
}
#endif
