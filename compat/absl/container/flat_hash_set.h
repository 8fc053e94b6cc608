#ifndef COMPAT_ABSL_CONTAINER_FLAT_HASH_SET_H_
#define COMPAT_ABSL_CONTAINER_FLAT_HASH_SET_H_
#include <functional>
#include <unordered_set>
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename H = Hash<K>, typename E = std::equal_to<>>
class flat_hash_set : public std::unordered_set<K, H, E> {
 public:
  using Base = std::unordered_set<K, H, E>;
  using Base::Base;
  template <typename Q> bool contains(const Q& q) const { return Base::find(q) != Base::end(); }
};
}
#endif
