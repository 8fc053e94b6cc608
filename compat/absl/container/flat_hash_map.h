#ifndef COMPAT_ABSL_CONTAINER_FLAT_HASH_MAP_H_
#define COMPAT_ABSL_CONTAINER_FLAT_HASH_MAP_H_
#include <functional>
#include <unordered_map>
#include "absl/hash/hash.h"
namespace absl {
template <typename K, typename V, typename H = Hash<K>, typename E = std::equal_to<>>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
 public:
  using Base = std::unordered_map<K, V, H, E>;
  using Base::Base;
  using Base::erase;
  template <typename Q> bool contains(const Q& q) const { return Base::find(q) != Base::end(); }
  template <typename Q = K> V& operator[](const Q& q) { if constexpr (std::is_same_v<Q, K>) return Base::operator[](q); else return Base::operator[](K(q)); }
  V& operator[](const K& q) { return Base::operator[](q); }
};
template <typename... A> using node_hash_map = flat_hash_map<A...>;
}
#endif
