#ifndef COMPAT_ABSL_HASH_HASH_H_
#define COMPAT_ABSL_HASH_HASH_H_
#include <array>
#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "absl/strings/string_view.h"
namespace absl {
namespace compat {
class HashState {
 public:
  uint64_t v = 0x9E3779B97F4A7C15ull;
  static HashState mix(HashState h, uint64_t x) { h.v = (h.v ^ x) * 0xff51afd7ed558ccdull; h.v ^= h.v >> 33; return h; }
  static HashState combine(HashState h) { return h; }
  template <typename T, typename... R> static HashState combine(HashState h, const T& t, const R&... r) { return combine(One(h, t), r...); }
  template <typename T> static HashState combine_contiguous(HashState h, const T* p, size_t n) { for (size_t i = 0; i < n; ++i) h = One(h, p[i]); return h; }
 private:
  template <typename T> static constexpr bool HasADL() { return requires(HashState h, const T& t) { { AbslHashValue(std::move(h), t) } -> std::same_as<HashState>; }; }
  template <typename A, typename B> static HashState Std(HashState h, const std::pair<A, B>& p) { return combine(h, p.first, p.second); }
  template <typename... A> static HashState Std(HashState h, const std::tuple<A...>& p) { return std::apply([&](const auto&... e) { return combine(h, e...); }, p); }
  template <typename T> static HashState Std(HashState h, const std::optional<T>& o) { return o ? combine(h, *o, true) : combine(h, false); }
  template <typename... A> static HashState Std(HashState h, const std::variant<A...>& o) {
    if (o.valueless_by_exception()) return combine(h, -1);
    return std::visit([&](const auto& e) { return combine(h, e, o.index()); }, o);
  }
  static HashState Std(HashState h, const std::monostate&) { return combine(h, 1); }
  template <typename T, typename D> static HashState Std(HashState h, const std::unique_ptr<T, D>& p) { return mix(h, uint64_t(p.get())); }
  template <typename T> static HashState Std(HashState h, const std::shared_ptr<T>& p) { return mix(h, uint64_t(p.get())); }
  template <typename R> static auto Std(HashState h, const R& r) -> decltype(r.begin(), r.end(), HashState()) {
    size_t n = 0; for (const auto& e : r) { h = One(h, e); ++n; } return mix(h, n);
  }
  template <typename T> static HashState One(HashState h, const T& t) {
    if constexpr (HasADL<T>()) return AbslHashValue(std::move(h), t);
    else if constexpr (std::is_enum_v<T>) return mix(h, uint64_t(t));
    else if constexpr (std::is_integral_v<T>) return mix(h, uint64_t(t));
    else if constexpr (std::is_floating_point_v<T>) return mix(h, std::hash<T>()(t == 0 ? T(0) : t));
    else if constexpr (std::is_convertible_v<const T&, string_view>) return mix(h, std::hash<string_view>()(t));
    else if constexpr (std::is_pointer_v<T>) return mix(h, uint64_t(t));
    else return Std(h, t);
  }
};
}
template <typename T> struct Hash {
  using is_transparent = void;
  template <typename U> size_t operator()(const U& t) const {
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, string_view>) return compat::HashState::combine(compat::HashState(), string_view(t)).v;
    else return compat::HashState::combine(compat::HashState(), t).v;
  }
};
template <typename... A> size_t HashOf(const A&... a) { return compat::HashState::combine(compat::HashState(), a...).v; }
}
#endif
