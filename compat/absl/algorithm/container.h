#ifndef COMPAT_ABSL_ALGORITHM_CONTAINER_H_
#define COMPAT_ABSL_ALGORITHM_CONTAINER_H_
#include <algorithm>
#include <iterator>
#include <numeric>
#include <utility>
namespace absl {
#define COMPAT_C1(n) template <typename C, typename... A> auto c_##n(C&& c, A&&... a) { using std::begin; using std::end; return std::n(begin(c), end(c), std::forward<A>(a)...); }
COMPAT_C1(all_of) COMPAT_C1(any_of) COMPAT_C1(none_of) COMPAT_C1(find) COMPAT_C1(find_if) COMPAT_C1(find_if_not) COMPAT_C1(count) COMPAT_C1(count_if)
COMPAT_C1(copy) COMPAT_C1(copy_if) COMPAT_C1(copy_n) COMPAT_C1(fill) COMPAT_C1(generate) COMPAT_C1(reverse) COMPAT_C1(sort) COMPAT_C1(stable_sort)
COMPAT_C1(minmax_element) COMPAT_C1(max_element) COMPAT_C1(min_element) COMPAT_C1(accumulate) COMPAT_C1(iota) COMPAT_C1(for_each) COMPAT_C1(lower_bound)
COMPAT_C1(upper_bound) COMPAT_C1(binary_search) COMPAT_C1(is_sorted) COMPAT_C1(adjacent_find) COMPAT_C1(distance) COMPAT_C1(replace) COMPAT_C1(unique_copy) COMPAT_C1(partition) COMPAT_C1(move) COMPAT_C1(remove_copy_if) COMPAT_C1(equal_range)
#undef COMPAT_C1
template <typename C, typename D> bool c_equal(const C& c, const D& d) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d)); }
template <typename C, typename D, typename P> bool c_equal(const C& c, const D& d, P p) { return std::equal(std::begin(c), std::end(c), std::begin(d), std::end(d), p); }
template <typename C, typename O, typename F> O c_transform(const C& c, O o, F f) { return std::transform(std::begin(c), std::end(c), o, f); }
template <typename C, typename D, typename O, typename F> O c_transform(const C& c, const D& d, O o, F f) { return std::transform(std::begin(c), std::end(c), std::begin(d), o, f); }
template <typename C, typename T> bool c_contains(const C& c, const T& t) { return std::find(std::begin(c), std::end(c), t) != std::end(c); }
template <typename C, typename T> bool c_linear_search(const C& c, const T& t) { return c_contains(c, t); }
}
#endif
