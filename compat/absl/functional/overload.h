#ifndef COMPAT_ABSL_FUNCTIONAL_OVERLOAD_H_
#define COMPAT_ABSL_FUNCTIONAL_OVERLOAD_H_
namespace absl {
template <typename... T> struct Overload : T... { using T::operator()...; };
template <typename... T> Overload(T...) -> Overload<T...>;
}
#endif
