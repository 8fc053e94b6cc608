#ifndef COMPAT_ABSL_FUNCTIONAL_FUNCTION_REF_H_
#define COMPAT_ABSL_FUNCTIONAL_FUNCTION_REF_H_
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
template <typename S> class FunctionRef;
template <typename R, typename... A> class FunctionRef<R(A...)> {
 public:
  template <typename F, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, FunctionRef> && std::is_invocable_r_v<R, F&, A...>>>
  FunctionRef(F&& f) {
    if constexpr (std::is_function_v<std::remove_reference_t<F>>) {
      p_ = reinterpret_cast<void*>(&f);
      call_ = [](void* p, A... a) -> R { return (*reinterpret_cast<std::remove_reference_t<F>*>(p))(std::forward<A>(a)...); };
    } else {
      p_ = const_cast<void*>(static_cast<const void*>(std::addressof(f)));
      call_ = [](void* p, A... a) -> R { return std::invoke(*static_cast<std::remove_reference_t<F>*>(p), std::forward<A>(a)...); };
    }
  }
  R operator()(A... a) const { return call_(p_, std::forward<A>(a)...); }
 private:
  void* p_; R (*call_)(void*, A...);
};
}
#endif
