#include <functional>
namespace absl { template <typename S> using AnyInvocable = std::function<S>; }
