#include <vector>
namespace absl { template <typename T> using FixedArray = std::vector<T>; }
