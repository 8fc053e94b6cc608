#include "absl/strings/str_cat.h"
namespace absl { template <typename T> using HasAbslStringify = compat::HasStringify<T>; }
