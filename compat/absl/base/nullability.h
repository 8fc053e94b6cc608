#ifndef COMPAT_ABSL_BASE_NULLABILITY_H_
#define COMPAT_ABSL_BASE_NULLABILITY_H_
#include "absl/base/attributes.h"
namespace absl {
template <typename T> using Nonnull = T;
template <typename T> using Nullable = T;
template <typename T> using NullabilityUnknown = T;
}
#define absl_nonnull
#define absl_nullable
#endif
