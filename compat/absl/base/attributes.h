#ifndef COMPAT_ABSL_BASE_ATTRIBUTES_H_
#define COMPAT_ABSL_BASE_ATTRIBUTES_H_
// Minimal stand-in for the parts of Abseil that ink uses (see /verif/DESIGN.md).
#define ABSL_MUST_USE_RESULT
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_UNUSED __attribute__((unused))
#define ABSL_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_CONST_INIT
#define ABSL_ATTRIBUTE_REINITIALIZES
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_HAVE_THREAD_LOCAL 1
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_DEPRECATED(m)
#endif
