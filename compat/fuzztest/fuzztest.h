#ifndef COMPAT_FUZZTEST_H_
#define COMPAT_FUZZTEST_H_
// Stub: lets ink's own unit tests compile here; FUZZ_TESTs are not run.
#include <vector>
#include "gtest/gtest.h"
namespace fuzztest {
struct AnyDomain { template <typename... A> AnyDomain(const A&...) {} template <typename... A> AnyDomain WithMaxSize(A&&...) { return *this; } AnyDomain WithMinSize(int) { return *this; } AnyDomain WithSize(int) { return *this; } };
template <typename T> struct Domain {};
struct Stub { template <typename... A> Stub WithDomains(const A&...) { return {}; } template <typename... A> Stub WithSeeds(const A&...) { return {}; } };
template <typename T> AnyDomain Arbitrary() { return {}; }
#define COMPAT_D(n) template <typename... A> AnyDomain n(const A&...) { return {}; } template <typename T, typename... A> AnyDomain n(const A&...) { return {}; }
COMPAT_D(InRange) COMPAT_D(Finite) COMPAT_D(NonNegative) COMPAT_D(Positive) COMPAT_D(ElementOf) COMPAT_D(VectorOf) COMPAT_D(Map) COMPAT_D(FlatMap)
COMPAT_D(PairOf) COMPAT_D(TupleOf) COMPAT_D(StructOf) COMPAT_D(OneOf) COMPAT_D(Just) COMPAT_D(Filter) COMPAT_D(ArrayOf) COMPAT_D(OptionalOf) COMPAT_D(VariantOf) COMPAT_D(NonZero) COMPAT_D(Negative) COMPAT_D(NonPositive) COMPAT_D(String) COMPAT_D(InRegexp)
}
#define FUZZ_TEST(a, b) [[maybe_unused]] static ::fuzztest::Stub a##_##b##_fz = true ? ::fuzztest::Stub() : ::fuzztest::Stub()
#endif
