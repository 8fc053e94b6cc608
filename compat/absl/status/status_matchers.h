#ifndef COMPAT_ABSL_STATUS_STATUS_MATCHERS_H_
#define COMPAT_ABSL_STATUS_STATUS_MATCHERS_H_
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "gmock/gmock.h"
#include "gtest/gtest.h"
namespace absl_testing {
MATCHER(IsOk, "") { return arg.ok(); }
MATCHER_P(StatusIs, code, "") { return ::absl::compat::StatusOf(arg).code() == code; }
MATCHER_P2(StatusIs, code, m, "") { return ::absl::compat::StatusOf(arg).code() == code && ::testing::ExplainMatchResult(m, std::string(::absl::compat::StatusOf(arg).message()), result_listener); }
MATCHER_P(IsOkAndHolds, m, "") { return arg.ok() && ::testing::ExplainMatchResult(m, *arg, result_listener); }
}
#endif
