#ifndef COMPAT_ABSL_LOG_ABSL_LOG_H_
#define COMPAT_ABSL_LOG_ABSL_LOG_H_
#include "absl/log/absl_check.h"
#define COMPAT_SEV_INFO false
#define COMPAT_SEV_WARNING false
#define COMPAT_SEV_ERROR false
#define COMPAT_SEV_FATAL true
#define COMPAT_SEV_DFATAL true
#define ABSL_LOG(s) ::absl::compat::LogMessage(COMPAT_SEV_##s, __FILE__, __LINE__, #s)
#define ABSL_LOG_IF(s, c) !(c) ? (void)0 : ::absl::compat::Voidify() && ABSL_LOG(s)
#define ABSL_DLOG(s) ABSL_LOG(s)
#endif
