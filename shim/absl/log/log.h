#ifndef SHIM_ABSL_LOG_LOG_H_
#define SHIM_ABSL_LOG_LOG_H_
#include "absl/log/check.h"
#define SHIM_LOG_INFO ::shim_log::Log(__FILE__, __LINE__, "I")
#define SHIM_LOG_WARNING ::shim_log::Log(__FILE__, __LINE__, "W")
#define SHIM_LOG_ERROR ::shim_log::Log(__FILE__, __LINE__, "E")
#define SHIM_LOG_FATAL ::shim_log::Fatal(__FILE__, __LINE__, "FATAL")
#ifdef NDEBUG
#define SHIM_LOG_DFATAL ::shim_log::Log(__FILE__, __LINE__, "E")
#else
#define SHIM_LOG_DFATAL ::shim_log::Fatal(__FILE__, __LINE__, "DFATAL")
#endif
#define LOG(sev) SHIM_LOG_##sev
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)
#define LOG_IF(sev, c) if (!(c)) {} else LOG(sev)
#define VLOG(n) while (false) ::shim_log::Null()
#define DLOG(sev) while (false) ::shim_log::Null()
#define VLOG_IS_ON(n) false
#endif
