#ifndef MINIABSL_LOG_H_
#define MINIABSL_LOG_H_
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include "absl/log/check.h"
#include "absl/strings/str_cat.h"
namespace absl { namespace mini {
struct LogMsg {
  bool fatal; std::ostringstream o;
  explicit LogMsg(bool f) : fatal(f) {}
  ~LogMsg() { if (fatal) { fprintf(stderr, "FATAL: %s\n", o.str().c_str()); std::abort(); } }
  template <typename T> LogMsg& operator<<(const T& v) { if constexpr (requires { o << v; }) o << v; else o << StrCat(v); return *this; }
};
struct LogFatal : LogMsg { LogFatal() : LogMsg(true) {} [[noreturn]] ~LogFatal() { fprintf(stderr, "FATAL: %s\n", o.str().c_str()); std::abort(); } };
constexpr bool kF_FATAL = true, kF_DFATAL = false, kF_ERROR = false, kF_WARNING = false, kF_INFO = false, kF_QFATAL = true;
template <bool F> struct Pick { static LogMsg Make() { return LogMsg(false); } };
} }
#define MINI_LOG_FATAL ::absl::mini::LogFatal()
#define MINI_LOG_QFATAL ::absl::mini::LogFatal()
#define MINI_LOG_DFATAL ::absl::mini::LogMsg(false)
#define MINI_LOG_ERROR ::absl::mini::LogMsg(false)
#define MINI_LOG_WARNING ::absl::mini::LogMsg(false)
#define MINI_LOG_INFO ::absl::mini::LogMsg(false)
#define LOG(x) MINI_LOG_##x
#define DLOG(x) MINI_LOG_##x
#define VLOG(x) ::absl::mini::LogMsg(false)
#define LOG_IF(x, c) if (!(c)) {} else LOG(x)
#endif
