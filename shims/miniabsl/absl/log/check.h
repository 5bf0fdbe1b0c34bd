// Stand-in for absl/log/check.h (the installed abseil predates it).
#ifndef SHIM_ABSL_LOG_CHECK_H_
#define SHIM_ABSL_LOG_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include "absl/base/optimization.h"
struct ShimNullStream {
  template <typename T>
  const ShimNullStream& operator<<(const T&) const { return *this; }
};
struct ShimVoidify {
  void operator&&(const ShimNullStream&) const {}
};
struct ShimAbort {
  [[noreturn]] ~ShimAbort() { std::abort(); }
  template <typename T>
  const ShimAbort& operator<<(const T&) const { return *this; }
};
struct ShimVoidifyAbort {
  void operator&&(const ShimAbort&) const {}
};
#undef CHECK
#undef DCHECK
#define CHECK(c) (c) ? (void)0 : ShimVoidifyAbort() && ShimAbort()
#define QCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_OK(s) CHECK((s).ok())
// Debug checks are off, as in a release build.
#define DCHECK(c) (true || (c)) ? (void)0 : ShimVoidify() && ShimNullStream()
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#define DCHECK_OK(s) DCHECK((s).ok())
#endif
