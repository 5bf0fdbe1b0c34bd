#ifndef CORE_AROLLA_TRACEME_H_
#define CORE_AROLLA_TRACEME_H_
namespace arolla::profiling { struct TraceMe { template <typename... A> explicit TraceMe(A&&...) {} ~TraceMe() {} }; }
#endif
