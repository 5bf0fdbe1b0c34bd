#ifndef MINIABSL_SRC_LOC_H_
#define MINIABSL_SRC_LOC_H_
#include <cstdint>
namespace absl {
struct SourceLocation { static constexpr SourceLocation current() { return {}; } uint32_t line() const { return 0; } const char* file_name() const { return ""; } };
}
#endif
