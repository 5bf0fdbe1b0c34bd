#ifndef SHIM_KD_DTYPE_H_
#define SHIM_KD_DTYPE_H_
#include <string_view>
namespace koladata::schema {
struct SchemaTag { std::string_view n = "NONE"; friend bool operator==(const SchemaTag& a, const SchemaTag& b) { return a.n == b.n; } friend bool operator!=(const SchemaTag& a, const SchemaTag& b) { return a.n != b.n; } };
constexpr SchemaTag kMask{"MASK"}, kObject{"OBJECT"}, kNone{"NONE"}, kInt32{"INT32"}, kInt64{"INT64"}, kString{"STRING"}, kAny{"ANY"}, kSchema{"SCHEMA"}, kBool{"BOOLEAN"}, kFloat32{"FLOAT32"}, kBytes{"BYTES"};
}
#endif
