#ifndef MINIABSL_ESCAPING_H_
#define MINIABSL_ESCAPING_H_
#include <cstdio>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
namespace mini {
inline std::string CEsc(string_view s, bool hex, bool utf8) {
  std::string r; bool last_hex = false;
  for (unsigned char c : s) {
    bool is_hex = false; char b[8];
    switch (c) {
      case '\n': r += "\\n"; break; case '\r': r += "\\r"; break; case '\t': r += "\\t"; break;
      case '"': r += "\\\""; break; case '\'': r += "\\'"; break; case '\\': r += "\\\\"; break;
      default:
        if ((!utf8 || c < 0x80) && (c < 32 || c >= 127 || (last_hex && std::string("0123456789abcdefABCDEF").find((char)c) != std::string::npos))) {
          snprintf(b, sizeof b, hex ? "\\x%02x" : "\\%03o", c); r += b; is_hex = hex;
        } else r.push_back((char)c);
    }
    last_hex = is_hex;
  }
  return r;
}
}  // namespace mini
inline std::string CHexEscape(string_view s) { return mini::CEsc(s, true, false); }
inline std::string CEscape(string_view s) { return mini::CEsc(s, false, false); }
inline std::string Utf8SafeCHexEscape(string_view s) { return mini::CEsc(s, true, true); }
inline std::string Utf8SafeCEscape(string_view s) { return mini::CEsc(s, false, true); }
}  // namespace absl
#endif
