#ifndef SHIM_DC_D2S_H_
#define SHIM_DC_D2S_H_
#include <charconv>
#include <cmath>
#include "double-conversion/utils.h"
namespace double_conversion {
class DoubleToStringConverter {
 public:
  enum Flags { NO_FLAGS = 0, EMIT_POSITIVE_EXPONENT_SIGN = 1, EMIT_TRAILING_DECIMAL_POINT = 2, EMIT_TRAILING_ZERO_AFTER_POINT = 4, UNIQUE_ZERO = 8 };
  template <typename... A> explicit DoubleToStringConverter(A...) {}
  bool ToShortest(double v, StringBuilder* b) const { return Put(v, b); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return Put(v, b); }
 private:
  template <typename T> static bool Put(T v, StringBuilder* b) {
    if (std::isnan(v)) { b->Add("nan"); return true; }
    if (std::isinf(v)) { b->Add(v < 0 ? "-inf" : "inf"); return true; }
    char c[64];
    auto a = std::fabs(v);
    auto r = (a != 0 && (a >= 1e21 || a < 1e-6)) ? std::to_chars(c, c + 64, v, std::chars_format::scientific) : std::to_chars(c, c + 64, v, std::chars_format::fixed);
    std::string s(c, r.ptr);
    if (s.find_first_of(".e") == s.npos) s += ".0";
    b->Add(s);
    return true;
  }
};
}
#endif
