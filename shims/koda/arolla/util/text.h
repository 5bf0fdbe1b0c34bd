#ifndef SHIM_AROLLA_TEXT_H_
#define SHIM_AROLLA_TEXT_H_
#include <string>
#include <string_view>
namespace arolla {
class Text {
 public:
  Text() = default;
  explicit Text(std::string s) : s_(std::move(s)) {}
  explicit Text(std::string_view s) : s_(s) {}
  explicit Text(const char* s) : s_(s) {}
  std::string_view view() const { return s_; }
  operator std::string_view() const { return s_; }
  friend bool operator==(const Text& a, const Text& b) { return a.s_ == b.s_; }
 private:
  std::string s_;
};
using Bytes = std::string;
}
#include "arolla/qtype/qtype.h"
namespace arolla { SHIM_SIMPLE_TYPE("TEXT", Text) }
#endif
