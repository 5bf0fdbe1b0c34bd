#ifndef CORE_AROLLA_TEXT_H_
#define CORE_AROLLA_TEXT_H_
#include <compare>
#include <cstddef>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
namespace arolla {
class Text {
 public:
  Text() = default;
  explicit Text(std::string s) : s_(std::move(s)) {}
  explicit Text(std::string_view s) : s_(s) {}
  explicit Text(const char* s) : s_(s) {}
  Text& operator=(std::string_view s) { s_.assign(s.data(), s.size()); return *this; }
  Text& operator=(const char* s) { s_ = s; return *this; }
  Text& operator=(std::string s) { s_ = std::move(s); return *this; }
  Text(const Text&) = default;
  Text(Text&&) = default;
  Text& operator=(const Text&) = default;
  Text& operator=(Text&&) = default;
  std::string_view view() const { return s_; }
  operator std::string_view() const { return s_; }
  size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  const char* data() const { return s_.data(); }
  friend bool operator==(const Text& a, const Text& b) { return a.s_ == b.s_; }
  friend bool operator==(const Text& a, const char* b) { return a.s_ == b; }
  friend std::strong_ordering operator<=>(const Text& a, const Text& b) { return a.s_ <=> b.s_; }
  template <typename H> friend H AbslHashValue(H h, const Text& t) { return H::combine(std::move(h), t.s_); }
  friend std::ostream& operator<<(std::ostream& o, const Text& t) { return o << "Text{" << t.s_ << "}"; }
 private:
  std::string s_;
};
}  // namespace arolla
#endif
