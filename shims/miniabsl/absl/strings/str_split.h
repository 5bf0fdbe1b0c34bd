#ifndef MINIABSL_STR_SPLIT_H_
#define MINIABSL_STR_SPLIT_H_
#include <string>
#include <vector>
#include "absl/strings/string_view.h"
namespace absl {
namespace mini {
struct SplitR {
  std::vector<string_view> v;
  auto begin() { return v.begin(); }
  auto end() { return v.end(); }
  operator std::vector<string_view>() const { return v; }
  operator std::vector<std::string>() const { return {v.begin(), v.end()}; }
};
}  // namespace mini
inline mini::SplitR StrSplit(string_view s, string_view d) {
  mini::SplitR r; size_t p = 0;
  for (size_t q; (q = s.find(d, p)) != s.npos; p = q + d.size()) r.v.push_back(s.substr(p, q - p));
  r.v.push_back(s.substr(p));
  return r;
}
inline mini::SplitR StrSplit(string_view s, char d) { return StrSplit(s, string_view(&d, 1)); }
}  // namespace absl
#endif
