#ifndef SHIM_DC_UTILS_H_
#define SHIM_DC_UTILS_H_
#include <string>
namespace double_conversion {
class StringBuilder { public: StringBuilder(char* b, int n) : b_(b), n_(n) {} void Add(const std::string& s) { s_ += s; } char* Finalize() { int k = 0; for (char c : s_) if (k < n_ - 1) b_[k++] = c; b_[k] = 0; return b_; } private: char* b_; int n_; std::string s_; };
}
#endif
