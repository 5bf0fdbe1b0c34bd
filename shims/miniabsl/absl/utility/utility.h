#ifndef MINIABSL_UTILITY_H_
#define MINIABSL_UTILITY_H_
#include <utility>
namespace absl { using std::exchange; using std::move; using std::forward; using std::in_place_t; using std::in_place; }
#endif
