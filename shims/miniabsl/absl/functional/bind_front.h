#ifndef MINIABSL_BIND_FRONT_H_
#define MINIABSL_BIND_FRONT_H_
#include <functional>
namespace absl { using std::bind_front; }
#endif
