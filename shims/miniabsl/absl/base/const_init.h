#ifndef MINIABSL_CONST_INIT_H_
#define MINIABSL_CONST_INIT_H_
namespace absl { enum ConstInitType { kConstInit }; }
#endif
