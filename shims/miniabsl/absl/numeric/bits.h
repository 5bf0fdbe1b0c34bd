#ifndef MINIABSL_BITS_H_
#define MINIABSL_BITS_H_
#include <bit>
namespace absl {
using std::bit_ceil; using std::bit_floor; using std::bit_width; using std::countl_one; using std::countl_zero; using std::countr_one;
using std::countr_zero; using std::has_single_bit; using std::popcount; using std::rotl; using std::rotr;
}
#endif
