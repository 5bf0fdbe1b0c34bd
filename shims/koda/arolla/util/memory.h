#ifndef SHIM_AROLLA_MEMORY_H_
#define SHIM_AROLLA_MEMORY_H_
#include <cstdlib>
#include <memory>
#include <new>
namespace arolla {
struct AlignedDel { std::align_val_t a{1}; void operator()(void* p) const { ::operator delete(p, a); } };
using AlignedPtr = std::unique_ptr<void, AlignedDel>;
inline AlignedPtr AlignedAlloc(std::align_val_t a, size_t n) { return AlignedPtr(::operator new(n, a), AlignedDel{a}); }
}  // namespace arolla
#endif
