#ifndef CORE_AROLLA_RAW_BUFFER_FACTORY_H_
#define CORE_AROLLA_RAW_BUFFER_FACTORY_H_
#include <cstddef>
#include <memory>
#include <tuple>
namespace arolla {
using RawBufferPtr = std::shared_ptr<const void>;
class RawBufferFactory {};
inline RawBufferFactory* GetHeapBufferFactory() { static RawBufferFactory f; return &f; }
class UnsafeArenaBufferFactory : public RawBufferFactory { public: explicit UnsafeArenaBufferFactory(int64_t) {} };
}  // namespace arolla
#endif
