// arolla::Buffer: immutable, reference-counted (or unowned) arrays of values, of strings, and of units.
#ifndef CORE_AROLLA_BUFFER_H_
#define CORE_AROLLA_BUFFER_H_
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "arolla/memory/optional_value.h"
#include "arolla/memory/raw_buffer_factory.h"
#include "arolla/util/bytes.h"
#include "arolla/util/iterator.h"
#include "arolla/util/text.h"
#include "arolla/util/unit.h"
#include "arolla/util/view_types.h"
namespace arolla {
template <typename T> class SimpleBuffer {
 public:
  using value_type = T; using size_type = int64_t; using difference_type = int64_t; using offset_type = int64_t;
  using const_iterator = const T*; using iterator = const T*; using reference = const T&; using const_reference = const T&;
  SimpleBuffer() = default;
  SimpleBuffer(RawBufferPtr h, absl::Span<const T> s) : h_(std::move(h)), s_(s) {}
  template <typename It> static SimpleBuffer Create(It b, It e, RawBufferFactory* = nullptr) {
    Builder r(std::distance(b, e));
    std::copy(b, e, r.GetMutableSpan().begin());
    return std::move(r).Build();
  }
  static SimpleBuffer Create(std::initializer_list<T> l, RawBufferFactory* = nullptr) { return Create(l.begin(), l.end()); }
  static SimpleBuffer Create(std::vector<T>&& v) { return Create(v.begin(), v.end()); }
  static SimpleBuffer CreateUninitialized(size_t n, RawBufferFactory* = nullptr) { return std::move(Builder(n)).Build(); }
  static SimpleBuffer CreateFull(int64_t n, const T& v, RawBufferFactory* = nullptr) { Builder b(n); b.SetN(0, n, v); return std::move(b).Build(); }
  absl::Span<const T> span() const { return s_; }
  const T* data() const { return s_.data(); }
  size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  bool is_owner() const { return h_ != nullptr; }
  const RawBufferPtr& owner() const { return h_; }
  size_t memory_usage() const { return sizeof(T) * s_.size(); }
  const T& operator[](size_t i) const { return s_[i]; }
  const T& front() const { return s_.front(); }
  const T& back() const { return s_.back(); }
  const T* begin() const { return s_.begin(); }
  const T* end() const { return s_.end(); }
  SimpleBuffer ShallowCopy() const { return SimpleBuffer(h_, s_); }
  SimpleBuffer MakeUnowned() const { return SimpleBuffer(nullptr, s_); }
  SimpleBuffer DeepCopy(RawBufferFactory* = nullptr) const { return Create(begin(), end()); }
  SimpleBuffer Slice(size_t o) const { return Slice(o, size() - o); }
  SimpleBuffer Slice(size_t o, size_t n) const { return SimpleBuffer(n ? h_ : nullptr, s_.subspan(o, n)); }
  friend bool operator==(const SimpleBuffer& a, const SimpleBuffer& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : n_(n), p_(std::shared_ptr<T[]>(new T[n ? n : 1]())) {}
    absl::Span<T> GetMutableSpan() { return absl::Span<T>(p_.get(), n_); }
    void Set(int64_t i, T v) { p_[i] = std::move(v); }
    template <typename G> void SetN(int64_t f, int64_t n, G&& v) {
      if constexpr (std::is_invocable_v<G>) { for (int64_t i = 0; i < n; ++i) p_[f + i] = v(); } else { std::fill_n(p_.get() + f, n, v); }
    }
    template <typename G> void SetNConst(int64_t f, int64_t n, const G& v) { std::fill_n(p_.get() + f, n, v); }
    void Copy(int64_t from, int64_t to) { p_[to] = p_[from]; }
    class Inserter {
     public:
      void Add(T v) { *p_++ = std::move(v); }
      void SkipN(int64_t n) { p_ += n; }
     private:
      friend class Builder;
      explicit Inserter(T* p) : p_(p) {}
      T* p_;
      friend class SimpleBuffer;
    };
    Inserter GetInserter(int64_t o = 0) { return Inserter(p_.get() + o); }
    SimpleBuffer Build(const Inserter& i) && { return std::move(*this).Build(i.p_ - p_.get()); }
    SimpleBuffer Build() && { return std::move(*this).Build(n_); }
    SimpleBuffer Build(int64_t n) && { T* raw = p_.get(); std::shared_ptr<T[]> k = std::move(p_); return SimpleBuffer(RawBufferPtr(k, (const void*)raw), absl::Span<const T>(raw, n)); }
   private:
    int64_t n_ = 0;
    std::shared_ptr<T[]> p_;
  };
  class ReshuffleBuilder {
   public:
    explicit ReshuffleBuilder(int64_t n, const SimpleBuffer& src, const OptionalValue<T>& d, RawBufferFactory* = nullptr) : b_(n), src_(src) { if (d.present) b_.SetNConst(0, n, d.value); }
    void CopyValue(int64_t to, int64_t from) { b_.Set(to, src_[from]); }
    void CopyValueToRange(int64_t f, int64_t t, int64_t from) { b_.SetNConst(f, t - f, src_[from]); }
    SimpleBuffer Build() && { return std::move(b_).Build(); }
    SimpleBuffer Build(int64_t n) && { return std::move(b_).Build(n); }
   private:
    Builder b_; SimpleBuffer src_;
  };
 private:
  RawBufferPtr h_;
  absl::Span<const T> s_;
};
// Strings as pairs of offsets into one array of characters.
class StringsBuffer {
 public:
  using value_type = std::string_view; using size_type = int64_t; using difference_type = int64_t; using offset_type = int64_t;
  using const_iterator = ConstArrayIterator<StringsBuffer>; using iterator = const_iterator;
  struct Offsets { int64_t start = 0, end = 0; };
  StringsBuffer() = default;
  StringsBuffer(SimpleBuffer<Offsets> o, SimpleBuffer<char> c, int64_t base = 0) : o_(std::move(o)), c_(std::move(c)), base_(base) {}
  template <typename It> static StringsBuffer Create(It b, It e, RawBufferFactory* = nullptr) {
    Builder r(std::distance(b, e));
    int64_t i = 0;
    for (; b != e; ++b) r.Set(i++, std::string_view(*b));
    return std::move(r).Build();
  }
  static StringsBuffer Create(std::initializer_list<std::string_view> l) { return Create(l.begin(), l.end()); }
  size_t size() const { return o_.size(); }
  bool empty() const { return o_.empty(); }
  bool is_owner() const { return o_.is_owner() && c_.is_owner(); }
  size_t memory_usage() const { return o_.memory_usage() + c_.memory_usage(); }
  std::string_view operator[](size_t i) const { auto& o = o_[i]; return std::string_view(c_.data() + (o.start - base_), o.end - o.start); }
  std::string_view front() const { return (*this)[0]; }
  std::string_view back() const { return (*this)[size() - 1]; }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, size()); }
  const SimpleBuffer<Offsets>& offsets() const { return o_; }
  const SimpleBuffer<char>& characters() const { return c_; }
  int64_t base_offset() const { return base_; }
  StringsBuffer MakeUnowned() const { return StringsBuffer(o_.MakeUnowned(), c_.MakeUnowned(), base_); }
  StringsBuffer ShallowCopy() const { return *this; }
  StringsBuffer DeepCopy(RawBufferFactory* = nullptr) const { return Create(begin(), end()); }
  StringsBuffer Slice(size_t o) const { return Slice(o, size() - o); }
  StringsBuffer Slice(size_t o, size_t n) const { return StringsBuffer(o_.Slice(o, n), c_, base_); }
  friend bool operator==(const StringsBuffer& a, const StringsBuffer& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : o_(n) {}
    explicit Builder(int64_t n, int64_t, RawBufferFactory* = nullptr) : o_(n) {}
    void Set(int64_t i, std::string_view v) { o_[i] = {(int64_t)c_.size(), (int64_t)(c_.size() + v.size())}; c_.append(v); }
    void SetNConst(int64_t f, int64_t n, std::string_view v) { for (int64_t i = 0; i < n; ++i) Set(f + i, v); }
    void Copy(int64_t from, int64_t to) { o_[to] = o_[from]; }
    class Inserter {
     public:
      void Add(std::string_view v) { b_->Set(i_++, v); }
      void SkipN(int64_t n) { i_ += n; }
     private:
      friend class Builder;
      Inserter(Builder* b, int64_t i) : b_(b), i_(i) {}
      Builder* b_; int64_t i_;
    };
    Inserter GetInserter(int64_t o = 0) { return Inserter(this, o); }
    StringsBuffer Build(const Inserter& i) && { return std::move(*this).Build(i.i_); }
    StringsBuffer Build() && { return std::move(*this).Build((int64_t)o_.size()); }
    StringsBuffer Build(int64_t n) && { return StringsBuffer(SimpleBuffer<Offsets>::Create(o_.begin(), o_.begin() + n), SimpleBuffer<char>::Create(c_.begin(), c_.end())); }
   private:
    std::vector<Offsets> o_;
    std::string c_;
  };
  class ReshuffleBuilder;
 private:
  SimpleBuffer<Offsets> o_;
  SimpleBuffer<char> c_;
  int64_t base_ = 0;
};
class StringsBuffer::ReshuffleBuilder {
   public:
    explicit ReshuffleBuilder(int64_t n, const StringsBuffer& src, const OptionalValue<std::string_view>& d, RawBufferFactory* = nullptr) : b_(n), src_(src) { if (d.present) b_.SetNConst(0, n, d.value); }
    void CopyValue(int64_t to, int64_t from) { b_.Set(to, src_[from]); }
    void CopyValueToRange(int64_t f, int64_t t, int64_t from) { b_.SetNConst(f, t - f, src_[from]); }
    StringsBuffer Build() && { return std::move(b_).Build(); }
    StringsBuffer Build(int64_t n) && { return std::move(b_).Build(n); }
   private:
    Builder b_; StringsBuffer src_;
  };
class VoidBuffer {
 public:
  using value_type = Unit; using size_type = int64_t; using difference_type = int64_t; using offset_type = int64_t;
  using const_iterator = ConstArrayIterator<VoidBuffer>; using iterator = const_iterator;
  VoidBuffer() = default;
  explicit VoidBuffer(int64_t n) : n_(n) {}
  template <typename It> static VoidBuffer Create(It b, It e, RawBufferFactory* = nullptr) { return VoidBuffer(std::distance(b, e)); }
  static VoidBuffer Create(std::initializer_list<Unit> l) { return VoidBuffer(l.size()); }
  static VoidBuffer CreateUninitialized(size_t n, RawBufferFactory* = nullptr) { return VoidBuffer(n); }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  bool is_owner() const { return true; }
  size_t memory_usage() const { return 0; }
  Unit operator[](size_t) const { return Unit{}; }
  Unit front() const { return {}; }
  Unit back() const { return {}; }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, n_); }
  VoidBuffer MakeUnowned() const { return *this; }
  VoidBuffer ShallowCopy() const { return *this; }
  VoidBuffer DeepCopy(RawBufferFactory* = nullptr) const { return *this; }
  VoidBuffer Slice(size_t o) const { return VoidBuffer(n_ - o); }
  VoidBuffer Slice(size_t, size_t n) const { return VoidBuffer(n); }
  friend bool operator==(const VoidBuffer& a, const VoidBuffer& b) { return a.n_ == b.n_; }
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : n_(n) {}
    void Set(int64_t, Unit) {}
    void SetNConst(int64_t, int64_t, Unit) {}
    void Copy(int64_t, int64_t) {}
    struct Inserter { int64_t n = 0; void Add(Unit) { ++n; } void SkipN(int64_t k) { n += k; } };
    Inserter GetInserter(int64_t o = 0) { return Inserter{o}; }
    VoidBuffer Build(const Inserter& i) && { return VoidBuffer(i.n); }
    VoidBuffer Build() && { return VoidBuffer(n_); }
    VoidBuffer Build(int64_t n) && { return VoidBuffer(n); }
   private:
    int64_t n_ = 0;
  };
  class ReshuffleBuilder {
   public:
    explicit ReshuffleBuilder(int64_t n, const VoidBuffer&, const OptionalUnit&, RawBufferFactory* = nullptr) : n_(n) {}
    void CopyValue(int64_t, int64_t) {}
    void CopyValueToRange(int64_t, int64_t, int64_t) {}
    VoidBuffer Build() && { return VoidBuffer(n_); }
    VoidBuffer Build(int64_t n) && { return VoidBuffer(n); }
   private:
    int64_t n_;
  };
 private:
  int64_t n_ = 0;
};
template <typename T> struct BufferTraits { using type = SimpleBuffer<T>; };
template <> struct BufferTraits<Unit> { using type = VoidBuffer; };
template <> struct BufferTraits<Text> { using type = StringsBuffer; };
template <> struct BufferTraits<std::string> { using type = StringsBuffer; };
template <> struct BufferTraits<std::string_view> { using type = StringsBuffer; };
template <typename T> using Buffer = typename BufferTraits<T>::type;
template <typename T> Buffer<T> CreateBuffer(std::initializer_list<T> l) { return Buffer<T>::Create(l.begin(), l.end()); }
template <typename T> Buffer<T> CreateBuffer(const std::vector<T>& l) { return Buffer<T>::Create(l.begin(), l.end()); }
}  // namespace arolla
#endif
