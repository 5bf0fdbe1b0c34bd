#ifndef CORE_AROLLA_DENSE_ARRAY_H_
#define CORE_AROLLA_DENSE_ARRAY_H_
#include <cstdint>
#include <initializer_list>
#include <optional>
#include <ostream>
#include <type_traits>
#include <utility>
#include <vector>
#include "arolla/dense_array/bitmap.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/iterator.h"
#include "arolla/util/repr.h"
#include "arolla/util/view_types.h"
namespace arolla {
template <typename T> struct DenseArray {
  using base_type = T; using value_type = OptionalValue<view_type_t<T>>; using size_type = int64_t; using difference_type = int64_t;
  using const_iterator = ConstArrayIterator<DenseArray>; using offset_type = int64_t;
  int64_t size() const { return values.size(); }
  bool empty() const { return values.empty(); }
  bool IsAllMissing() const { return PresentCount() == 0; }
  bool IsAllPresent() const { return bitmap.empty() || PresentCount() == size(); }
  bool IsFull() const { return IsAllPresent(); }
  int64_t PresentCount() const { return bitmap::CountBits(bitmap, bitmap_bit_offset, size()); }
  bool present(int64_t i) const { return bitmap::GetBit(bitmap, i + bitmap_bit_offset); }
  OptionalValue<view_type_t<T>> operator[](int64_t i) const {
    if (present(i)) return OptionalValue<view_type_t<T>>(values[i]);
    return std::nullopt;
  }
  bool is_owned() const { return values.is_owner() && (bitmap.empty() || bitmap.is_owner()); }
  DenseArray MakeOwned(RawBufferFactory* = nullptr) const { return {values.is_owner() ? values : values.DeepCopy(), bitmap.is_owner() ? bitmap : bitmap.DeepCopy(), bitmap_bit_offset}; }
  DenseArray MakeUnowned() const { return {values.MakeUnowned(), bitmap.MakeUnowned(), bitmap_bit_offset}; }
  DenseArray Slice(int64_t start, int64_t n) const {
    if (n == 0) return {};
    DenseArray r;
    r.values = values.Slice(start, n);
    if (!bitmap.empty()) {
      int64_t b = start + bitmap_bit_offset, w = b / bitmap::kWordBitCount;
      r.bitmap_bit_offset = (int)(b % bitmap::kWordBitCount);
      r.bitmap = bitmap.Slice(w, bitmap::BitmapSize(r.bitmap_bit_offset + n));
    }
    return r;
  }
  DenseArray ForceNoBitmapBitOffset(RawBufferFactory* = nullptr) && { return std::as_const(*this).ForceNoBitmapBitOffset(); }
  DenseArray ForceNoBitmapBitOffset(RawBufferFactory* = nullptr) const& {
    if (bitmap_bit_offset == 0) return *this;
    bitmap::Bitmap::Builder b(bitmap::BitmapSize(size()));
    auto s = b.GetMutableSpan();
    for (int64_t i = 0; i < size(); ++i) if (present(i)) bitmap::SetBit(s.data(), i);
    return {values, std::move(b).Build(), 0};
  }
  DenseArray<Unit> ToMask() const { return {VoidBuffer(size()), bitmap, bitmap_bit_offset}; }
  template <typename Fn> void ForEach(Fn&& fn) const { for (int64_t i = 0; i < size(); ++i) fn(i, present(i), values[i]); }
  template <typename Fn> void ForEachPresent(Fn&& fn) const { for (int64_t i = 0; i < size(); ++i) if (present(i)) fn(i, values[i]); }
  template <typename Fn> void ForEachByGroups(Fn init) const {
    if (bitmap.empty()) {
      auto fn = init(0);
      for (int64_t i = 0; i < size(); ++i) fn(i, true, values[i]);
    } else {
      bitmap::IterateByGroups(bitmap.begin(), bitmap_bit_offset, size(), [&](int64_t off) {
        return [this, fn = init(off), off](int i, bool p) mutable { fn(off + i, p, values[off + i]); };
      });
    }
  }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, size()); }
  bool CheckBitmapMatchesValues() const { return bitmap.empty() || (int64_t)bitmap.size() == bitmap::BitmapSize(values.size() + bitmap_bit_offset); }
  Buffer<T> values;
  bitmap::Bitmap bitmap;
  int bitmap_bit_offset = 0;
};
template <typename T> bool ArraysAreEquivalent(const DenseArray<T>& a, const DenseArray<T>& b) {
  if (a.size() != b.size()) return false;
  for (int64_t i = 0; i < a.size(); ++i) { auto x = a[i], y = b[i]; if (x.present != y.present || (x.present && !(x.value == y.value))) return false; }
  return true;
}
template <typename T> std::ostream& operator<<(std::ostream& o, const DenseArray<T>& a) { return o << "dense_array[" << a.size() << "]"; }
template <typename T> class DenseArrayBuilder {
 public:
  using base_type = T;
  explicit DenseArrayBuilder(int64_t n, RawBufferFactory* = nullptr) : n_(n), v_(n), b_(bitmap::BitmapSize(n)) {}
  template <typename V> void Set(int64_t i, const V& v) {
    if constexpr (std::is_same_v<V, std::nullopt_t>) { return; }
    else if constexpr (is_optional_v<V>) { if (v.present) Put(i, v.value); }
    else if constexpr (meta::is_wrapped_with_v<std::optional, V>) { if (v) Put(i, *v); }
    else Put(i, v);
  }
  template <typename V> void SetNConst(int64_t i, int64_t n, const V& v) { for (int64_t k = 0; k < n; ++k) Set(i + k, v); }
  template <typename V> void Add(int64_t i, const V& v) { Set(i, v); }
  DenseArray<T> Build() && { return std::move(*this).Build(n_); }
  DenseArray<T> Build(int64_t n) && { return {std::move(v_).Build(n), std::move(b_).Build(bitmap::BitmapSize(n)), 0}; }
 private:
  template <typename V> void Put(int64_t i, const V& v) {
    if constexpr (std::is_same_v<T, Unit>) v_.Set(i, Unit{}); else v_.Set(i, v);
    bitmap::SetBit(b_.GetMutableSpan().data(), i);
  }
  int64_t n_;
  typename Buffer<T>::Builder v_;
  bitmap::Bitmap::Builder b_;
};
template <typename T> DenseArray<T> CreateDenseArray(const std::vector<OptionalValue<T>>& d, RawBufferFactory* = nullptr) {
  DenseArrayBuilder<T> b(d.size());
  for (size_t i = 0; i < d.size(); ++i) b.Set(i, d[i]);
  return std::move(b).Build();
}
template <typename T, typename V> DenseArray<T> CreateDenseArray(const V& d, RawBufferFactory* = nullptr) {
  DenseArrayBuilder<T> b(d.size());
  size_t i = 0;
  for (auto& x : d) b.Set(i++, x);
  return std::move(b).Build();
}
template <typename T> DenseArray<T> CreateDenseArray(std::initializer_list<OptionalValue<T>> d) {
  DenseArrayBuilder<T> b(d.size());
  size_t i = 0;
  for (auto& x : d) b.Set(i++, x);
  return std::move(b).Build();
}
template <typename T, typename It> DenseArray<T> CreateDenseArray(It f, It l, RawBufferFactory* = nullptr) {
  DenseArrayBuilder<T> b(std::distance(f, l));
  for (size_t i = 0; f != l; ++f) b.Set(i++, *f);
  return std::move(b).Build();
}
template <typename T> DenseArray<T> CreateFullDenseArray(const std::vector<T>& d, RawBufferFactory* = nullptr) { return {Buffer<T>::Create(d.begin(), d.end())}; }
template <typename T> DenseArray<T> CreateFullDenseArray(std::initializer_list<T> d, RawBufferFactory* = nullptr) { return {Buffer<T>::Create(d.begin(), d.end())}; }
template <typename T, typename It> DenseArray<T> CreateFullDenseArray(It b, It e, RawBufferFactory* = nullptr) { return {Buffer<T>::Create(b, e)}; }
template <typename T> DenseArray<T> CreateConstDenseArray(int64_t n, view_type_t<T> v, RawBufferFactory* = nullptr) {
  typename Buffer<T>::Builder b(n);
  b.SetNConst(0, n, v);
  return {std::move(b).Build()};
}
template <typename T> DenseArray<T> CreateEmptyDenseArray(int64_t n, RawBufferFactory* = nullptr) {
  typename Buffer<T>::Builder b(n);
  if constexpr (!std::is_same_v<T, Unit> && !std::is_same_v<view_type_t<T>, std::string_view>) {}
  return {std::move(b).Build(), bitmap::CreateEmptyBitmap(n)};
}
template <typename T> struct FingerprintHasherTraits<DenseArray<T>> {
  void operator()(FingerprintHasher* h, const DenseArray<T>& a) const { h->Combine(a.size()); for (int64_t i = 0; i < a.size(); ++i) { h->Combine(a.present(i)); if (a.present(i)) h->Combine(a.values[i]); } }
};
}  // namespace arolla
#endif
