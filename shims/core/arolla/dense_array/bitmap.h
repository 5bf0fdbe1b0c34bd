#ifndef CORE_AROLLA_BITMAP_H_
#define CORE_AROLLA_BITMAP_H_
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <utility>
#include "absl/types/span.h"
#include "arolla/memory/buffer.h"
namespace arolla::bitmap {
using Word = uint32_t;
inline constexpr int kWordBitCount = 32;
inline constexpr Word kFullWord = ~Word(0);
using Bitmap = Buffer<Word>;
inline int64_t BitmapSize(int64_t bits) { return (bits + kWordBitCount - 1) / kWordBitCount; }
inline Word GetWord(const Bitmap& b, int64_t i) { return (int64_t)b.size() <= i ? kFullWord : b[i]; }
inline Word GetWordWithOffset(const Bitmap& b, int64_t i, int off) {
  if (i >= (int64_t)b.size()) return kFullWord;
  Word m = b[i] >> off;
  if (off == 0 || i + 1 == (int64_t)b.size()) return m;
  return m | (b[i + 1] << (kWordBitCount - off));
}
inline bool GetBit(Word w, int bit) { return w & (Word(1) << bit); }
inline bool GetBit(const Word* b, int64_t i) { return GetBit(b[(size_t)i / kWordBitCount], i & (kWordBitCount - 1)); }
inline bool GetBit(const Bitmap& b, int64_t i) { return b.empty() || GetBit(b.begin(), i); }
inline void SetBit(Word* b, int64_t i) { b[(size_t)i / kWordBitCount] |= Word(1) << (i & (kWordBitCount - 1)); }
inline void UnsetBit(Word* b, int64_t i) { b[(size_t)i / kWordBitCount] &= ~(Word(1) << (i & (kWordBitCount - 1))); }
inline void SetBitsInRange(Word* b, int64_t f, int64_t t) { for (; f < t; ++f) SetBit(b, f); }
template <typename Fn> void IterateWord(Word w, Fn&& fn, int n = kWordBitCount) { for (int i = 0; i < n; ++i) fn(i, GetBit(w, i)); }
template <typename Fn> void IterateByGroups(const Word* b, int64_t first, int64_t n, Fn&& init) {
  b += (size_t)first / kWordBitCount;
  int64_t off = first & (kWordBitCount - 1), g = 0;
  if (off > 0 && n > 0) {
    int k = (int)std::min<int64_t>(n, kWordBitCount - off);
    IterateWord(*(b++) >> off, init(g), k);
    g = k;
  }
  for (; g <= n - kWordBitCount; g += kWordBitCount) IterateWord(*(b++), init(g));
  if (g != n) IterateWord(*b, init(g), n - g);
}
template <typename Fn> void Iterate(const Bitmap& b, int64_t first, int64_t n, Fn&& fn) {
  if (b.empty()) { for (int64_t i = 0; i < n; ++i) fn(true); } else { for (int64_t i = 0; i < n; ++i) fn(GetBit(b.begin(), first + i)); }
}
inline int64_t CountBits(const Bitmap& b, int64_t first, int64_t n) {
  if (b.empty()) return n;
  int64_t c = 0;
  for (int64_t i = 0; i < n; ++i) c += GetBit(b.begin(), first + i);
  return c;
}
inline bool AreAllBitsSet(const Word* b, int64_t n) { for (int64_t i = 0; i < n; ++i) if (!GetBit(b, i)) return false; return true; }
inline bool AreAllBitsUnset(const Word* b, int64_t n) { for (int64_t i = 0; i < n; ++i) if (GetBit(b, i)) return false; return true; }
inline bool IsEmpty(const Bitmap& b) { return b.empty(); }
inline Bitmap CreateEmptyBitmap(int64_t n, RawBufferFactory* = nullptr) { return Bitmap::CreateFull(BitmapSize(n), 0); }
template <typename Fn> Bitmap MakeBitmap(int64_t n, Fn&& fn) { Bitmap::Builder b(BitmapSize(n)); auto s = b.GetMutableSpan(); for (int64_t i = 0; i < n; ++i) if (fn(i)) SetBit(s.data(), i); return std::move(b).Build(); }
// Builds from forward passes over groups of elements.
class Builder {
 public:
  explicit Builder(int64_t n, RawBufferFactory* = nullptr) : n_(n), b_(BitmapSize(n)) {}
  void AddByGroups(int64_t count, auto&& init) {
    auto s = b_.GetMutableSpan();
    for (int64_t g = 0; g < count; g += kWordBitCount) {
      auto fn = init(g);
      for (int64_t i = 0; i < std::min<int64_t>(kWordBitCount, count - g); ++i) Put(s, fn(g + i));
    }
  }
  template <typename Fn> void AddForEach(int64_t n, Fn&& fn) { auto s = b_.GetMutableSpan(); for (int64_t i = 0; i < n; ++i) Put(s, fn(i)); }
  template <typename C, typename Fn> void AddForEach(const C& c, Fn&& fn) { auto s = b_.GetMutableSpan(); for (auto&& x : c) Put(s, fn(x)); }
  Bitmap Build() && { if (all_) return Bitmap(); return std::move(b_).Build(); }
 private:
  template <typename S> void Put(S& s, bool v) { if (v) SetBit(s.data(), at_); else all_ = false; ++at_; }
  int64_t n_, at_ = 0;
  bool all_ = true;
  Bitmap::Builder b_;
};
class AlmostFullBuilder {
 public:
  explicit AlmostFullBuilder(int64_t n, RawBufferFactory* = nullptr) : n_(n) {}
  void AddMissed(int64_t i) { Init(); UnsetBit(b_.GetMutableSpan().data(), i); }
  Bitmap Build() && { if (!init_) return Bitmap(); return std::move(b_).Build(); }
  Bitmap Build(int64_t n) && { if (!init_) return Bitmap(); return std::move(b_).Build(BitmapSize(n)); }
 private:
  void Init() { if (!init_) { init_ = true; b_ = Bitmap::Builder(BitmapSize(n_)); b_.SetNConst(0, BitmapSize(n_), kFullWord);
    if (int k = n_ % kWordBitCount) b_.GetMutableSpan()[BitmapSize(n_) - 1] = (Word(1) << k) - 1; } }
  int64_t n_; bool init_ = false;
  Bitmap::Builder b_;
};
}  // namespace arolla::bitmap
#endif
