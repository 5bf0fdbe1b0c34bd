// A miniature of arolla's runtime type system: types, references, reference-counted values, tuples, named tuples, labelled types,
// slots and frames.  All in one header; the other headers of this directory include it.
#ifndef SHIM_AROLLA_QTYPE_H_
#define SHIM_AROLLA_QTYPE_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include "arolla/util/shim_lock.h"
#include <new>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#include "absl/base/attributes.h"
#include "absl/base/no_destructor.h"
#include "absl/base/nullability.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "arolla/util/fingerprint.h"
#include "arolla/util/meta.h"
#include "arolla/util/repr.h"
#include "arolla/util/unit.h"
namespace arolla {
class QType;
using QTypePtr = const QType*;
struct TypeOps {
  void (*init)(void*) = nullptr;
  void (*destroy)(void*) = nullptr;
  void (*copy)(const void*, void*) = nullptr;   // assignment
};
template <typename T> const TypeOps* OpsOf() {
  static constexpr TypeOps ops{[](void* p) { new (p) T(); }, [](void* p) { static_cast<T*>(p)->~T(); },
                               [](const void* a, void* b) { *static_cast<T*>(b) = *static_cast<const T*>(a); }};
  return &ops;
}
class FieldSlot;
class TypeLayout {
 public:
  size_t size = 0, align = 1;
  const QType* t = nullptr;
  size_t AllocSize() const { return size; }
  std::align_val_t AllocAlignmentVal() const { return std::align_val_t{align}; }
  size_t AllocAlignment() const { return align; }
  inline void InitializeAlignedAlloc(void* p) const { InitializeAlignedAllocN(p, 1); }
  inline void InitializeAlignedAllocN(void* p, size_t n) const;
  inline void DestroyAlloc(void* p) const { DestroyAllocN(p, 1); }
  inline void DestroyAllocN(void* p, size_t n) const;
};
using FrameLayout = TypeLayout;
class TypedRef;
class TypedValue;
class TypedSlot;
struct FramePtr;
struct ConstFramePtr;

class QType {
 public:
  QType(std::string name, size_t size, size_t align, const TypeOps* ops, const std::type_info* ti, QTypePtr value_qtype)
      : name_(std::move(name)), ops_(ops), ti_(ti), value_qtype_(value_qtype) { layout_.size = size; layout_.align = align; layout_.t = this; }
  virtual ~QType() = default;
  QType(const QType&) = delete;
  absl::string_view name() const { return name_; }
  const std::type_info& type_info() const { return *ti_; }
  const TypeLayout& type_layout() const { return layout_; }
  QTypePtr value_qtype() const { return value_qtype_; }
  virtual void Init(void* p) const { ops_->init(p); }
  virtual void Destroy(void* p) const { ops_->destroy(p); }
  void UnsafeCopy(const void* a, void* b) const { if (a != b) Copy(a, b); }
  virtual void Copy(const void* a, void* b) const { ops_->copy(a, b); }
  inline const std::vector<TypedSlot>& type_fields() const { return fields_; }
  const std::vector<std::string>& field_names() const { return names_; }
  const std::string& label() const { return label_; }
  QTypePtr base() const { return base_; }
 protected:
  std::string name_;
  TypeLayout layout_;
  const TypeOps* ops_;
  const std::type_info* ti_;
  QTypePtr value_qtype_ = nullptr;
  std::vector<TypedSlot> fields_;
  std::vector<std::string> names_;
  std::string label_;
  QTypePtr base_ = nullptr;
};
void TypeLayout::InitializeAlignedAllocN(void* p, size_t n) const { for (size_t i = 0; i < n; ++i) t->Init((char*)p + i * size); }
void TypeLayout::DestroyAllocN(void* p, size_t n) const { for (size_t i = 0; i < n; ++i) t->Destroy((char*)p + i * size); }

class SimpleQType : public QType {
 public:
  template <typename T>
  SimpleQType(meta::type_<T>, std::string name, QTypePtr value_qtype = nullptr, std::string key = "")
      : QType(std::move(name), std::is_empty_v<T> ? 0 : sizeof(T), alignof(T), OpsOf<T>(), &typeid(T), value_qtype) {}
};
template <typename T> struct QTypeTraits;
template <typename T> QTypePtr GetQType() { return QTypeTraits<T>::type(); }

template <typename T>
struct Slot {
  size_t offset = 0;
  size_t byte_offset() const { return offset; }
};
class TypedSlot {
 public:
  template <typename T> using Slot = arolla::Slot<T>;
  TypedSlot(QTypePtr t, size_t o) : t_(t), o_(o) {}
  QTypePtr GetType() const { return t_; }
  size_t byte_offset() const { return o_; }
  template <typename T> arolla::Slot<T> UnsafeToSlot() const { return {o_}; }
  template <typename T> absl::StatusOr<arolla::Slot<T>> ToSlot() const { return arolla::Slot<T>{o_}; }
  int64_t SubSlotCount() const { return (int64_t)t_->type_fields().size(); }
  TypedSlot SubSlot(int64_t i) const { auto& f = t_->type_fields()[i]; return TypedSlot(f.t_, o_ + f.o_); }
 private:
  QTypePtr t_;
  size_t o_;
};
struct ConstFramePtr {
  const char* p = nullptr;
  template <typename T> const T& Get(Slot<T> s) const { return *reinterpret_cast<const T*>(p + s.offset); }
  const void* GetRawPointer(size_t o) const { return p + o; }
};
struct FramePtr {
  char* p = nullptr;
  template <typename T> const T& Get(Slot<T> s) const { return *reinterpret_cast<const T*>(p + s.offset); }
  template <typename T> T* GetMutable(Slot<T> s) const { return reinterpret_cast<T*>(p + s.offset); }
  template <typename T, typename U> void Set(Slot<T> s, U&& v) const { *GetMutable(s) = std::forward<U>(v); }
  void* GetRawPointer(size_t o) const { return p + o; }
  operator ConstFramePtr() const { return {p}; }
};

class TypedRef {
 public:
  TypedRef() = delete;
  static TypedRef UnsafeFromRawPointer(QTypePtr t, const void* p) { return TypedRef(t, p); }
  template <typename T> static TypedRef FromValue(const T& v) { return TypedRef(GetQType<T>(), &v); }
  template <typename T> static absl::StatusOr<TypedRef> FromValue(const T& v, QTypePtr t) { return TypedRef(t, &v); }
  static TypedRef FromSlot(TypedSlot s, ConstFramePtr f) { return TypedRef(s.GetType(), f.p + s.byte_offset()); }
  QTypePtr GetType() const { return t_; }
  const void* GetRawPointer() const { return p_; }
  template <typename T> const T& UnsafeAs() const { return *static_cast<const T*>(p_); }
  template <typename T> absl::StatusOr<std::reference_wrapper<const T>> As() const {
    if (t_->type_info() != typeid(T)) return absl::InvalidArgumentError("type mismatch");
    return std::cref(UnsafeAs<T>());
  }
  int64_t GetFieldCount() const { return (int64_t)t_->type_fields().size(); }
  TypedRef GetField(int64_t i) const { auto& f = t_->type_fields()[i]; return TypedRef(f.GetType(), (const char*)p_ + f.byte_offset()); }
  std::string Repr() const { return std::string(t_->name()); }
  ReprToken GenReprToken() const { return {Repr()}; }
  Fingerprint GetFingerprint() const { return Fingerprint{(uint64_t)p_}; }
  absl::Status CopyToSlot(TypedSlot s, FramePtr f) const {
    if (s.GetType() != t_) return absl::InvalidArgumentError("type mismatch");
    t_->UnsafeCopy(p_, f.p + s.byte_offset());
    return absl::OkStatus();
  }
 private:
  TypedRef(QTypePtr t, const void* p) : t_(t), p_(p) {}
  QTypePtr t_;
  const void* p_;
};

class TypedValue {
  struct Rep {
    QTypePtr t;
    void* p;
    explicit Rep(QTypePtr t) : t(t), p(::operator new(t->type_layout().size, std::align_val_t{t->type_layout().align})) { t->Init(p); }
    ~Rep() { t->Destroy(p); ::operator delete(p, std::align_val_t{t->type_layout().align}); }
  };
 public:
  TypedValue() = delete;
  explicit TypedValue(TypedRef r) : r_(std::make_shared<Rep>(r.GetType())) { r.GetType()->UnsafeCopy(r.GetRawPointer(), r_->p); }
  TypedValue(const TypedValue&) = default;
  TypedValue(TypedValue&&) = default;
  TypedValue& operator=(const TypedValue&) = default;
  TypedValue& operator=(TypedValue&&) = default;
  template <typename T> static TypedValue FromValue(T&& v) {
    using D = std::decay_t<T>;
    TypedValue r(GetQType<D>(), 0);
    *static_cast<D*>(r.r_->p) = std::forward<T>(v);
    return r;
  }
  template <typename T> static absl::StatusOr<TypedValue> FromValueWithQType(T&& v, QTypePtr t) {
    using D = std::decay_t<T>;
    if (t->type_info() != typeid(D)) return absl::InvalidArgumentError("type mismatch");
    TypedValue r(t, 0);
    *static_cast<D*>(r.r_->p) = std::forward<T>(v);
    return r;
  }
  static TypedValue UnsafeFromTypeDefaultConstructed(QTypePtr t) { return TypedValue(t, 0); }
  static TypedValue FromSlot(TypedSlot s, ConstFramePtr f) { return TypedValue(TypedRef::FromSlot(s, f)); }
  QTypePtr GetType() const { return r_->t; }
  const void* GetRawPointer() const { return r_->p; }
  TypedRef AsRef() const ABSL_ATTRIBUTE_LIFETIME_BOUND { return TypedRef::UnsafeFromRawPointer(r_->t, r_->p); }
  template <typename T> const T& UnsafeAs() const { return *static_cast<const T*>(r_->p); }
  template <typename T> absl::StatusOr<std::reference_wrapper<const T>> As() const { return AsRef().As<T>(); }
  int64_t GetFieldCount() const { return AsRef().GetFieldCount(); }
  TypedRef GetField(int64_t i) const { return AsRef().GetField(i); }
  std::string Repr() const { return AsRef().Repr(); }
  Fingerprint GetFingerprint() const { return AsRef().GetFingerprint(); }
  absl::Status CopyToSlot(TypedSlot s, FramePtr f) const { return AsRef().CopyToSlot(s, f); }
 private:
  TypedValue(QTypePtr t, int) : r_(std::make_shared<Rep>(t)) {}
  std::shared_ptr<Rep> r_;
};

// --- tuples and named tuples
class NamedFieldQTypeInterface {
 public:
  virtual ~NamedFieldQTypeInterface() = default;
  virtual std::optional<int64_t> GetFieldIndexByName(absl::string_view n) const = 0;
};
class TupleQType final : public QType, public NamedFieldQTypeInterface {
 public:
  const bool named;
  TupleQType(std::vector<QTypePtr> ts, std::vector<std::string> names, bool named)
      : QType(named ? "namedtuple" : "tuple", 0, 1, nullptr, &typeid(TupleQType), nullptr), named(named) {
    size_t o = 0, al = 1;
    std::string s = named ? "namedtuple<" : "tuple<";
    for (size_t i = 0; i < ts.size(); ++i) {
      size_t a = ts[i]->type_layout().align;
      o = (o + a - 1) / a * a;
      fields_.push_back(TypedSlot(ts[i], o));
      o += ts[i]->type_layout().size;
      al = std::max(al, a);
      if (i) s += ",";
      if (named) s += names[i] + "=";
      s += ts[i]->name();
    }
    name_ = s + ">";
    layout_.size = (o + al - 1) / al * al;
    layout_.align = al;
    names_ = std::move(names);
  }
  std::optional<int64_t> GetFieldIndexByName(absl::string_view n) const final {
    for (size_t i = 0; i < names_.size(); ++i) if (names_[i] == n) return (int64_t)i;
    return std::nullopt;
  }
  void Init(void* p) const final { for (auto& f : fields_) f.GetType()->Init((char*)p + f.byte_offset()); }
  void Destroy(void* p) const final { for (auto& f : fields_) f.GetType()->Destroy((char*)p + f.byte_offset()); }
  void Copy(const void* a, void* b) const final { for (auto& f : fields_) f.GetType()->UnsafeCopy((const char*)a + f.byte_offset(), (char*)b + f.byte_offset()); }
};
namespace shim {
inline QTypePtr TupleType(std::vector<QTypePtr> ts, std::vector<std::string> names, bool named) {
  arolla::shim::RegistryLock lock;
  static auto* reg = new std::map<std::pair<bool, std::pair<std::vector<QTypePtr>, std::vector<std::string>>>, QTypePtr>();
  auto& r = (*reg)[{named, {ts, names}}];
  if (!r) r = new TupleQType(std::move(ts), std::move(names), named);
  return r;
}
}  // namespace shim
inline QTypePtr MakeTupleQType(absl::Span<const QTypePtr> ts) { return shim::TupleType({ts.begin(), ts.end()}, {}, false); }
inline bool IsTupleQType(QTypePtr t) { auto* q = dynamic_cast<const TupleQType*>(t); return q && !q->named; }
inline bool IsNamedTupleQType(QTypePtr t) { auto* q = dynamic_cast<const TupleQType*>(t); return q && q->named; }
inline absl::StatusOr<QTypePtr> MakeNamedTupleQType(absl::Span<const std::string> names, QTypePtr tuple) {
  std::vector<QTypePtr> ts;
  for (auto& f : tuple->type_fields()) ts.push_back(f.GetType());
  return shim::TupleType(std::move(ts), {names.begin(), names.end()}, true);
}
inline TypedValue MakeTuple(absl::Span<const TypedRef> refs) {
  std::vector<QTypePtr> ts;
  for (auto& r : refs) ts.push_back(r.GetType());
  QTypePtr t = shim::TupleType(ts, {}, false);
  TypedValue v = TypedValue::UnsafeFromTypeDefaultConstructed(t);
  for (size_t i = 0; i < refs.size(); ++i)
    ts[i]->UnsafeCopy(refs[i].GetRawPointer(), (char*)v.GetRawPointer() + t->type_fields()[i].byte_offset());
  return v;
}
inline TypedValue MakeTuple(absl::Span<const TypedValue> vs) {
  std::vector<TypedRef> r;
  for (auto& v : vs) r.push_back(v.AsRef());
  return MakeTuple(absl::Span<const TypedRef>(r));
}
inline absl::StatusOr<TypedValue> MakeNamedTuple(absl::Span<const std::string> names, absl::Span<const TypedRef> refs) {
  std::vector<QTypePtr> ts;
  for (auto& r : refs) ts.push_back(r.GetType());
  QTypePtr t = shim::TupleType(ts, {names.begin(), names.end()}, true);
  TypedValue v = TypedValue::UnsafeFromTypeDefaultConstructed(t);
  for (size_t i = 0; i < refs.size(); ++i)
    ts[i]->UnsafeCopy(refs[i].GetRawPointer(), (char*)v.GetRawPointer() + t->type_fields()[i].byte_offset());
  return v;
}
inline absl::Span<const std::string> GetFieldNames(QTypePtr t) { return absl::Span<const std::string>(t->field_names()); }
inline std::optional<int64_t> GetFieldIndexByName(QTypePtr t, absl::string_view n) {
  for (size_t i = 0; i < t->field_names().size(); ++i) if (t->field_names()[i] == n) return (int64_t)i;
  return std::nullopt;
}
inline QTypePtr GetFieldQTypeByName(QTypePtr t, absl::string_view n) {
  auto i = GetFieldIndexByName(t, n);
  return i ? t->type_fields()[*i].GetType() : nullptr;
}
inline bool HasField(QTypePtr t, absl::string_view n) { return GetFieldIndexByName(t, n).has_value(); }

// --- labelled types
class LabeledQType final : public QType {
 public:
  LabeledQType(QTypePtr b, std::string l) : QType("LABEL[" + std::string(b->name()) + ", " + l + "]", b->type_layout().size, b->type_layout().align, nullptr, &b->type_info(), b->value_qtype()) {
    base_ = b; label_ = std::move(l); fields_ = b->type_fields(); names_ = b->field_names();
  }
  void Init(void* p) const final { base_->Init(p); }
  void Destroy(void* p) const final { base_->Destroy(p); }
  void Copy(const void* a, void* b) const final { base_->Copy(a, b); }
};
inline QTypePtr GetLabeledQType(QTypePtr b, absl::string_view l) {
  arolla::shim::RegistryLock lock;
  static auto* reg = new std::map<std::pair<QTypePtr, std::string>, QTypePtr>();
  auto& r = (*reg)[{b, std::string(l)}];
  if (!r) r = new LabeledQType(b, std::string(l));
  return r;
}
inline absl::string_view GetQTypeLabel(QTypePtr t) { return t->label(); }
inline QTypePtr DecayDerivedQType(QTypePtr t) { return t && t->base() ? t->base() : t; }
inline TypedRef DecayDerivedQValue(TypedRef r) { return TypedRef::UnsafeFromRawPointer(DecayDerivedQType(r.GetType()), r.GetRawPointer()); }
inline TypedValue DecayDerivedQValue(const TypedValue& r) { return TypedValue(DecayDerivedQValue(r.AsRef())); }
inline TypedRef UnsafeDowncastDerivedQValue(QTypePtr t, TypedRef r) { return TypedRef::UnsafeFromRawPointer(t, r.GetRawPointer()); }
inline bool IsDerivedQType(QTypePtr t) { return t->base() != nullptr; }

// --- a few named types
#define SHIM_SIMPLE_TYPE(NAME, ...) \
  template <> struct QTypeTraits<__VA_ARGS__> { static QTypePtr type() { static absl::NoDestructor<SimpleQType> t(meta::type_<__VA_ARGS__>(), NAME); return t.get(); } };
SHIM_SIMPLE_TYPE("INT32", int)
SHIM_SIMPLE_TYPE("INT64", int64_t)
SHIM_SIMPLE_TYPE("FLOAT32", float)
SHIM_SIMPLE_TYPE("FLOAT64", double)
SHIM_SIMPLE_TYPE("BOOLEAN", bool)
SHIM_SIMPLE_TYPE("UNIT", Unit)
SHIM_SIMPLE_TYPE("BYTES", std::string)
SHIM_SIMPLE_TYPE("QTYPE", QTypePtr)
namespace shim { struct Nothing {}; struct Unspecified {}; }
inline QTypePtr GetNothingQType() { static absl::NoDestructor<SimpleQType> t(meta::type_<shim::Nothing>(), "NOTHING"); return t.get(); }
inline QTypePtr GetUnspecifiedQType() { static absl::NoDestructor<SimpleQType> t(meta::type_<shim::Unspecified>(), "UNSPECIFIED"); return t.get(); }
inline const TypedValue& GetUnspecifiedQValue() { static absl::NoDestructor<TypedValue> v(TypedValue::UnsafeFromTypeDefaultConstructed(GetUnspecifiedQType())); return *v; }
}  // namespace arolla
#define AROLLA_DECLARE_QTYPE(...) template <> struct QTypeTraits<__VA_ARGS__> { static QTypePtr type(); }
#define AROLLA_DECLARE_SIMPLE_QTYPE(NAME, ...) template <> struct QTypeTraits<__VA_ARGS__> { static QTypePtr type(); }
#define AROLLA_DEFINE_SIMPLE_QTYPE(NAME, ...) \
  QTypePtr QTypeTraits<__VA_ARGS__>::type() { static absl::NoDestructor<SimpleQType> t(meta::type_<__VA_ARGS__>(), #NAME); return t.get(); }
#endif
