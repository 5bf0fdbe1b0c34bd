// Drives the real DataBagImpl: reads operations, prints them with their results as one JSON trace per scenario.
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.h"
#include "koladata/internal/data_bag.h"
#include "koladata/internal/data_item.h"
#include "koladata/internal/data_slice.h"
#include "koladata/internal/dtype.h"
#ifdef WITH_EXTRACT
#include "koladata/internal/op_utils/extract.h"
#endif
#include "koladata/internal/object_id.h"
#include "koladata/internal/schema_attrs.h"
#include "koladata/internal/slice_builder.h"
#include "koladata/internal/uuid_object.h"

using namespace koladata::internal;
namespace schema = koladata::schema;
using Ints = std::vector<int64_t>;

constexpr int64_t kUnsetCode = -1, kMissing = 0, kOdd = 99, kNone = -99;

std::vector<ObjectId> objs;
std::map<ObjectId, int64_t> index_of;
std::vector<AllocationId> full;  // allocations all of whose objects are registered, by first object
std::vector<DataBagImplPtr> bags;

int64_t Reg(ObjectId o) {
  auto [it, fresh] = index_of.emplace(o, (int64_t)objs.size());
  if (fresh) objs.push_back(o);
  return it->second;
}

std::string AttrName(int64_t a) {
  switch (a) {
    case 10: return std::string(schema::kSchemaAttr);
    case 11: return std::string(schema::kListItemsSchemaAttr);
    case 12: return std::string(schema::kDictKeysSchemaAttr);
    case 13: return std::string(schema::kDictValuesSchemaAttr);
    case 14: return std::string(schema::kSchemaNameAttr);
  }
  return a == 9 ? "a_rather_long_attribute_name_that_does_not_fit_inline" : "a" + std::to_string(a);
}
int64_t AttrCode(std::string_view s) {
  for (int64_t a = 0; a < 15; ++a) if (AttrName(a) == s) return a;
  return kOdd;
}

DataItem Val(int64_t c) {
  if (c == kMissing) return DataItem();
  if (c >= 1000) return DataItem(objs.at(c - 1000));
  int64_t k = c % 10;
  switch (c / 10) {
    case 10: return DataItem((int)k);
    case 11: return DataItem((int64_t)k);
    case 12: return DataItem(arolla::Text("text" + std::to_string(k)));
    case 13: return DataItem(arolla::Bytes("text" + std::to_string(k)));
    case 14: return DataItem(k == 9 ? std::nanf("") : (float)k);
    case 15: return DataItem((double)k);
    case 16: return DataItem(k == 1);
    case 17: return DataItem(arolla::kPresent);
    case 18:
      switch (k) {
        case 0: return DataItem(schema::kInt32);
        case 1: return DataItem(schema::kInt64);
        case 2: return DataItem(schema::kFloat32);
        case 3: return DataItem(schema::kString);
        case 5: return DataItem(schema::kSchema);
        case 6: return DataItem(schema::kItemId);
        case 7: return DataItem(schema::kFloat64);
        default: return DataItem(schema::kObject);
      }
    case 19: return DataItem(arolla::Text(AttrName(k)));
  }
  abort();
}

int64_t Code(const DataItem& x) {
  if (!x.has_value()) return kMissing;
  if (x.holds_value<ObjectId>()) {
    auto it = index_of.find(x.value<ObjectId>());
    return it == index_of.end() ? kOdd : 1000 + it->second;
  }
  static const std::vector<int64_t>* all = [] {
    auto* r = new std::vector<int64_t>;
    for (int g = 10; g < 20; ++g)
      for (int k = 0; k < (g == 16 ? 2 : g == 17 ? 1 : g == 18 ? 8 : 10); ++k) r->push_back(g * 10 + k);
    return r;
  }();
  for (int64_t c : *all) {
    DataItem v = Val(c);
    if (v.dtype() != x.dtype()) continue;
    if (x.holds_value<float>() && std::isnan(x.value<float>())) { if (c == 149) return c; continue; }
    if (v == x) return c;
  }
  return kOdd;
}

std::optional<AllocationId> FullAlloc(const Ints& is) {
  for (AllocationId a : full) {
    if (is.empty() || is[0] < 0 || AllocationId(objs[is[0]]) != a) continue;
    bool ok = true;
    for (size_t i = 0; i < is.size(); ++i) ok = ok && is[i] >= 0 && objs[is[i]] == a.ObjectByOffset(i);
    if (ok) return a;
  }
  return std::nullopt;
}

// style: 0 built item by item, 1 an array with its allocations, 2 (whole allocations only) the allocation itself,
// 3 an array with more allocations than needed
DataSliceImpl Objs(const Ints& is, int64_t style) {
  if (style == 2)
    if (auto a = FullAlloc(is)) return DataSliceImpl::ObjectsFromAllocation(*a, is.size());
  if (style == 1 || style == 3) {
    std::vector<arolla::OptionalValue<ObjectId>> v;
    AllocationIdSet ids;
    for (int64_t i : is) {
      if (i < 0) { v.emplace_back(); continue; }
      v.emplace_back(objs.at(i));
      ids.Insert(AllocationId(objs[i]));
    }
    if (style == 3)
      for (int64_t i : is) {
        if (i < 0) continue;
        AllocationId a(objs[i]);
        for (ObjectId o : objs) {
          AllocationId x(o);
          if (x.IsListsAlloc() == a.IsListsAlloc() && x.IsDictsAlloc() == a.IsDictsAlloc() && x.IsSchemasAlloc() == a.IsSchemasAlloc()) ids.Insert(x);
        }
        break;
      }
    return DataSliceImpl::CreateObjectsDataSlice(arolla::CreateDenseArray<ObjectId>(absl::MakeConstSpan(v)), ids);
  }
  std::vector<DataItem> v;
  for (int64_t i : is) v.push_back(i < 0 ? DataItem() : DataItem(objs.at(i)));
  return DataSliceImpl::Create(absl::MakeConstSpan(v));
}

// style: 0 built item by item, 1 the same, but a slice without values still has a type
DataSliceImpl Keep(DataSliceImpl s);
DataSliceImpl Vals(const Ints& cs, int64_t style) {
  bool none = true;
  for (int64_t c : cs) none = none && c == kMissing;
  if (none && style % 2 == 1) {
    return DataSliceImpl::Create(arolla::CreateEmptyDenseArray<int>(cs.size()));
  }
  std::vector<DataItem> v;
  for (int64_t c : cs) v.push_back(Val(c));
  return Keep(DataSliceImpl::Create(absl::MakeConstSpan(v)));
}
// cells: unset, removed or a value
DataSliceImpl Cells(const Ints& cs) {
  SliceBuilder b(cs.size());
  for (size_t i = 0; i < cs.size(); ++i)
    if (cs[i] != kUnsetCode) b.InsertIfNotSetAndUpdateAllocIds(i, Val(cs[i]));
  return Keep(std::move(b).Build());
}
arolla::DenseArray<int64_t> Idx(const Ints& is) {
  std::vector<arolla::OptionalValue<int64_t>> v;
  for (int64_t i : is) v.emplace_back(i == kNone ? arolla::OptionalValue<int64_t>() : arolla::OptionalValue<int64_t>(i));
  return arolla::CreateDenseArray<int64_t>(absl::MakeConstSpan(v));
}
arolla::DenseArrayEdge Edge(const Ints& splits) {
  return *arolla::DenseArrayEdge::FromSplitPoints(arolla::CreateFullDenseArray<int64_t>(splits));
}

std::string Js(const Ints& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
// What a slice says about itself is true of its items.
bool Sound(const DataSliceImpl& s) {
  size_t present = 0;
  for (int64_t i = 0; i < s.size(); ++i) {
    DataItem x = s[i];
    if (x.has_value() != s.present(i)) return false;
    if (!x.has_value()) continue;
    ++present;
    if (s.is_single_dtype() && x.dtype() != s.dtype()) return false;
    if (!x.holds_value<ObjectId>()) continue;
    AllocationId a(x.value<ObjectId>());
    if (a.IsSmall() ? !s.allocation_ids().contains_small_allocation_id() : std::find(s.allocation_ids().begin(), s.allocation_ids().end(), a) == s.allocation_ids().end()) return false;
  }
  return present == s.present_count();
}
Ints PlainCodes(const DataSliceImpl& s) {
  Ints r;
  for (int64_t i = 0; i < s.size(); ++i) r.push_back(Code(s[i]));
  return r;
}
// Slices given to and got from the bags: whatever happens to the bags, they stay what they were.
std::vector<std::pair<DataSliceImpl, Ints>> kept;
DataSliceImpl Keep(DataSliceImpl s) {
  if (kept.size() < 300) kept.emplace_back(s, PlainCodes(s));
  return s;
}
int64_t Changed() {
  int64_t n = 0;
  for (const auto& [s, was] : kept) {
    Ints now = PlainCodes(s);
    for (size_t i = 0; i < was.size(); ++i)
      if (was[i] != kOdd && was[i] != now[i]) { ++n; break; }
  }
  return n;
}
Ints Codes(const DataSliceImpl& s) {
  Ints r = PlainCodes(s);
  Keep(s);
  if (!Sound(s)) r.push_back(kOdd);
  return r;
}
Ints CellCodes(const DataSliceImpl& s) {
  Ints r = Codes(s);
  const auto& t = s.types_buffer().id_to_typeidx;
  if (!t.empty())
    for (size_t i = 0; i < r.size(); ++i)
      if (r[i] == kMissing && t[i] == TypesBuffer::kUnset) r[i] = kUnsetCode;
  return r;
}
Ints Codes(const std::vector<DataItem>& v) {
  Ints r;
  for (const auto& x : v) r.push_back(Code(x));
  return r;
}
Ints Splits(const arolla::DenseArrayEdge& e) {
  Ints r;
  auto s = e.ToSplitPointsEdge();
  for (int64_t x : s->edge_values().values.span()) r.push_back(x);
  return r;
}

struct Res {
  bool ok = true;
  std::string r = "[]";
};
Res Bad() { return {false, "[]"}; }
Res Of(const absl::Status& s) { return s.ok() ? Res{} : Bad(); }
Res Of(const absl::StatusOr<DataSliceImpl>& s) { return s.ok() ? Res{true, Js(Codes(*s))} : Bad(); }
Res OfCells(const absl::StatusOr<DataSliceImpl>& s) { return s.ok() ? Res{true, Js(CellCodes(*s))} : Bad(); }
Res Of(const absl::StatusOr<DataItem>& s) { return s.ok() ? Res{true, Js({Code(*s)})} : Bad(); }
Res OfInt(const absl::StatusOr<DataItem>& s) {
  if (!s.ok()) return Bad();
  if (!s->has_value()) return {true, "[-1]"};
  if (!s->holds_value<int64_t>()) return {true, "[-2]"};
  return {true, Js({s->value<int64_t>()})};
}
using Exploded = std::pair<DataSliceImpl, arolla::DenseArrayEdge>;
std::string JsPair(const Exploded& p) { return "{\"v\":" + Js(Codes(p.first)) + ",\"s\":" + Js(Splits(p.second)) + "}"; }

struct Args {
  std::vector<std::pair<bool, Ints>> a;
  size_t i = 0;
  int64_t n() { return a.at(i++).second.at(0); }
  Ints l() { return a.at(i++).second; }
};

std::string Content(const DataBagContent& c);
#ifdef WITH_EXTRACT
std::string Schemas(const DataBagImpl& b) {
  std::string r;
  for (size_t i = 0; i < objs.size(); ++i) {
    if (!objs[i].IsSchema()) continue;
    auto as = b.GetSchemaAttrs(DataItem(objs[i]));
    if (!as.ok()) continue;
    for (int64_t j = 0; j < as->size(); ++j) {
      DataItem x = (*as)[j];
      if (!x.holds_value<arolla::Text>()) continue;
      auto v = b.GetSchemaAttrAllowMissing(DataItem(objs[i]), x.value<arolla::Text>().view());
      r += (r.empty() ? "" : ",") + Js({(int64_t)i, AttrCode(x.value<arolla::Text>().view()), v.ok() ? Code(*v) : kOdd});
    }
  }
  return "[" + r + "]";
}
#endif

Res Do(const std::string& op, Args& g) {
  using ListRange = DataBagImpl::ListRange;
  auto range = [](int64_t f, int64_t t) { return t == kNone ? ListRange(f) : ListRange(f, t); };
  auto item = [](int64_t o) { return o < 0 ? DataItem() : DataItem(objs.at(o)); };
  std::vector<const DataBagImpl*> fbv;
  auto fbs = [&](const Ints& l) {
    for (int64_t b : l) fbv.push_back(bags.at(b).get());
    return DataBagImpl::FallbackSpan(fbv);
  };
  auto fresh = [](DataBagImplPtr p) {
    bags.push_back(std::move(p));
    return Res{true, Js({(int64_t)bags.size() - 1})};
  };
  auto names = [](const Ints& as) {
    std::vector<std::string> r;
    for (int64_t a : as) r.push_back(AttrName(a));
    return r;
  };
  if (op == "nb") return fresh(DataBagImpl::CreateEmptyDatabag());
  if (op == "fork") return fresh(bags.at(g.n())->PartiallyPersistentFork());
  DataBagImpl& b = *bags.at(g.n());
  if (op == "fz") { b.Freeze(); return {}; }
  if (op == "isf") return {true, b.IsFrozen() ? "[1]" : "[0]"};
  if (op == "ise") return {true, b.IsEmpty() ? "[1]" : "[0]"};
  if (op == "isp") return {true, b.IsPristine() ? "[1]" : "[0]"};
  // --- attributes
  if (op == "sa") { auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l(); auto v = g.l(); return Of(b.SetAttr(Objs(o, st), a, Vals(v, st))); }
  if (op == "sai") { auto a = AttrName(g.n()); auto o = g.n(); auto v = g.n(); return Of(b.SetAttr(item(o), a, Val(v))); }
  if (op == "sf") {
    auto a = AttrName(g.n()); auto o = g.l(); auto v = g.l();
    return Of(b.SetAttrFullAlloc(FullAlloc(o).value(), a, Cells(v)));
  }
  if (op == "cf" || op == "cf1") {
    auto as = names(g.l()); auto n = op == "cf" ? g.n() : 1; auto vs = g.l();
    auto refused = [&] {  // later operations count on these objects
      AllocationId al = Allocate(n);
      for (int64_t i = 0; i < n; ++i) Reg(al.ObjectByOffset(i));
      full.push_back(al);
      return Bad();
    };
    std::vector<absl::string_view> an(as.begin(), as.end());
    if (op == "cf1") {
      std::vector<DataItem> it;
      for (auto c : vs) it.push_back(Val(c));
      std::vector<std::reference_wrapper<const DataItem>> rf(it.begin(), it.end());
      auto r = b.CreateObjectsFromFields(an, rf);
      if (!r.ok()) return refused();
      return {true, Js({Reg(r->value<ObjectId>())})};
    }
    std::vector<DataSliceImpl> sl;
    for (size_t i = 0; i < as.size(); ++i) sl.push_back(Vals(Ints(vs.begin() + i * n, vs.begin() + (i + 1) * n), i));
    std::vector<std::reference_wrapper<const DataSliceImpl>> rf(sl.begin(), sl.end());
    auto r = b.CreateObjectsFromFields(an, rf);
    if (!r.ok()) return refused();
    Ints ids;
    for (int64_t i = 0; i < r->size(); ++i) ids.push_back((*r)[i].holds_value<ObjectId>() ? Reg((*r)[i].value<ObjectId>()) : -1);
    if (!ids.empty() && ids[0] >= 0) full.push_back(AllocationId(objs[ids[0]]));
    return {true, Js(ids)};
  }
  if (op == "ga") { auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l(); auto f = fbs(g.l()); return Of(b.GetAttr(Objs(o, st), a, f)); }
  if (op == "gai") { auto a = AttrName(g.n()); auto o = g.n(); auto f = fbs(g.l()); return Of(b.GetAttr(item(o), a, f)); }
  if (op == "gr") { auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l(); auto f = fbs(g.l()); return OfCells(b.GetAttrWithRemoved(Objs(o, st), a, f)); }
  if (op == "gri") {
    auto a = AttrName(g.n()); auto o = g.n(); auto f = fbs(g.l());
    auto r = b.GetAttrWithRemoved(objs.at(o), a, f);
    return {true, Js({r.has_value() ? Code(*r) : kUnsetCode})};
  }
  if (op == "gf") {
    auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l(); auto f = fbs(g.l());
    bool fa = st == 2 && FullAlloc(o).has_value() && !FullAlloc(o)->IsSmall();
    return OfCells(b.GetMaybeFullAllocAttrWithRemoved(Objs(o, st), a, f, fa));
  }
  if (op == "su") {
    auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l();
    auto r = b.InternalSetUnitAttrAndReturnMissingObjects(Objs(o, st), a);
    return Of(r);
  }
  // --- lists
  if (op == "lap") { auto st = g.n(); auto o = g.l(); auto v = g.l(); return Of(b.AppendToList(Objs(o, st), Vals(v, st))); }
  if (op == "lapi") { auto o = g.n(); auto v = g.n(); return Of(b.AppendToList(item(o), Val(v))); }
  if (op == "lex") { auto st = g.n(); auto o = g.l(); auto v = g.l(); auto s = g.l(); return Of(b.ExtendLists(Objs(o, st), Vals(v, st), Edge(s))); }
  if (op == "lexi") { auto o = g.n(); auto v = g.l(); return Of(b.ExtendList(item(o), Vals(v, v.size()))); }
  if (op == "lrp") {
    auto st = g.n(); auto o = g.l(); auto f = g.n(); auto t = g.n(); auto v = g.l(); auto s = g.l();
    return Of(b.ReplaceInLists(Objs(o, st), range(f, t), Vals(v, st), Edge(s)));
  }
  if (op == "lrpi") { auto o = g.n(); auto f = g.n(); auto t = g.n(); auto v = g.l(); return Of(b.ReplaceInList(item(o), range(f, t), Vals(v, v.size()))); }
  if (op == "lrm") { auto st = g.n(); auto o = g.l(); auto f = g.n(); auto t = g.n(); return Of(b.RemoveInList(Objs(o, st), range(f, t))); }
  if (op == "lrmi") { auto o = g.n(); auto f = g.n(); auto t = g.n(); return Of(b.RemoveInList(item(o), range(f, t))); }
  if (op == "lri") { auto st = g.n(); auto o = g.l(); auto i = g.l(); return Of(b.RemoveInList(Objs(o, st), Idx(i))); }
  if (op == "lst") { auto st = g.n(); auto o = g.l(); auto i = g.l(); auto v = g.l(); return Of(b.SetInLists(Objs(o, st), Idx(i), Vals(v, st))); }
  if (op == "lsti") { auto o = g.n(); auto i = g.n(); auto v = g.n(); return Of(b.SetInList(item(o), i, Val(v))); }
  if (op == "lpo") { auto st = g.n(); auto o = g.l(); auto i = g.l(); return Of(b.PopFromLists(Objs(o, st), Idx(i))); }
  if (op == "lpoi") { auto o = g.n(); auto i = g.n(); return Of(b.PopFromList(item(o), i)); }
  if (op == "lsz") {
    auto st = g.n(); auto o = g.l(); auto z = g.n(); auto f = fbs(g.l());
    auto r = b.GetListSize(Objs(o, st), f, z != 0);
    if (!r.ok()) return Bad();
    Ints v;
    for (int64_t i = 0; i < r->size(); ++i) v.push_back((*r)[i].present ? (int64_t)(*r)[i].value : -1);
    return {true, Js(v)};
  }
  if (op == "lszi") { auto o = g.n(); auto f = fbs(g.l()); return OfInt(b.GetListSize(item(o), f)); }
  if (op == "lgt") { auto st = g.n(); auto o = g.l(); auto i = g.l(); auto f = fbs(g.l()); return Of(b.GetFromLists(Objs(o, st), Idx(i), f)); }
  if (op == "lgti") { auto o = g.n(); auto i = g.n(); auto f = fbs(g.l()); return Of(b.GetFromList(item(o), i, f)); }
  if (op == "lx") {
    auto st = g.n(); auto o = g.l(); auto f = g.n(); auto t = g.n(); auto fb = fbs(g.l());
    auto r = b.ExplodeLists(Objs(o, st), range(f, t), fb);
    return r.ok() ? Res{true, JsPair(*r)} : Bad();
  }
  if (op == "lxi") { auto o = g.n(); auto f = g.n(); auto t = g.n(); auto fb = fbs(g.l()); return Of(b.ExplodeList(item(o), range(f, t), fb)); }
  // --- dicts
  if (op == "dst") { auto st = g.n(); auto o = g.l(); auto k = g.l(); auto v = g.l(); return Of(b.SetInDict(Objs(o, st), Vals(k, st), Vals(v, st))); }
  if (op == "dsti") { auto o = g.n(); auto k = g.n(); auto v = g.n(); return Of(b.SetInDict(item(o), Val(k), Val(v))); }
  if (op == "dcl") { auto st = g.n(); auto o = g.l(); return Of(b.ClearDict(Objs(o, st))); }
  if (op == "dcli") { auto o = g.n(); return Of(b.ClearDict(item(o))); }
  if (op == "dgt") { auto st = g.n(); auto o = g.l(); auto k = g.l(); auto f = fbs(g.l()); return Of(b.GetFromDict(Objs(o, st), Vals(k, st), f)); }
  if (op == "dgti") { auto o = g.n(); auto k = g.n(); auto f = fbs(g.l()); return Of(b.GetFromDict(item(o), Val(k), f)); }
  if (op == "dsz") {
    auto st = g.n(); auto o = g.l(); auto f = fbs(g.l());
    auto r = b.GetDictSize(Objs(o, st), f);
    if (!r.ok()) return Bad();
    Ints v;
    for (int64_t i = 0; i < r->size(); ++i) v.push_back((*r)[i].has_value() ? (*r)[i].value<int64_t>() : -1);
    return {true, Js(v)};
  }
  if (op == "dszi") { auto o = g.n(); auto f = fbs(g.l()); return OfInt(b.GetDictSize(item(o), f)); }
  if (op == "dkv" || op == "dkvi") {
    std::optional<absl::StatusOr<Exploded>> k, v;
    if (op == "dkv") {
      auto st = g.n(); auto o = Objs(g.l(), st); auto f = fbs(g.l());
      k.emplace(b.GetDictKeys(o, f)); v.emplace(b.GetDictValues(o, f));
    } else {
      auto o = item(g.n()); auto f = fbs(g.l());
      k.emplace(b.GetDictKeys(o, f)); v.emplace(b.GetDictValues(o, f));
    }
    if (!k->ok() || !v->ok()) return k->ok() == v->ok() ? Bad() : Res{true, "{\"half\":1}"};
    return {true, "{\"k\":" + JsPair(**k) + ",\"v\":" + JsPair(**v) + "}"};
  }
  // --- schemas
  if (op == "ss") { auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l(); auto v = g.l(); return Of(b.SetSchemaAttr(Objs(o, st), a, Vals(v, 0))); }
  if (op == "ss1") { auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l(); auto v = g.n(); return Of(b.SetSchemaAttr(Objs(o, st), a, Val(v))); }
  if (op == "ssi") { auto a = AttrName(g.n()); auto o = g.n(); auto v = g.n(); return Of(b.SetSchemaAttr(item(o), a, Val(v))); }
  if (op == "ssf" || op == "sse") {
    auto st = g.n(); auto o = g.l(); auto as = names(g.l()); auto vs = g.l();
    std::vector<absl::string_view> an(as.begin(), as.end());
    std::vector<DataItem> it;
    for (auto c : vs) it.push_back(Val(c));
    std::vector<std::reference_wrapper<const DataItem>> rf(it.begin(), it.end());
    if (op == "sse") return Of(b.SetSchemaFieldsForEntireAllocation(FullAlloc(o).value(), o.size(), an, rf));
    if (st == 9) return Of(b.SetSchemaFields(item(o.at(0)), an, rf));
    return Of(b.SetSchemaFields(Objs(o, st), an, rf));
  }
  if (op == "sd") { auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l(); return Of(b.DelSchemaAttr(Objs(o, st), a)); }
  if (op == "sdi") { auto a = AttrName(g.n()); auto o = g.n(); return Of(b.DelSchemaAttr(item(o), a)); }
  if (op == "sg") { auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l(); auto f = fbs(g.l()); return Of(b.GetSchemaAttr(Objs(o, st), a, f)); }
  if (op == "sgi") { auto a = AttrName(g.n()); auto o = g.n(); auto f = fbs(g.l()); return Of(b.GetSchemaAttr(item(o), a, f)); }
  if (op == "sgm") { auto a = AttrName(g.n()); auto st = g.n(); auto o = g.l(); auto f = fbs(g.l()); return OfCells(b.GetSchemaAttrAllowMissing(Objs(o, st), a, f)); }
  if (op == "sgmi") {
    auto a = AttrName(g.n()); auto o = g.n(); auto f = fbs(g.l());
    auto r = b.GetSchemaAttrAllowMissingWithRemoved(item(o), a, f);
    if (!r.ok()) return Bad();
    return {true, Js({r->has_value() ? Code(**r) : kUnsetCode})};
  }
  if (op == "sk" || op == "skp") {
    auto o = g.n(); auto f = fbs(g.l());
    auto r = op == "sk" ? b.GetSchemaAttrs(item(o), f) : b.GetPresentSchemaAttrs(item(o), f);
    if (!r.ok()) return Bad();
    Ints v;
    for (int64_t i = 0; i < r->size(); ++i) {
      DataItem x = (*r)[i];
      v.push_back(x.holds_value<arolla::Text>() ? AttrCode(x.value<arolla::Text>().view()) : kOdd);
    }
    return {true, Js(v)};
  }
  // --- merging
  if (op == "mg") {
    auto o = g.n(); auto dp = g.n(); auto sp = g.n();
    using P = MergeOptions::ConflictHandlingOption;
    const P ps[] = {MergeOptions::kRaiseOnConflict, MergeOptions::kKeepOriginal, MergeOptions::kOverwrite};
    return Of(b.MergeInplace(*bags.at(o), MergeOptions{.data_conflict_policy = ps[dp], .schema_conflict_policy = ps[sp]}));
  }
  if (op == "mu") {
    auto r = b.CreateOverwritingMergeUpdate(*bags.at(g.n()));
    if (!r.ok()) return Bad();
    return fresh(*r);
  }
#ifdef WITH_EXTRACT
  if (op == "xt") {  // fallbacks, schema bag, its fallbacks, depth, schema, style, objects
    auto f = fbs(g.l());
    auto sb = g.n();
    std::vector<const DataBagImpl*> sfv;
    for (int64_t x : g.l()) sfv.push_back(bags.at(x).get());
    auto depth = g.n(), sc = g.n(), st = g.n();
    auto o = g.l();
    auto to = DataBagImpl::CreateEmptyDatabag();
    Ints leaf;
    LeafCallback cb = [&](const DataSliceImpl& s, const DataItem&) {
      for (int64_t i = 0; i < s.size(); ++i) if (s.present(i)) leaf.push_back(Code(s[i]));
      return absl::OkStatus();
    };
    std::optional<LeafCallback> ocb;
    if (depth >= 0) ocb = cb;
    const DataBagImpl* sbag = sb < 0 ? nullptr : bags.at(sb).get();
    absl::Status r = st == 9 ? ExtractOp(to.get())(item(o.at(0)), Val(sc), b, f, sbag, sfv, depth, std::nullopt, ocb)
                             : ExtractOp(to.get())(Objs(o, st), Val(sc), b, f, sbag, sfv, depth, std::nullopt, ocb);
    bags.push_back(to);
    if (!r.ok()) return Bad();
    auto c = to->ExtractContent();
    if (!c.ok()) return {true, "{}"};
    return {true, "{\"b\":" + std::to_string(bags.size() - 1) + ",\"leaf\":" + Js(leaf) + ",\"s\":" + Schemas(*to) + ",\"c\":" + Content(*c) + "}"};
  }
#endif
  if (op == "drop") { bags.at(g.a[0].second[0]) = DataBagImpl::CreateEmptyDatabag(); return {}; }
  // --- content
  if (op == "ex") {
    auto r = b.ExtractContent();
    return r.ok() ? Res{true, Content(*r)} : Bad();
  }
  abort();
}

std::string Content(const DataBagContent& c) {
  std::string at, ls, ds;
  auto put = [](std::string& s, const std::string& x) { s += (s.empty() ? "" : ",") + x; };
  auto ix = [](ObjectId o) { auto it = index_of.find(o); return it == index_of.end() ? (int64_t)-1 : it->second; };
  for (const auto& [name, ac] : c.attrs) {
    int64_t a = AttrCode(name);
    for (const auto& al : ac.allocs) {
      Ints v = CellCodes(al.values);
      for (size_t i = 0; i < v.size(); ++i)
        if (v[i] != kUnsetCode) {
          int64_t o = ix(al.alloc_id.ObjectByOffset(i));
          if (o >= 0 || v[i] != kMissing) put(at, Js({o, a, v[i]}));
        }
    }
    for (const auto& it : ac.items) put(at, Js({ix(it.object_id), a, Code(it.value)}));
  }
  for (const auto& l : c.lists) {
    Ints v = Codes(l.values), s = Splits(l.lists_to_values_edge);
    for (size_t i = 0; i + 1 < s.size(); ++i) {
      int64_t o = ix(l.alloc_id.ObjectByOffset(i));
      bool unset = i < l.unset_lists.size() && l.unset_lists[i];
      if (o < 0 && unset) continue;
      put(ls, "{\"o\":" + std::to_string(o) + ",\"u\":" + (unset ? "1" : "0") + ",\"v\":" + Js(Ints(v.begin() + s[i], v.begin() + s[i + 1])) + "}");
    }
  }
  for (const auto& d : c.dicts) {
    Ints k = Codes(d.keys), v = Codes(d.values);
    for (size_t i = 0; i < k.size(); ++i) put(ds, Js({ix(d.dict_id), k[i], i < v.size() ? v[i] : kOdd}));
  }
  return "{\"a\":[" + at + "],\"l\":[" + ls + "],\"d\":[" + ds + "]}";
}

AllocationId Alloc(int64_t kind, int64_t size, const std::string& salt) {
  switch (kind) {
    case 0: return Allocate(size);
    case 1: return AllocateLists(size);
    case 2: return AllocateDicts(size);
    case 3: return AllocateExplicitSchemas(size);
    case 4: {
      auto o = DataSliceImpl::ObjectsFromAllocation(Allocate(size), size);
      auto r = CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(o, salt);
      return AllocationId((*r)[0].value<ObjectId>());
    }
    default: {
      auto o = DataSliceImpl::ObjectsFromAllocation(Allocate(size), size);
      auto r = CreateUuidWithMainObject(o, salt);
      return AllocationId((*r)[0].value<ObjectId>());
    }
  }
}

int main() {
  std::string line;
  FILE* out = stdout;
  std::string id;
  bool first = true;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op, tok;
    is >> op;
    std::vector<std::pair<bool, Ints>> a;
    std::string echo = "[";
    while (is >> tok) {
      bool list = tok[0] == ':';
      Ints v;
      std::istringstream ts(list ? tok.substr(1) : tok);
      std::string x;
      while (std::getline(ts, x, ',')) v.push_back(std::stoll(x));
      echo += (a.empty() ? "" : ",") + (list ? Js(v) : std::to_string(v.at(0)));
      a.emplace_back(list, v);
    }
    echo += "]";
    Args g{a};
    if (op == "scen") {
      id = std::to_string(g.n());
      objs.clear(); index_of.clear(); full.clear();
      kept.clear();
      while (!bags.empty()) bags.pop_back();
      fprintf(out, "{\"sid\":%s,\"ev\":[", id.c_str());
      first = true;
      continue;
    }
    if (op == "go") {
      fprintf(out, "%s{\"op\":\"kept\",\"a\":[],", first ? "" : ",");
      fflush(out);
      int64_t n = Changed();
      while (!bags.empty()) bags.pop_back();
      n += Changed();
      fprintf(out, "\"ok\":1,\"r\":[%ld]}", (long)n);
      fprintf(out, "]}\n");
      fflush(out);
      continue;
    }
    if (op == "al") {  // kind size offsets
      auto kind = g.n(), size = g.n();
      auto offs = g.l();
      AllocationId al = Alloc(kind, size, "s" + std::to_string(objs.size()));
      if ((int64_t)offs.size() == size) full.push_back(al);
      for (auto o : offs) Reg(al.ObjectByOffset(o));
      continue;
    }
    if (op == "al1") {  // one object of its own
      switch (g.n()) {
        case 0: Reg(AllocateSingleObject()); break;
        case 1: Reg(AllocateSingleList()); break;
        case 2: Reg(AllocateSingleDict()); break;
        case 3: Reg(AllocateExplicitSchema()); break;
        case 4: Reg(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(DataItem(AllocateSingleObject()), "s")->value<ObjectId>()); break;
        default: Reg(CreateUuidWithMainObject(DataItem(AllocateSingleObject()), "s")->value<ObjectId>());
      }
      continue;
    }
    // The operation is shown before it runs, so that a crash can be attributed.
    fprintf(out, "%s{\"op\":\"%s\",\"a\":%s,", first ? "" : ",", op.c_str(), echo.c_str());
    fflush(out);
    first = false;
    Res r = Do(op, g);
    fprintf(out, "\"ok\":%d,\"r\":%s}", r.ok ? 1 : 0, r.r.c_str());
  }
}
