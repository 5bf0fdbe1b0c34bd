// Runs small concurrent programs over koladata/functor/parallel under a controlled scheduler and records what happened.
//
// Input (stdin), one scenario after another:
//   scen <id> / cell <variant> / tab <i> <10 codes> / s <op> <args>      setup, main thread
//   t <i> <op> <args>          program of thread i+1
//   p <k> <op> <args>          program run by callback / consumer / task k
//   f <op> <args>              after the run, main thread
//   run <rand|pct> <permille|depth> <min_kind> <horizon> <seed>
//   go
// Output: one line of JSON per distinct history.
#include <deque>
#include <execinfo.h>
#include <signal.h>
#include <unistd.h>

#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "absl/status/status.h"
#include "absl/synchronization/mutex.h"
#include "arolla/expr/expr_operator.h"
#include "arolla/qtype/qtype.h"
#include "arolla/sequence/sequence.h"
#include "arolla/util/cancellation.h"
#include "ctl/sched.h"
#include "koladata/data_slice.h"
#include "koladata/functor/parallel/async_eval.h"
#include "koladata/functor/parallel/derived_executor.h"
#include "koladata/functor/parallel/eager_executor.h"
#include "koladata/functor/parallel/executor.h"
#include "koladata/functor/parallel/future.h"
#include "koladata/functor/parallel/future_operators.h"
#include "koladata/functor/parallel/future_qtype.h"
#include "boost/asio/thread_pool.hpp"
#include "koladata/functor/parallel/get_default_executor.h"
#include "koladata/functor/parallel/make_executor.h"
#include "koladata/functor/parallel/stream.h"
#include "koladata/functor/parallel/stream_call.h"
#include "koladata/functor/parallel/stream_composition.h"
#include "koladata/functor/parallel/stream_for.h"
#include "koladata/functor/parallel/stream_map.h"
#include "koladata/functor/parallel/stream_operators.h"
#include "koladata/functor/parallel/stream_qtype.h"
#include "koladata/functor/parallel/stream_reduce.h"
#include "koladata/functor/parallel/stream_reduce_stack_or_concat.h"
#include "koladata/functor/parallel/stream_while.h"
#include "koladata/iterables/iterable_qtype.h"
#include "koladata/operators/slices.h"

namespace kp = koladata::functor::parallel;
using arolla::QTypePtr;
using arolla::TypedRef;
using arolla::TypedValue;
using koladata::DataSlice;

// ------------------------------------------------------------------ values
static long live = 0;
template <int N> struct Cell {
  unsigned magic = 0xC311;
  int v = -5;
  char pad[N - 8];
  Cell() { ++live; }
  explicit Cell(int x) : v(x) { ++live; }
  Cell(const Cell& o) : magic(o.magic), v(o.magic == 0xC311 ? o.v : -98) { magic = 0xC311; ++live; }
  Cell& operator=(const Cell& o) { v = o.magic == 0xC311 && magic == 0xC311 ? o.v : -98; return *this; }
  ~Cell() { v = magic == 0xC311 ? -97 : -96; magic = 0xDEAD; --live; }
};
struct Other { double d = 0; };
namespace arolla {
SHIM_SIMPLE_TYPE("CELL16", Cell<16>)
SHIM_SIMPLE_TYPE("CELL200", Cell<200>)
SHIM_SIMPLE_TYPE("CELL300", Cell<300>)
SHIM_SIMPLE_TYPE("CELL512", Cell<512>)
SHIM_SIMPLE_TYPE("OTHER", Other)
}
static int cellv = 1;
template <typename F> static auto WithCell(F f) {
  switch (cellv) {
    case 0: return f((Cell<16>*)nullptr);
    case 1: return f((Cell<200>*)nullptr);
    case 2: return f((Cell<300>*)nullptr);
    default: return f((Cell<512>*)nullptr);
  }
}
static QTypePtr CellType() { return WithCell([](auto* p) { return arolla::GetQType<std::remove_pointer_t<decltype(p)>>(); }); }
static TypedValue Mk(int v) { return WithCell([&](auto* p) { return TypedValue::FromValue(std::remove_pointer_t<decltype(p)>(v)); }); }
static TypedValue MkOther() { return TypedValue::FromValue(Other()); }
static DataSlice MkCond(int c) {
  using koladata::internal::DataItem;
  switch (c) {
    case 0: return DataSlice(DataItem(arolla::Unit()), koladata::schema::kMask);
    case 1: return DataSlice(DataItem(), koladata::schema::kMask);
    case 2: return DataSlice(DataItem(), koladata::schema::kObject);
    case 3: return DataSlice(DataItem(), koladata::schema::kInt32);
    case 6: return DataSlice(DataItem(), koladata::schema::kNone);
    case 7: return DataSlice(1, {DataItem(arolla::Unit())}, koladata::schema::kMask);
    case 8: return DataSlice(DataItem((int)1), koladata::schema::kMask);
    case 9: return DataSlice(DataItem(arolla::Unit()), koladata::schema::kObject);
    default: return DataSlice(DataItem((int)c), koladata::schema::kInt32);
  }
}
static int DsVal(const DataSlice& d) {
  if (d.GetShape().rank() == 0) return d.item().holds_value<int>() ? d.item().value<int>() : -6;
  long h = d.GetShape().rank();
  for (auto& i : d.slice()) h = (h * 31 + (i.holds_value<int>() ? i.value<int>() : 77)) % 99991;
  return (int)h;
}
static int Val(TypedRef r) {
  QTypePtr t = r.GetType();
  if (t == CellType()) return WithCell([&](auto* p) { auto& c = r.UnsafeAs<std::remove_pointer_t<decltype(p)>>(); return c.magic == 0xC311 ? c.v : -99; });
  if (t == arolla::GetQType<DataSlice>()) return DsVal(r.UnsafeAs<DataSlice>());
  if (t->name() == "tuple<>") return 0;
  if (t == arolla::GetQType<Other>()) return -20;
  if (kp::IsStreamQType(t)) return -21;
  if (kp::IsFutureQType(t)) return -22;
  if (koladata::iterables::IsIterableQType(t)) {
    auto& s = r.UnsafeAs<arolla::Sequence>();
    long h = s.size();
    for (size_t i = 0; i < s.size(); ++i) h = (h * 31 + Val(s.GetRef(i))) % 99991;
    return (int)h;
  }
  return -23;
}
static absl::Status St(int n) { return n == 0 ? absl::OkStatus() : absl::Status(absl::StatusCode::kUnavailable, "#" + std::to_string(n)); }
static int Code(const absl::Status& s) {
  if (s.ok()) return 0;
  std::string m(s.message());
  if (s.code() == absl::StatusCode::kCancelled && m == "orphaned") return 100;
  auto at = m.find('#');
  if (at != std::string::npos) return atoi(m.c_str() + at + 1) + (s.code() == absl::StatusCode::kUnavailable ? 0 : 5000);
  return (int)s.code();
}
static std::vector<int> Res(const absl::StatusOr<TypedValue>& v) { return v.ok() ? std::vector<int>{1, Val(v->AsRef())} : std::vector<int>{2, Code(v.status())}; }

// ------------------------------------------------------------------ the world of one run
struct Op { std::string n; std::vector<int> a; };
using Prog = std::vector<Op>;
constexpr int N = 64;
struct Pool;
struct World {
  kp::StreamPtr S[N];
  kp::StreamWriterPtr W[N];
  kp::StreamReaderPtr R[N];
  kp::FuturePtr F[N];
  std::optional<kp::FutureWriter> FW[N];
  std::optional<kp::StreamChain> C[N];
  std::optional<kp::StreamInterleave> I[N];
  kp::ExecutorPtr E[N];
  Pool* P[N] = {};
  const void* raw[N] = {};      // identifies executors, also ones whose handle was dropped
  arolla::CancellationContextPtr X[N];
  bool done[4 * N] = {};
};
static World* w;
static int tab[N][10];
static std::map<int, Prog> progs;
static std::vector<std::string> ev;
static std::string note;      // crash details
static thread_local int actor = 0;
static bool stopping = false;
static long tests_in_idle = 0;

static std::string J(const std::vector<int>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
  return r + "]";
}
static void Log(std::string s) { ctl::Quiet q; ev.push_back("{" + s + "}"); }
// The end of an operation whose invocation is event `at`; the two are one event when nothing came in between.
static void Finish(size_t at, int th, const std::string& o, const std::vector<int>& r) {
  ctl::Quiet q;
  bool one = ev.size() == at + 1;
  if (one) ev.pop_back();
  Log(std::string("\"e\":") + (one ? "\"op\"" : "\"res\"") + ",\"th\":" + std::to_string(th) + ",\"o\":" + o + ",\"r\":" + J(r));
}
static size_t Begin(int th, const std::string& o) {
  ctl::Quiet q;
  Log("\"e\":\"inv\",\"th\":" + std::to_string(th) + ",\"o\":" + o);
  return ev.size() - 1;
}
static std::string Desc(const std::string& k, const std::vector<int>& a) {
  ctl::Quiet q;
  return "{\"k\":\"" + k + "\",\"a\":" + J(a) + "}";
}
static int ExecIdx() {
  auto* p = kp::CurrentExecutorScopeGuard::current_executor();
  if (!p) return -1;
  for (int i = 0; i < N; ++i) if (w->raw[i] == p || w->E[i].get() == p) return i;
  return -2;
}
static int CtxIdx() {
  auto c = arolla::CurrentCancellationContext();
  if (!c) return -1;
  for (int i = 0; i < N; ++i) if (w->X[i] == c) return i;
  return -2;
}
static std::string Where() {
  return "\"ex\":" + std::to_string(ExecIdx()) + ",\"it\":" + std::to_string((int)kp::IsExecutorTask()) + ",\"cx\":" + std::to_string(CtxIdx());
}
static void Call(const char* f, int id, std::vector<int> a) {
  Log("\"e\":\"call\",\"f\":\"" + std::string(f) + "\",\"id\":" + std::to_string(id) + ",\"a\":" + J(a) + ",\"th\":" + std::to_string(actor) + "," + Where());
  ctl::Point(ctl::kOp);
}

struct Pool final : kp::Executor {
  absl::Mutex mu;
  std::deque<TaskFn> q;
  int order, limit, ran = 0;
  bool shut = false;
  Pool(int o, int l) : order(o), limit(l) {}
  Pool(int o, int l, ContextGuardInitializer g) : Executor(std::move(g)), order(o), limit(l) {}
  std::string Repr() const noexcept final { return "pool"; }
  void DoSchedule(TaskFn t) noexcept final {
    {
      absl::MutexLock l(mu);
      if (!shut) { q.push_back(std::move(t)); return; }
    }
    TaskFn dead = std::move(t);     // shut down: the task is discarded
  }
  bool Step() {
    TaskFn t;
    bool run = true;
    {
      absl::MutexLock l(mu);
      if (q.empty()) return false;
      if (order == 0) { t = std::move(q.front()); q.pop_front(); }
      else { t = std::move(q.back()); q.pop_back(); }
      if (limit >= 0 && ran >= limit) { run = false; shut = true; }
      ++ran;
    }
    if (run) std::move(t)();
    return true;
  }
  void Clear() {
    std::deque<TaskFn> d;
    { absl::MutexLock l(mu); d.swap(q); shut = true; }
  }
};
struct Guard {
  int id;
  explicit Guard(int i) : id(i) { Log("\"e\":\"genter\",\"id\":" + std::to_string(id) + ",\"th\":" + std::to_string(actor) + ",\"ex\":" + std::to_string(ExecIdx())); }
  ~Guard() { Log("\"e\":\"gexit\",\"id\":" + std::to_string(id) + ",\"th\":" + std::to_string(actor) + ",\"ex\":" + std::to_string(ExecIdx())); }
  char big[64];
};
struct SmallGuard {
  int id;
  explicit SmallGuard(int i) : id(i) { Log("\"e\":\"genter\",\"id\":" + std::to_string(id) + ",\"th\":" + std::to_string(actor) + ",\"ex\":" + std::to_string(ExecIdx())); }
  ~SmallGuard() { Log("\"e\":\"gexit\",\"id\":" + std::to_string(id) + ",\"th\":" + std::to_string(actor) + ",\"ex\":" + std::to_string(ExecIdx())); }
};
static void InitGuard(kp::ContextGuard& g, int id) { if (id < 0) return; if (id % 2) g.init<Guard>(id); else g.init<SmallGuard>(id); }

static QTypePtr TypeOf(int k) {
  switch (k) {
    case 0: return CellType();
    case 1: return arolla::GetQType<DataSlice>();
    case 2: return kp::GetStreamQType(CellType());
    case 3: return arolla::MakeTupleQType({});
    case 5: return kp::GetFutureQType(CellType());
    default: return arolla::GetQType<Other>();
  }
}
static TypedValue ValueFor(QTypePtr t, int v) {
  if (t == CellType()) return Mk(v);
  if (t == arolla::GetQType<DataSlice>()) {
    if (v >= 1000) {            // rank v/1000-1 with items v%10, v/10%10, ...
      koladata::DataSlice::Impl items;
      int rank = v / 1000 - 1, x = v % 1000;
      if (rank == 0) return TypedValue::FromValue(DataSlice(koladata::internal::DataItem(x), koladata::schema::kInt32));
      while (x) { items.push_back(koladata::internal::DataItem(x % 10)); x /= 10; }
      return TypedValue::FromValue(DataSlice(rank, items, koladata::schema::kInt32));
    }
    return TypedValue::FromValue(MkCond(v));
  }
  if (kp::IsStreamQType(t)) return kp::MakeStreamQValue(w->S[v]);
  if (kp::IsFutureQType(t)) return kp::MakeFutureQValue(w->F[v]);
  if (t == arolla::GetQType<Other>()) return MkOther();
  return arolla::MakeTuple(absl::Span<const TypedRef>());
}
// A functor for loops: the next assignment of the state variable x and of the output variable `out`.
static absl::StatusOr<TypedValue> Upd(int code, int x, int r, int v, const std::string& out, bool yields) {
  std::vector<std::string> n;
  std::vector<TypedValue> a;
  auto set = [&](std::string k, TypedValue t) { n.push_back(k); a.push_back(std::move(t)); };
  int nx = (x + 1) % 10, nr = yields ? (10 * x + v) : (r * 3 + v) % 97;
  switch (code) {
    case 0: set("x", Mk(nx)); set(out, Mk(nr)); break;
    case 1: set("x", Mk(nx)); break;
    case 2: set(out, Mk(nr)); break;
    case 3: break;
    case 4: return St(200 + v);
    case 5: set("x", Mk(nx)); set("zz", Mk(1)); break;
    case 6: set("x", MkOther()); break;
    case 7: return Mk(1);
    case 8: set(out, Mk(nr)); set("x", Mk(nx)); break;
  }
  std::vector<TypedRef> refs;
  for (auto& t : a) refs.push_back(t.AsRef());
  return arolla::MakeNamedTuple(n, refs);
}
static absl::StatusOr<TypedValue> Cond(int code, int x) {
  if (code == 4) return St(300 + x);
  if (code == 5) return Mk(1);
  if (code >= 10) return kp::MakeStreamQValue(w->S[code - 10]);
  return TypedValue::FromValue(MkCond(code));
}
namespace koladata::ops {
absl::StatusOr<DataSlice> ConcatOrStack(absl::Span<const DataSlice* const> args) {
  bool stack = args[0]->item().value<bool>();
  int64_t ndim = args[1]->item().value<int64_t>();
  DataSlice::Impl items;
  for (size_t i = 2; i < args.size(); ++i)
    for (auto& it : args[i]->slice()) {
      int v = it.holds_value<int>() ? it.value<int>() : -1;
      if (v == 9) return St(700);
      if (v < 100) items.push_back(it);        // 100 + ndim marks what was concatenated before
    }
  items.push_back(internal::DataItem((int)(100 + ndim)));
  return DataSlice(args[2]->GetShape().rank() + (stack ? 1 : 0), items, schema::kInt32);
}
}  // namespace koladata::ops
template <typename Fam>
static absl::StatusOr<TypedValue> CallOp(std::vector<TypedValue> in, QTypePtr out) {
  std::vector<QTypePtr> ts;
  for (auto& v : in) ts.push_back(v.GetType());
  Fam fam;
  auto op = static_cast<const arolla::OperatorFamily&>(fam).GetOperator(ts, out);
  if (!op.ok()) return op.status();
  std::vector<arolla::TypedSlot> slots;
  size_t o = 0;
  auto add = [&](QTypePtr t) { size_t a = 16; o = (o + a - 1) / a * a; slots.push_back(arolla::TypedSlot(t, o)); o += t->type_layout().AllocSize(); };
  for (auto t : ts) add(t);
  add(out);
  arolla::TypedSlot os = slots.back();
  slots.pop_back();
  auto b = (*op)->Bind(slots, os);
  if (!b.ok()) return b.status();
  char* mem = static_cast<char*>(::operator new(o + 16, std::align_val_t{16}));
  for (size_t i = 0; i < ts.size(); ++i) { ts[i]->Init(mem + slots[i].byte_offset()); ts[i]->UnsafeCopy(in[i].GetRawPointer(), mem + slots[i].byte_offset()); }
  out->Init(mem + os.byte_offset());
  in.clear();
  arolla::EvaluationContext ctx;
  (*b)->Run(&ctx, arolla::FramePtr{mem});
  absl::StatusOr<TypedValue> res = ctx.status();
  if (ctx.status().ok()) res = TypedValue::FromSlot(os, arolla::ConstFramePtr{mem});
  for (size_t i = 0; i < ts.size(); ++i) ts[i]->Destroy(mem + slots[i].byte_offset());
  out->Destroy(mem + os.byte_offset());
  ::operator delete(mem, std::align_val_t{16});
  return res;
}
static TypedValue Tok() { return arolla::GetUnspecifiedQValue(); }

static void RunProg(const Prog& p);
struct Actor {
  int prev;
  explicit Actor(int a) : prev(actor) { actor = a; }
  ~Actor() { actor = prev; }
};
static std::vector<int> ReadRes(kp::StreamReader::TryReadResult r) {
  if (auto* i = r.item()) return {1, Val(*i)};
  if (auto* s = r.close_status()) return {2, Code(*s)};
  return {0};
}
static void Drain(kp::StreamReaderPtr r, int o, bool woken = false) {
  auto oend = [o](int c) { Log("\"e\":\"oend\",\"o\":" + std::to_string(o) + ",\"c\":" + std::to_string(c)); };
  auto t = r->TryRead();
  if (woken && t.empty()) oend(997);       // a callback promises something to read
  while (auto* i = t.item()) {
    Log("\"e\":\"out\",\"o\":" + std::to_string(o) + ",\"v\":" + std::to_string(Val(*i)));
    t = r->TryRead();
  }
  if (auto* s = t.close_status()) {
    int c = Code(*s);
    oend(c);
    auto again = r->TryRead();             // a closed stream stays closed
    if (again.close_status() == nullptr || Code(*again.close_status()) != c) oend(998);
    return;
  }
  auto* p = r.get();
  p->SubscribeOnce([r = std::move(r), o]() mutable { Drain(std::move(r), o, true); });
}

static void Bad(const Op& o) { fprintf(stderr, "bad op %s\n", o.n.c_str()); _exit(9); }
static std::optional<arolla::CancellationContext::ScopeGuard>* scope_of_main = nullptr;
static thread_local std::optional<arolla::CancellationContext::ScopeGuard>* my_scope = nullptr;
static thread_local std::vector<kp::CurrentExecutorScopeGuard*>* my_guards = nullptr;
static thread_local std::optional<kp::ProvideDefaultCurrentExecutorScopeGuard>* my_defaults = nullptr;

// Performs one operation; returns its result.
static std::vector<int> Do(const Op& op) {
  const auto& n = op.n;
  const auto& a = op.a;
  World& x = *w;
  auto stream_or = [&](absl::StatusOr<kp::StreamPtr> s, int at) -> std::vector<int> { if (!s.ok()) return {2, Code(s.status())}; x.S[at] = *std::move(s); return {1}; };
  auto put_stream = [&](absl::StatusOr<TypedValue> v, int at) -> std::vector<int> { if (!v.ok()) return {2, Code(v.status())}; x.S[at] = v->UnsafeAs<kp::StreamPtr>(); return {1}; };
  auto put_future = [&](absl::StatusOr<TypedValue> v, int at) -> std::vector<int> { if (!v.ok()) return {2, Code(v.status())}; x.F[at] = v->UnsafeAs<kp::FuturePtr>(); return {1}; };
  // --- streams
  if (n == "mk") { auto [s, wr] = kp::MakeStream(TypeOf(a.size() > 3 ? a[3] : 0), a[2]); x.S[a[0]] = std::move(s); x.W[a[1]] = std::move(wr); return {}; }
  if (n == "wr") { auto v = ValueFor(x.W[a[0]]->value_qtype(), a[1]); x.W[a[0]]->Write(v.AsRef()); return {}; }
  if (n == "twr") { auto v = ValueFor(x.W[a[0]]->value_qtype(), a[1]); return {(int)x.W[a[0]]->TryWrite(v.AsRef())}; }
  if (n == "cl") { std::move(*x.W[a[0]]).Close(St(a[1])); return {}; }
  if (n == "tcl") { x.W[a[0]]->TryClose(St(a[1])); return {}; }
  if (n == "dw") { auto p = std::move(x.W[a[0]]); p.reset(); return {}; }
  if (n == "orph") { return {(int)x.W[a[0]]->Orphaned()}; }
  if (n == "rd") { x.R[a[1]] = x.S[a[0]]->MakeReader(); return {}; }
  if (n == "tr") { return ReadRes(x.R[a[0]]->TryRead()); }
  if (n == "ds") { auto p = std::move(x.S[a[0]]); p.reset(); return {}; }
  if (n == "dr") { auto p = std::move(x.R[a[0]]); p.reset(); return {}; }
  if (n == "sub") {
    int r = a[0], k = a[1];
    x.R[r]->SubscribeOnce([r, k] {
      Actor me(100 + k);
      std::string o = Desc("cb", {k, r});
      size_t at = Begin(100 + k, o);
      auto res = ReadRes(w->R[r]->TryRead());
      Finish(at, 100 + k, o, res);
      if (progs.count(k)) RunProg(progs[k]);
      w->done[k] = true;
    });
    return {};
  }
  if (n == "aw") { bool* b = &x.done[a[0]]; if (ctl::Managed()) ctl::Block([](void* p) { return *static_cast<bool*>(p); }, b); return {}; }
  if (n == "drain") { Drain(x.S[a[0]]->MakeReader(), a[1]); return {}; }
  // --- composition
  if (n == "chain") { x.C[a[0]].emplace(std::move(x.W[a[1]])); return {}; }
  if (n == "cadd") { x.C[a[0]]->Add(x.S[a[1]]); return {}; }
  if (n == "citem") { auto v = Mk(a[1]); x.C[a[0]]->AddItem(v.AsRef()); return {}; }
  if (n == "cerr") { x.C[a[0]]->AddError(St(a[1])); return {}; }
  if (n == "cdrop") { x.C[a[0]].reset(); return {}; }
  if (n == "corph") { return {(int)x.C[a[0]]->Orphaned()}; }
  if (n == "il") { x.I[a[0]].emplace(std::move(x.W[a[1]])); return {}; }
  if (n == "iadd") { x.I[a[0]]->Add(x.S[a[1]]); return {}; }
  if (n == "iitem") { auto v = Mk(a[1]); x.I[a[0]]->AddItem(v.AsRef()); return {}; }
  if (n == "ierr") { x.I[a[0]]->AddError(St(a[1])); return {}; }
  if (n == "idrop") { x.I[a[0]].reset(); return {}; }
  if (n == "iorph") { return {(int)x.I[a[0]]->Orphaned()}; }
  if (n == "opchain" || n == "opil") {
    std::vector<TypedValue> vs;
    for (size_t i = 1; i < a.size(); ++i) vs.push_back(kp::MakeStreamQValue(x.S[a[i]]));
    TypedValue t = arolla::MakeTuple(absl::Span<const TypedValue>(vs));
    vs.clear();
    QTypePtr out = kp::GetStreamQType(CellType());
    return put_stream(n == "opchain" ? CallOp<kp::StreamChainOperatorFamily>({t, Tok(), Tok()}, out) : CallOp<kp::StreamInterleaveOperatorFamily>({t, Tok(), Tok()}, out), a[0]);
  }
  if (n == "chainfs") return put_stream(CallOp<kp::StreamChainFromStreamOperatorFamily>({kp::MakeStreamQValue(x.S[a[1]]), Tok()}, kp::GetStreamQType(CellType())), a[0]);
  if (n == "ilfs") return put_stream(CallOp<kp::StreamInterleaveFromStreamOperatorFamily>({kp::MakeStreamQValue(x.S[a[1]]), Tok()}, kp::GetStreamQType(CellType())), a[0]);
  if (n == "smake") {
    std::vector<TypedValue> vs;
    for (size_t i = 1; i < a.size(); ++i) vs.push_back(Mk(a[i]));
    TypedValue t = arolla::MakeTuple(absl::Span<const TypedValue>(vs));
    return put_stream(CallOp<kp::StreamMakeOperatorFamily>({t, Tok()}, kp::GetStreamQType(CellType())), a[0]);
  }
  if (n == "siter") {
    auto m = arolla::MutableSequence::Make(CellType(), a.size() - 1);
    for (size_t i = 1; i < a.size(); ++i) { auto v = Mk(a[i]); m->UnsafeSetRef(i - 1, v.AsRef()); }
    auto tv = TypedValue::FromValueWithQType(std::move(*m).Finish(), koladata::iterables::GetIterableQType(CellType()));
    return put_stream(CallOp<kp::StreamFromIterableOperatorFamily>({*tv}, kp::GetStreamQType(CellType())), a[0]);
  }
  // --- waiting
  if (n == "ubw" || n == "sw") {
    auto v = kp::MakeStreamQValue(x.S[a[0]]);
    QTypePtr t = x.S[a[0]]->value_qtype();
    return Res(n == "ubw" ? CallOp<kp::UnsafeBlockingWaitOperatorFamily>({v}, t) : CallOp<kp::SyncWaitOperatorFamily>({v}, t));
  }
  if (n == "ubwf" || n == "swf") {
    auto v = kp::MakeFutureQValue(x.F[a[0]]);
    QTypePtr t = x.F[a[0]]->value_qtype();
    return Res(n == "ubwf" ? CallOp<kp::UnsafeBlockingWaitOperatorFamily>({v}, t) : CallOp<kp::SyncWaitOperatorFamily>({v}, t));
  }
  // --- executors and contexts
  if (n == "pool") { auto p = std::make_shared<Pool>(a[1], a[2]); x.P[a[0]] = p.get(); x.E[a[0]] = p; return {}; }
  if (n == "poolg") { int id = a[3]; auto p = std::make_shared<Pool>(a[1], a[2], [id](kp::ContextGuard& g) { InitGuard(g, id); }); x.P[a[0]] = p.get(); x.E[a[0]] = p; return {}; }
  if (n == "eager") { x.E[a[0]] = kp::GetEagerExecutor(); return {}; }
  if (n == "derive") { int id = a[2]; x.E[a[0]] = std::make_shared<kp::DerivedExecutor>(x.E[a[1]], [id](kp::ContextGuard& g) { InitGuard(g, id); }); x.raw[a[0]] = x.E[a[0]].get(); return {}; }
  if (n == "asio") { x.E[a[0]] = kp::MakeExecutor(a[1]); x.raw[a[0]] = x.E[a[0]].get(); return {}; }
  if (n == "dflt") { x.E[a[0]] = kp::GetDefaultExecutor(); return {(int)(x.E[a[0]] == kp::GetDefaultExecutor())}; }
  if (n == "dropE") { auto p = std::move(x.E[a[0]]); p.reset(); return {}; }
  if (n == "awork") {
    for (;;) {
      ctl::Block([](void*) { return stopping || boost::asio::ShimReady(); }, nullptr);
      if (!boost::asio::ShimRunOne() && stopping) return {};
    }
  }
  if (n == "work") {
    Pool* p = x.P[a[0]];
    for (;;) {
      ctl::Block([](void* q) { return stopping || !static_cast<Pool*>(q)->q.empty(); }, p);
      if (!p->Step() && stopping) return {};
    }
  }
  if (n == "step") { return {(int)x.P[a[0]]->Step()}; }
  if (n == "clearq") { x.P[a[0]]->Clear(); return {}; }
  if (n == "ctx") { x.X[a[0]] = arolla::CancellationContext::Make(); return {}; }
  if (n == "cancel") { x.X[a[0]]->Cancel(St(a[1])); return {}; }
  if (n == "in") { my_scope->reset(); if (a[0] >= 0) my_scope->emplace(x.X[a[0]]); return {}; }
  if (n == "sched") {
    int k = a[1];
    x.E[a[0]]->Schedule([k, held = Mk(k)] {
      Log("\"e\":\"task\",\"k\":" + std::to_string(k) + ",\"th\":" + std::to_string(actor) + "," + Where());
      { Actor me(100 + k); if (progs.count(k)) RunProg(progs[k]); }
      Log("\"e\":\"tend\",\"k\":" + std::to_string(k) + ",\"th\":" + std::to_string(actor) + "," + Where());
      w->done[k] = true;
    });
    return {};
  }
  if (n == "cur") { auto c = kp::CurrentExecutor(); return {c.ok() ? ExecIdx() : -1, (int)kp::IsExecutorTask()}; }
  if (n == "push") { my_guards->push_back(new kp::CurrentExecutorScopeGuard(a[0] < 0 ? nullptr : x.E[a[0]])); return {}; }
  if (n == "pushd") { my_guards->push_back(nullptr); my_defaults->emplace(); return {}; }
  if (n == "popd") { my_guards->pop_back(); my_defaults->reset(); return {}; }
  if (n == "pop") { delete my_guards->back(); my_guards->pop_back(); return {}; }
  // --- stream functions
  if (n == "map") {
    int so = a[0], t = a[3];
    auto fn = [so, t](TypedRef item) -> absl::StatusOr<TypedValue> {
      int v = Val(item);
      Call("map", so, {v});
      int c = v >= 0 && v < 10 ? tab[t][v] : -9;
      int v2 = Val(item);
      if (v2 != v) return absl::InternalError("the item changed under the functor");
      if (c >= 0) return Mk(c);
      if (c == -1) return St(200 + v);
      return MkOther();
    };
    x.S[so] = a[4] ? kp::StreamMap(x.E[a[1]], x.S[a[2]], CellType(), fn) : kp::StreamMapUnordered(x.E[a[1]], x.S[a[2]], CellType(), fn);
    return {};
  }
  if (n == "red") {
    int so = a[0], t = a[3];
    x.S[so] = kp::StreamReduce(x.E[a[1]], Mk(a[4]), x.S[a[2]], [so, t](TypedRef acc, TypedRef item) -> absl::StatusOr<TypedValue> {
      int v = Val(item), b = Val(acc);
      Call("red", so, {b, v});
      int c = v >= 0 && v < 10 ? tab[t][v] : -9;
      if (Val(item) != v || Val(acc) != b) return absl::InternalError("an argument changed under the functor");
      if (c >= 0) return Mk((b * 3 + c) % 1009);
      if (c == -1) return St(200 + v);
      return MkOther();
    });
    return {};
  }
  if (n == "redc" || n == "reds") {
    auto init = ValueFor(arolla::GetQType<DataSlice>(), a[4]).UnsafeAs<DataSlice>();
    return stream_or(n == "redc" ? kp::StreamReduceConcat(x.E[a[1]], a[3], init, x.S[a[2]]) : kp::StreamReduceStack(x.E[a[1]], a[3], init, x.S[a[2]]), a[0]);
  }
  if (n == "for" || n == "whl") {
    bool isfor = n == "for";
    int so = a[0], e = a[1], si = a[2], bt = a[3], ft = a[4], ct = a[5], ix = a[6], ir = a[7];
    bool y = a[8];
    std::string out = y ? "yy" : "returns";
    auto get = [](absl::Span<const TypedRef> args, absl::Span<const std::string> kw, const char* name) -> int {
      size_t off = args.size() - kw.size();
      for (size_t i = 0; i < kw.size(); ++i) if (kw[i] == name) return Val(args[off + i]);
      return -1;
    };
    kp::StreamForFunctor body = [=](absl::Span<const TypedRef> args, absl::Span<const std::string> kw) -> absl::StatusOr<TypedValue> {
      int xx = get(args, kw, "x"), r = get(args, kw, "returns");
      int v = isfor ? Val(args[0]) : xx;
      Call("body", so, {v, xx, r, (int)args.size(), (int)kw.size()});
      if (get(args, kw, "x") != xx || get(args, kw, "returns") != r || (isfor && Val(args[0]) != v)) return absl::InternalError("an argument changed under the functor");
      return Upd(v >= 0 && v < 10 ? tab[bt][v] : 3, xx, r, v, out, y);
    };
    kp::StreamForFunctor fin, cond;
    if (ft >= 0) fin = [=](absl::Span<const TypedRef> args, absl::Span<const std::string> kw) -> absl::StatusOr<TypedValue> {
      int xx = get(args, kw, "x"), r = get(args, kw, "returns");
      Call("fin", so, {xx, r, (int)args.size(), (int)kw.size()});
      return Upd(xx >= 0 && xx < 10 ? tab[ft][xx] : 3, xx, r, 50, out, y);
    };
    if (ct >= 0) cond = [=](absl::Span<const TypedRef> args, absl::Span<const std::string> kw) -> absl::StatusOr<TypedValue> {
      int xx = get(args, kw, "x"), r = get(args, kw, "returns");
      Call("cond", so, {xx, r, (int)args.size(), (int)kw.size()});
      return Cond(xx >= 0 && xx < 10 ? tab[ct][xx] : 1, xx);
    };
    auto vx = Mk(ix), vr = Mk(ir);
    std::vector<std::string> names{"x"};
    std::vector<TypedRef> refs{vx.AsRef()};
    auto state = arolla::MakeNamedTuple(names, refs);
    if (isfor) {
      if (y) return stream_or(kp::StreamForYields(x.E[e], x.S[si], std::move(body), std::move(fin), std::move(cond), out, vr.AsRef(), state->AsRef()), so);
      return stream_or(kp::StreamForReturns(x.E[e], x.S[si], std::move(body), std::move(fin), std::move(cond), vr.AsRef(), state->AsRef()), so);
    }
    if (y) return stream_or(kp::StreamWhileYields(x.E[e], std::move(cond), std::move(body), out, vr.AsRef(), state->AsRef()), so);
    return stream_or(kp::StreamWhileReturns(x.E[e], std::move(cond), std::move(body), vr.AsRef(), state->AsRef()), so);
  }
  // call so e mode m (type val)*
  if (n == "call" || n == "aev") {
    int so = a[0], mode = a[2], m = a[3];
    std::vector<TypedValue> vs;
    for (size_t i = 4; i + 1 < a.size(); i += 2) {
      int v = a[i + 1];
      switch (a[i]) {
        case 0: vs.push_back(Mk(v)); break;
        case 1: vs.push_back(kp::MakeStreamQValue(x.S[v])); break;
        case 2: vs.push_back(TypedValue(kp::MakeStreamCallAwaitArg(kp::MakeStreamQValue(x.S[v]).AsRef()))); break;
        case 3: vs.push_back(n == "call" ? TypedValue(kp::MakeStreamCallAwaitArg(kp::MakeFutureQValue(x.F[v]).AsRef())) : kp::MakeFutureQValue(x.F[v])); break;
        case 4: vs.push_back(kp::MakeFutureQValue(x.F[v])); break;
        case 5: vs.push_back(TypedValue(kp::MakeStreamCallAwaitArg(Mk(v).AsRef()))); break;
      }
    }
    std::vector<TypedRef> refs;
    for (auto& v : vs) refs.push_back(v.AsRef());
    auto fn = [n, so, mode, m](absl::Span<const TypedRef> args) -> absl::StatusOr<TypedValue> {
      std::vector<int> l;
      int sum = 0;
      for (auto& r : args) { l.push_back(Val(r)); sum += l.back(); }
      Call(n.c_str(), so, l);
      for (size_t i = 0; i < args.size(); ++i) if (Val(args[i]) != l[i]) return absl::InternalError("an argument changed under the functor");
      switch (mode) {
        case 0: return Mk(((sum + m) % 1009 + 1009) % 1009);
        case 1: return kp::MakeStreamQValue(w->S[m]);
        case 2: return St(400 + m);
        default: return MkOther();
      }
    };
    if (n == "call") return stream_or(kp::StreamCall(x.E[a[1]], fn, CellType(), refs), so);
    auto op = std::make_shared<arolla::expr::ExprOperator>();
    op->eval = fn;
    auto f = kp::AsyncEvalWithCompilationCache(x.E[a[1]], op, refs, mode == 1 ? TypeOf(2) : CellType());
    if (!f.ok()) return {2, Code(f.status())};
    x.F[so] = *f;
    return {1};
  }
  // --- futures
  if (n == "fmk") { auto [f, wr] = kp::MakeFuture(TypeOf(a.size() > 2 ? a[2] : 0)); x.F[a[0]] = std::move(f); x.FW[a[1]].emplace(std::move(wr)); return {}; }
  if (n == "fset") { auto v = ValueFor(x.FW[a[0]]->value_qtype(), a[1]); std::move(*x.FW[a[0]]).SetValue(std::move(v)); return {}; }
  if (n == "ferr") { std::move(*x.FW[a[0]]).SetValue(St(a[1])); return {}; }
  if (n == "fdw") { x.FW[a[0]].reset(); return {}; }
  if (n == "fd") { auto p = std::move(x.F[a[0]]); p.reset(); return {}; }
  if (n == "fp") {
    auto p = x.F[a[0]]->PeekValue();
    if (!p.has_value()) return {0};
    if (!p->ok()) return {2, Code(p->status())};
    return {1, Val((**p).AsRef())};
  }
  if (n == "fa") {
    int k = a[1];
    x.F[a[0]]->AddConsumer([k](absl::StatusOr<TypedValue> v) {
      Actor me(100 + k);
      Log("\"e\":\"fc\",\"k\":" + std::to_string(k) + ",\"r\":" + J(Res(v)));
      if (progs.count(k)) RunProg(progs[k]);
      w->done[k] = true;
    });
    return {};
  }
  if (n == "sff") { x.S[a[0]] = kp::StreamFromFuture(x.F[a[1]]); return {}; }
  if (n == "opsff") return put_stream(CallOp<kp::StreamFromFutureOperatorFamily>({kp::MakeFutureQValue(x.F[a[1]])}, kp::GetStreamQType(CellType())), a[0]);
  if (n == "fsv") return put_future(CallOp<kp::FutureFromSingleValueStreamOperatorFamily>({kp::MakeStreamQValue(x.S[a[1]])}, kp::GetFutureQType(CellType())), a[0]);
  if (n == "fit") return put_future(CallOp<kp::FutureIterableFromStreamOperatorFamily>({kp::MakeStreamQValue(x.S[a[1]])}, kp::GetFutureQType(koladata::iterables::GetIterableQType(CellType()))), a[0]);
  if (n == "asf") return put_future(CallOp<kp::AsFutureOperatorFamily>({Mk(a[1])}, kp::GetFutureQType(CellType())), a[0]);
  if (n == "uff") return put_future(CallOp<kp::UnwrapFutureToFutureOperatorFamily>({kp::MakeFutureQValue(x.F[a[1]])}, kp::GetFutureQType(CellType())), a[0]);
  if (n == "ufs") return put_stream(CallOp<kp::UnwrapFutureToStreamOperatorFamily>({kp::MakeFutureQValue(x.F[a[1]])}, kp::GetStreamQType(CellType())), a[0]);
  Bad(op);
  return {};
}
static void RunOp(const Op& o) {
  if (o.n == "work" || o.n == "awork") { Do(o); return; }
  ctl::Point(ctl::kOp);
  int me = actor;
  std::string s = Desc(o.n, o.a);
  size_t at = Begin(me, s);
  auto r = Do(o);
  Finish(at, me, s, r);
}
static void RunProg(const Prog& p) { for (auto& o : p) RunOp(o); }
struct Env {       // per-thread scopes
  std::optional<arolla::CancellationContext::ScopeGuard> sc;
  std::vector<kp::CurrentExecutorScopeGuard*> g;
  std::optional<arolla::CancellationContext::ScopeGuard>* ps;
  std::vector<kp::CurrentExecutorScopeGuard*>* pg;
  std::optional<kp::ProvideDefaultCurrentExecutorScopeGuard> d;
  Env() : ps(my_scope), pg(my_guards) { my_scope = &sc; my_guards = &g; my_defaults = &d; }
  ~Env() { while (!g.empty()) { delete g.back(); g.pop_back(); } sc.reset(); my_scope = ps; my_guards = pg; }
};

// ------------------------------------------------------------------ scenarios
static std::string sid;
static Prog setup, fini;
static std::map<int, Prog> threads;
static std::unordered_set<std::string> seen;
static std::string cur_run;

static void Emit(const char* end) {
  std::string t = "[";
  for (size_t i = 0; i < ev.size(); ++i) t += (i ? "," : "") + ev[i];
  if (*end) t += std::string(ev.empty() ? "" : ",") + "{\"e\":\"" + end + "\",\"live\":0}";
  t += "]";
  if (!seen.insert(t).second) return;
  std::string l = "{\"sid\":" + sid + ",\"run\":\"" + cur_run + "\",\"ev\":" + t + "}\n";
  size_t o = 0;
  while (o < l.size()) { ssize_t k = write(3, l.data() + o, l.size() - o); if (k <= 0) _exit(8); o += k; }
}
static void OnCrash(int sig) {
  static volatile sig_atomic_t in = 0;
  if (in) _exit(7);
  in = 1;
  Emit("crash");
  _exit(3);
}
static bool RunOnce(const ctl::Strategy& st) {
  ev.clear();
  live = 0;
  stopping = false;
  World world;
  w = &world;
  ctl::Hold();
  ctl::Outcome out;
  {
    Env env;
    actor = 0;
    RunProg(setup);
    if (!threads.empty()) Log("\"e\":\"start\"");
    std::vector<std::function<void()>> fns;
    for (auto& [i, p] : threads) {
      int id = i + 1;
      const Prog* pp = &p;
      fns.push_back([id, pp] { actor = id; Env e; RunProg(*pp); });
    }
    if (!fns.empty())
      out = ctl::Run(st, fns, [] { if (stopping) return false; stopping = true; return true; });
    if (out.end != ctl::Outcome::kDone) {
      Emit(out.end == ctl::Outcome::kDeadlock ? "deadlock" : "livelock");
      _exit(4);
    }
    actor = 0;
    if (!threads.empty()) Log("\"e\":\"quiet\"");
    RunProg(fini);
  }
  // Tear everything down.
  Log("\"e\":\"tear\"");
  for (int i = 0; i < N; ++i) if (world.P[i]) world.P[i]->Clear();
  for (int i = 0; i < N; ++i) { world.C[i].reset(); world.I[i].reset(); }
  for (int i = 0; i < N; ++i) world.W[i].reset();
  for (int i = 0; i < N; ++i) world.FW[i].reset();
  for (int i = 0; i < N; ++i) world.R[i].reset();
  for (int i = 0; i < N; ++i) world.S[i].reset();
  for (int i = 0; i < N; ++i) world.F[i].reset();
  for (int i = 0; i < N; ++i) world.X[i].reset();
  for (int i = 0; i < N; ++i) { world.E[i].reset(); world.P[i] = nullptr; }
  while (boost::asio::ShimRunOne()) {}
  Log("\"e\":\"end\",\"live\":" + std::to_string(live));
  Emit("");
  ctl::Release();
  return true;
}

int main() {
  std::ios::sync_with_stdio(false);
  kp::GetDefaultExecutor();
  kp::GetEagerExecutor();
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = OnCrash;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    auto rest = [&](Op& o) { is >> o.n; int v; while (is >> v) o.a.push_back(v); };
    if (k == "scen") {
      is >> sid;
      setup.clear(); fini.clear(); threads.clear(); progs.clear(); seen.clear();
      memset(tab, 0, sizeof tab);
      cellv = 1;
      cur_run = "warm";
    } else if (k == "cell") is >> cellv;
    else if (k == "tab") { int i; is >> i; for (int j = 0; j < 10; ++j) is >> tab[i][j]; }
    else if (k == "s") { setup.emplace_back(); rest(setup.back()); }
    else if (k == "f") { fini.emplace_back(); rest(fini.back()); }
    else if (k == "t") { int i; is >> i; threads[i].emplace_back(); rest(threads[i].back()); }
    else if (k == "th") { int i; is >> i; threads[i]; }
    else if (k == "p") { int i; is >> i; progs[i].emplace_back(); rest(progs[i].back()); }
    else if (k == "run") {
      ctl::Strategy st;
      std::string kind;
      int p;
      is >> kind >> p >> st.min_kind >> st.horizon >> st.seed;
      if (kind == "pct") { st.kind = ctl::Strategy::kPct; st.depth = p; } else { st.kind = ctl::Strategy::kRandom; st.permille = p; }
      cur_run = line;
      RunOnce(st);
    } else if (k == "go") { fprintf(stdout, "done %s\n", sid.c_str()); fflush(stdout); }
  }
  fflush(stdout);
  _exit(0);    // the scheduler's threads outlive main()
}
