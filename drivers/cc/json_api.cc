// C interface to the JSON stream processors, for ctypes.
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>

#include "koladata/internal/op_utils/json_stream.h"
#include "koladata/operators/json_stream_parser.h"

namespace ki = koladata::internal;

namespace {
struct Handle {
  std::function<ki::JsonStreamProcessResult(std::string_view, bool)> fn;
  std::vector<std::string> out;
  bool end = false;
};

template <typename P>
Handle* Make(P p) {
  auto h = new Handle;
  auto sp = std::make_shared<P>(std::move(p));
  h->fn = [sp](std::string_view s, bool e) { return sp->Process(s, e); };
  return h;
}

struct PHandle {
  koladata::ops::JsonStreamParser p;
  std::string log;
  std::string filter;
  bool streaming = false;
  explicit PHandle(koladata::ops::JsonStreamParser::SeparatorPolicy s) : p(s) {}
};

void Field(std::string& log, std::string_view s) {
  log += std::to_string(s.size());
  log += ':';
  log += s;
}
}  // namespace

extern "C" {
void* kj_new(int kind, int64_t a, int64_t b, int64_t c, const char* s,
             int64_t n) {
  std::string str(s, n);
  switch (kind) {
    case 0: {
      ki::JsonSalvageOptions o;
      o.allow_nan = a;
      o.ensure_ascii = b;
      o.max_depth = c;
      return Make(ki::JsonSalvageStreamProcessor(o));
    }
    case 1:
      return Make(ki::JsonCompactifyStreamProcessor());
    case 2: {
      ki::JsonHeadOptions o;
      o.n = a;
      return Make(ki::JsonHeadStreamProcessor(o));
    }
    case 3: {
      ki::JsonPrettifyOptions o;
      o.indent_string = str;
      return Make(ki::JsonPrettifyStreamProcessor(o));
    }
    case 4:
      return Make(ki::JsonSelectNonemptyObjectsStreamProcessor());
    case 5:
      return Make(ki::JsonSelectNonemptyArraysStreamProcessor());
    case 6:
      return Make(ki::JsonSelectNonnullStreamProcessor());
    case 7: {
      ki::JsonExtractValuesOptions o;
      o.with_path = b;
      using Path = absl::Span<const std::variant<int64_t, std::string>>;
      if (a == 0) {  // paths of a given length
        o.path_match_fn = [c](Path p) { return (int64_t)p.size() == c; };
      } else if (a == 1) {  // paths ending in a given key
        o.path_match_fn = [str](Path p) {
          return !p.empty() && std::holds_alternative<std::string>(p.back()) &&
                 std::get<std::string>(p.back()) == str;
        };
      } else if (a == 2) {  // paths ending in a given index
        o.path_match_fn = [c](Path p) {
          return !p.empty() && std::holds_alternative<int64_t>(p.back()) &&
                 std::get<int64_t>(p.back()) == c;
        };
      } else {  // one given key at the top
        o.path_match_fn = [str](Path p) {
          return p.size() == 1 && std::holds_alternative<std::string>(p[0]) &&
                 std::get<std::string>(p[0]) == str;
        };
      }
      return Make(ki::JsonExtractValuesStreamProcessor(o));
    }
    case 8:
      return Make(ki::JsonImplodeArrayStreamProcessor());
    case 9:
      return Make(ki::JsonExplodeArrayStreamProcessor());
    case 10: {
      ki::JsonGetArrayNthValueOptions o;
      o.n = a;
      return Make(ki::JsonGetArrayNthValueStreamProcessor(o));
    }
    case 11:
      return Make(ki::JsonUnquoteStreamProcessor());
    case 12:
      return Make(ki::JsonQuoteStreamProcessor());
    case 13:
      return Make(ki::JsonChunkValuesStreamProcessor());
  }
  return nullptr;
}
// Returns the number of chunks; *end tells whether the output has ended.
int64_t kj_process(void* h, const char* s, int64_t n, int end_of_input,
                   int* end) {
  auto* p = static_cast<Handle*>(h);
  auto r = p->fn(std::string_view(s, n), end_of_input != 0);
  p->out.assign(r.chunks.begin(), r.chunks.end());
  *end = r.is_end;
  return p->out.size();
}
const char* kj_chunk(void* h, int64_t i, int64_t* n) {
  auto* p = static_cast<Handle*>(h);
  *n = p->out[i].size();
  return p->out[i].data();
}
void kj_free(void* h) { delete static_cast<Handle*>(h); }

void* kp_new(int remove, int single, int unquoted, int linebreak, int quote,
             const char* filter, int64_t filter_size) {
  using P = koladata::ops::JsonStreamParser;
  auto* h = new PHandle(remove ? P::SeparatorPolicy::REMOVE
                               : P::SeparatorPolicy::KEEP);
  h->p.AllowSingleQuotes(single);
  h->p.AllowUnquotedKeys(unquoted);
  h->p.AllowLinebreakInStrings(linebreak);
  h->p.EnableQuotingInvalidTokens(quote);
  h->filter.assign(filter, filter_size);
  h->p.SetValueBeginCallback([h](absl::string_view path, P::ValueType t) {
    if (!h->filter.empty() && path == h->filter) {
      h->p.ConsumeChunk();
      h->streaming = true;
    }
    h->log += 'B';
    Field(h->log, path);
    Field(h->log, std::to_string(static_cast<int>(t)));
  });
  h->p.SetValueEndCallback([h](absl::string_view path, absl::string_view json) {
    if (h->streaming && path == h->filter) {
      h->log += 'S';
      Field(h->log, h->p.ConsumeChunk());
      h->log += 'T';
      h->streaming = false;
    }
    h->log += 'E';
    Field(h->log, path);
    Field(h->log, json);
  });
  return h;
}
// Everything recorded by the call: callbacks, then what could be consumed.
int kp_add(void* v, const char* s, int64_t n, int finalize, int consume,
           const char** log, int64_t* len) {
  auto* h = static_cast<PHandle*>(v);
  h->log.clear();
  bool ok = h->p.AddChunk(absl::string_view(s, n)).ok();
  if (ok && finalize) ok = h->p.Finalize().ok();
  if (ok && h->streaming) {
    h->log += 'S';
    Field(h->log, h->p.ConsumeChunk());
  }
  if (ok && consume) {
    h->log += 'C';
    Field(h->log, h->p.ConsumeChunk());
  }
  *log = h->log.data();
  *len = h->log.size();
  return ok;
}
void kp_free(void* v) { delete static_cast<PHandle*>(v); }
}
