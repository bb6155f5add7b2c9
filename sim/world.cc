#include "world.h"
#include "badir.h"
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstring>

namespace world {
using sim::Rng;
using gen::Kind;

// ------------------------------------------------------------------ records
#define SCALARS(X) \
  X(u8, uint8_t, kU8) X(u16, uint16_t, kU16) X(u32, uint32_t, kU32) X(u64, uint64_t, kU64) X(i8, int8_t, kI8) \
  X(i16, int16_t, kI16) X(i32, int32_t, kI32) X(i64, int64_t, kI64) X(f32, float, kF32) X(f64, double, kF64)
#define LISTS(X) \
  X(lu8, u8list, U8ListStruct, uint8_t, kU8List) X(lu16, u16list, U16ListStruct, uint16_t, kU16List) \
  X(lu32, u32list, U32ListStruct, uint32_t, kU32List) X(lu64, u64list, U64ListStruct, uint64_t, kU64List) \
  X(li8, i8list, I8ListStruct, int8_t, kI8List) X(li16, i16list, I16ListStruct, int16_t, kI16List) \
  X(li32, i32list, I32ListStruct, int32_t, kI32List) X(li64, i64list, I64ListStruct, int64_t, kI64List) \
  X(lf32, f32list, F32ListStruct, float, kF32List) X(lf64, f64list, F64ListStruct, double, kF64List)

int Rec::Raises(int32_t tok) const {
  if (!std::binary_search(armed.begin(), armed.end(), tok)) return 0;
  return err_mode == 5 && tok % 4 == 0 ? 2 + (int)(sim::Mix(tok) % 300) : 1;   // mode 5: whole series of errors
}
int Rec::ListLen(ValueType t, int k) const {
  switch (t) {
#define X(f, n, S, T, V) case ValueType::V: return (int)f[k].len;
    LISTS(X)
#undef X
    default: return (int)lstr[k].len;
  }
}
// Each buffer is followed by bytes that no call may depend on or write: they differ from record to record, also between
// two records of the same contents, and hold what an access past the end would take for elements.
constexpr size_t kSlack = 48;
uint64_t g_slack = 0;
static char* Own(Rec& r, size_t bytes) {
  r.storage->emplace_back(new char[bytes + kSlack]);
  char* p = r.storage->back().get();
  r.spans->emplace_back(p, bytes);
  return p;
}
static const char* kWords[] = {"", "a", "b", "abc", "alpha", "42", "-17", "3.25", "hello world", "Zeta", "the quick brown fox jumps", "abcabcabc"};
static StringStruct MakeStr(Rec& r, Rng& g, bool big) {
  std::string s = kWords[g.Below(12)];
  if (g.P(0.3)) s += std::to_string(g.Below(100000));
  if (big && g.P(0.4)) s += std::string(g.Below(g.P(0.03) ? 70000 : 1500), (char)('a' + g.Below(26)));
  StringStruct st;
  char* p = Own(r, s.size());
  memcpy(p, s.data(), s.size());
  st.data = p;
  st.len = (uint32_t)s.size();
  return st;
}
template <class T> static T Num(Rng& g, bool interp) {
  if constexpr (std::is_floating_point_v<T>) {
    (void)interp;
    if (interp) return (T)(int64_t)g.Range(-50, 50);
    return (T)((double)g.Range(-4000, 4000) / (g.P(0.5) ? 8.0 : 3.0));
  } else {
    double x = (double)g.Below(100) / 100.0;
    if (x < 0.25) return (T)g.Below(3);
    if (x < 0.7) return (T)g.Range(std::is_signed_v<T> ? -100 : 0, 100);
    return (T)g.U64();
  }
}
// Other contents for the same buffers: now and then everything, mostly a single element.
static void Refill(Rec& r, const std::vector<int32_t>& tokens, const RecOpts& o) {
  Rng g(r.seed * 31 + o.refill);
  double all = g.P(0.2) ? 0.8 : g.P(0.5) ? 0.05 : 0.3;
#define X(f, T, V) for (auto& v : r.f) if (g.P(all)) v = Num<T>(g, o.interp);
  SCALARS(X)
#undef X
#define X(f, n, S, T, V)                                                            \
  for (auto& l : r.f) {                                                             \
    T* p = const_cast<T*>(l.data);                                                  \
    if (l.len >= 2 && g.P(0.6)) {                                                   \
      bool inner = l.len >= 4 && g.P(0.5);                                          \
      size_t a = inner ? 1 + g.Below(l.len - 2) : g.Below(l.len), b = inner ? 1 + g.Below(l.len - 2) : g.Below(l.len); \
      std::swap(p[a], p[b]);                                                        \
    }                                                                               \
    if (l.len && g.P(all)) p[g.Below(l.len)] = g.P(0.5) ? (T)g.Below(6) : Num<T>(g, o.interp); \
  }
  LISTS(X)
#undef X
  auto str = [&](StringStruct& s) {
    char* p = const_cast<char*>(s.data);
    if (!s.len || !g.P(all)) return;
    char& c = p[g.Below(s.len)];
    if (c >= '0' && c <= '9') c = (char)('0' + g.Below(10));
    else if (c >= 'a' && c <= 'z') c = (char)('a' + g.Below(26));
  };
  for (auto& s : r.str) str(s);
  for (auto& l : r.lstr)
    for (uint32_t i = 0; i < l.len; ++i) str(const_cast<StringStruct&>(l.data[i]));
  if (g.P(0.5)) {
    r.armed.clear();
    for (int32_t t : tokens)
      if (g.P(o.arm_p)) r.armed.push_back(t);
    std::sort(r.armed.begin(), r.armed.end());
  }
}
template <class T> static T Scalar(const Rec& r, size_t k) {
#define X(f, U, V) if constexpr (std::is_same_v<T, U>) return r.f[k];
  SCALARS(X)
#undef X
}
std::unique_ptr<Rec> MakeRec(uint64_t seed, const std::vector<int32_t>& tokens, const RecOpts& o) {
  auto rp = std::make_unique<Rec>();
  Rec& r = *rp;
  r.seed = seed;
  r.storage = std::make_shared<std::vector<std::unique_ptr<char[]>>>();
  r.spans = std::make_shared<std::vector<std::pair<const char*, size_t>>>();
  Rng g(seed ^ 0xdecafULL);
  for (int k = 0; k < 4; ++k) {
#define X(f, T, V) r.f[k] = Num<T>(g, o.interp);
    SCALARS(X)
#undef X
    r.str[k] = MakeStr(r, g, o.big);
#define X(f, n, S, T, V)                                                              \
  {                                                                                   \
    size_t len = g.P(0.15) ? (g.P(0.5) ? 8 : 16) : g.Below(o.max_list + 1);            \
    if (o.big && g.P(0.3)) len = g.Below(g.P(0.06) ? 6000 : 700);                      \
    else if (g.P(0.05)) len = (16u << g.Below(4)) - 1 + g.Below(3);                    \
    T* p = (T*)Own(r, len * sizeof(T));                                                \
    for (size_t i = 0; i < len; ++i) p[i] = g.P(0.5) ? (T)g.Below(6) : Num<T>(g, o.interp); \
    r.f[k].data = p;                                                                   \
    r.f[k].len = (uint32_t)len;                                                        \
  }
    LISTS(X)
#undef X
    size_t len = g.Below(o.big && g.P(0.2) ? 120 : 6);
    auto* p = (StringStruct*)Own(r, len * sizeof(StringStruct));
    for (size_t i = 0; i < len; ++i) p[i] = MakeStr(r, g, false);
    r.lstr[k].data = p;
    r.lstr[k].len = (uint32_t)len;
  }
  for (int32_t t : tokens)
    if (g.P(o.arm_p)) r.armed.push_back(t);
  std::sort(r.armed.begin(), r.armed.end());
  r.err_mode = o.err_mode;
  if (g.P(0.4)) r.dirty_mod = 1 + (uint32_t)g.Below(5);
  if (o.refill) Refill(r, tokens, o);
  Rng sl(sim::Mix(++g_slack * 77 + sim::spec.seed));
  for (auto& s : *r.spans)
    for (size_t i = 0; i < kSlack; ++i) const_cast<char*>(s.first)[s.second + i] = (char)(sl.P(0.6) ? '0' + sl.Below(10) : 'a' + sl.Below(26));
  for (int k = 0; k < 4; ++k) {
#define X(f, n, S, T, V) \
    if (sl.P(0.8)) for (size_t i = 0, b = sl.Below(4); i < kSlack / sizeof(T); ++i) const_cast<T*>(r.f[k].data)[r.f[k].len + i] = sl.P(0.7) ? Scalar<T>(r, (b + i) & 3) : (T)sl.Below(6);
    LISTS(X)
#undef X
    for (size_t i = 0; i < kSlack / sizeof(StringStruct); ++i) const_cast<StringStruct*>(r.lstr[k].data)[r.lstr[k].len + i] = r.str[sl.Below(4)];
  }
  r.data_sum = DataSum(r);
  return rp;
}
void ReloadRec(Rec& keep, const Rec& fresh) {
#define X(f, T, V) memcpy(keep.f, fresh.f, sizeof keep.f);
  SCALARS(X)
#undef X
  if (keep.seed != fresh.seed || keep.spans->size() != fresh.spans->size()) sim::Violate("sim-internal", "ReloadRec: other record");
  for (size_t i = 0; i < keep.spans->size(); ++i) {
    auto& k = (*keep.spans)[i];
    auto& f = (*fresh.spans)[i];
    if (k.second != f.second) sim::Violate("sim-internal", "ReloadRec: other layout");
    bool pointers = false;
    for (int j = 0; j < 4; ++j) pointers |= (const void*)k.first == (const void*)keep.lstr[j].data;
    if (!pointers) memcpy(const_cast<char*>(k.first), f.first, k.second + kSlack);
  }
  keep.armed = fresh.armed;
  keep.err_mode = fresh.err_mode;
  keep.dirty_mod = fresh.dirty_mod;
  keep.trace.clear(); keep.errs.clear(); keep.own_live.clear(); keep.ctx_errs.clear(); keep.ctx_problem.clear();
  keep.own_created = keep.own_destroyed = 0;
  keep.calls = keep.reenter_at = 0;
  keep.reenter = nullptr;
  keep.saw_ctx = false;
  keep.data_sum = DataSum(keep);
}
uint64_t DataSum(const Rec& r) {
  uint64_t h = 77;
  auto mix = [&](const void* p, size_t n) {
    auto* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
    h ^= n;
  };
#define X(f, T, V) mix(r.f, sizeof r.f);
  SCALARS(X)
#undef X
  for (auto& s : *r.spans) mix(s.first, s.second + kSlack);
  return h;
}
std::unique_ptr<Rec> ShareRec(const Rec& r) {
  auto p = std::make_unique<Rec>();
  p->seed = r.seed;
#define X(f, T, V) memcpy(p->f, r.f, sizeof r.f);
  SCALARS(X)
#undef X
#define X(f, n, S, T, V) memcpy(p->f, r.f, sizeof r.f);
  LISTS(X)
#undef X
  memcpy(p->str, r.str, sizeof r.str);
  memcpy(p->lstr, r.lstr, sizeof r.lstr);
  p->armed = r.armed;
  p->err_mode = r.err_mode;
  p->dirty_mod = r.dirty_mod;
  p->data_sum = r.data_sum;
  p->storage = r.storage;
  p->spans = r.spans;
  return p;
}

int32_t ErrId(const Rec& r, int32_t tok) {
  switch (r.err_mode) {
    case 1: return tok % 3;
    case 4: return tok % 2 ? tok : tok % 20;
    default: return tok;
  }
}
// in mode 6 some errors come without any text
static bool NoText(const Rec& r, int32_t id) { return r.err_mode == 6 && id % 3 == 0; }
std::string ErrText(const Rec& r, int32_t tok) {
  int32_t id = ErrId(r, tok);
  if (NoText(r, id)) return "";
  std::string s = "<E#" + std::to_string(id) + ">";
  int how = r.err_mode == 4 ? (int)(sim::Mix((uint64_t)id) % 4) : r.err_mode;
  if (how == 2) {
    static const char* tail[] = {"; ", "| ", " Runtime Error: ", " %s%n", "\n", "; x| y", "<E", " "};
    s += tail[(uint32_t)id % 8];
    s += "end";
  } else if (how == 3) {
    s += std::string(500 + (uint32_t)id % 3000, (char)('a' + (uint32_t)id % 26));
  }
  return s;
}
// ------------------------------------------------------------------ callbacks
static uint32_t g_own_live = 0;
static uint64_t g_own_serial = 0;
uint32_t OwnLive() { return g_own_live; }

struct Tracker {
  uint64_t canary = 0x5452414b4b455231ULL;
  Rec* rec;
  uint64_t serial;
  std::string payload;
  Tracker(Rec* r, int32_t tok) : rec(r), serial(++g_own_serial), payload("tracked object payload #" + std::to_string(tok)) {
    r->own_created++;
    g_own_live++;
    r->own_live.push_back(serial);
  }
  ~Tracker() {
    sim::NoYield ny;
    if (canary != 0x5452414b4b455231ULL)
      sim::Violate(canary == 0xdead5452414b4b45ULL ? "object-destroyed-twice" : "object-corrupt", std::string("tracked arena object was ") + (canary == 0xdead5452414b4b45ULL ? "destroyed twice" : "overwritten before its destruction") + " during: " + sim::sh->op);
    if (rec->magic != 0x52454352454352ULL) sim::Violate("object-outlived-call", "tracked object destroyed after its execution's record was gone");
    if (rec->own_live.empty() || rec->own_live.back() != serial) sim::Violate("object-order", "tracked arena objects were not destroyed newest first");
    rec->own_live.pop_back();
    rec->own_destroyed++;
    g_own_live--;
    canary = 0xdead5452414b4b45ULL;
    sim::Hit(sim::PR_FINALIZER);
  }
};

template <int V> struct CB {
  static volatile int variant;
  static Rec* R(void* p) {
    auto* r = (Rec*)p;
    if (r == nullptr || r->magic != 0x52454352454352ULL) sim::Violate("wrong-entry-argument", std::string("a callback received a pointer that is not the caller's entry argument; op: ") + sim::sh->op);
    return r;
  }
  static void SeeCtx(Rec* r, void* ctx) {
    auto* c = (ExecContext*)ctx;
    if (c == nullptr) { if (r->ctx_problem.empty()) r->ctx_problem = "callback received a null execution context"; return; }
    r->saw_ctx = true;
  }
  static void Inside(Rec* r) {
    if (r->calls++ != r->reenter_at || !r->reenter) return;
    std::function<void()> f = std::move(r->reenter);
    r->reenter = nullptr;
    f();
    sim::Hit(sim::PR_REENTERED);
  }
  // a well-behaved callback reports that the arena had no memory for it
  static void Refused(void* ctx) { sim::NoYield ny; ((ExecContext*)ctx)->AddError("callback: out of memory"); }
#define X(f, T, E) \
  static T ld_##f(void* p, int32_t k) { (void)variant; Rec* r = R(p); T v = r->f[k & 3]; Inside(r); sim::Yield(5, 1); return v; } \
  static T chk_##f(void* p, T v, int32_t tok, void* ctx) { Chk(p, tok, ctx); return v; }                 \
  static int32_t st_##f(void* o, int32_t slot, T v) { St(o, slot, RetType(v)); return slot; }
  SCALARS(X)
#undef X
#define X(f, n, S, T, E) \
  static S ld_##n(void* p, int32_t k) { (void)variant; Rec* r = R(p); S v = r->f[k & 3]; Inside(r); sim::Yield(5, 2); return v; } \
  static S chk_##n(void* p, S v, int32_t tok, void* ctx) { Chk(p, tok, ctx); return v; }                      \
  static int32_t st_##n(void* o, int32_t slot, S v) { St(o, slot, RetType(std::vector<T>(v.data, v.data + v.len))); return slot; } \
  static S mk_##n(void* p, int32_t n_, void* ctx) {                                                     \
    Rec* r = R(p);                                                                                      \
    SeeCtx(r, ctx);                                                                                     \
    S v;                                                                                                \
    v.len = (uint32_t)n_;                                                                               \
    v.data = (T*)((ExecContext*)ctx)->arena.Allocate(n_ * sizeof(T), alignof(T));                       \
    if (v.data == nullptr && n_ > 0) { v.len = 0; Refused(ctx); }                                       \
    for (uint32_t i = 0; i < v.len; ++i) { v.data[i] = (T)((i * 7 + n_ + r->u8[i & 3]) % 100); if (i == v.len / 2) sim::Yield(5, 3); } \
    return v;                                                                                           \
  }
  LISTS(X)
#undef X
  static StringStruct ld_string(void* p, int32_t k) { Rec* r = R(p); StringStruct v = r->str[k & 3]; Inside(r); sim::Yield(5, 4); return v; }
  static StringStruct chk_string(void* p, StringStruct v, int32_t tok, void* ctx) { Chk(p, tok, ctx); return v; }
  static int32_t st_string(void* o, int32_t slot, StringStruct v) { St(o, slot, RetType(std::string(v.data, v.len))); return slot; }
  static StringStruct mk_string(void* p, int32_t n, void* ctx) {
    Rec* r = R(p);
    SeeCtx(r, ctx);
    char* d = (char*)((ExecContext*)ctx)->arena.Allocate(n, 1);
    StringStruct v;
    v.data = d;
    v.len = d ? (uint32_t)n : 0;
    if (!d && n > 0) Refused(ctx);
    for (uint32_t i = 0; i < v.len; ++i) d[i] = (char)('a' + (i + r->u8[0]) % 26);
    sim::Yield(5, 5);
    return v;
  }
  static StringListStruct ld_stringlist(void* p, int32_t k) { Rec* r = R(p); StringListStruct v = r->lstr[k & 3]; Inside(r); sim::Yield(5, 6); return v; }
  static StringListStruct chk_stringlist(void* p, StringListStruct v, int32_t tok, void* ctx) { Chk(p, tok, ctx); return v; }
  static int32_t st_stringlist(void* o, int32_t slot, StringListStruct v) {
    std::vector<std::string> x;
    { sim::NoYield ny; for (uint32_t i = 0; i < v.len; ++i) x.emplace_back(v.data[i].data, v.data[i].len); }
    St(o, slot, RetType(x));
    return slot;
  }
  static StringListStruct mk_stringlist(void* p, int32_t n, void* ctx) {
    Rec* r = R(p);
    SeeCtx(r, ctx);
    StringListStruct v;
    v.len = (uint32_t)n;
    v.data = (StringStruct*)((ExecContext*)ctx)->arena.Allocate(n * sizeof(StringStruct));
    if (v.data == nullptr && n > 0) { v.len = 0; Refused(ctx); }
    for (uint32_t i = 0; i < v.len; ++i) v.data[i] = r->str[i & 3];
    sim::Yield(5, 7);
    return v;
  }
  static int64_t comm_i64(int64_t a, int64_t b) { (void)variant; return (int64_t)(((uint64_t)a ^ (uint64_t)b) + 2 * ((uint64_t)a & (uint64_t)b) + ((uint64_t)a | (uint64_t)b)); }
  static int32_t own(void* p, int32_t tok, void* ctx) {
    Rec* r = R(p);
    {
      sim::NoYield ny;
      SeeCtx(r, ctx);
      r->trace.push_back(tok);
      if (ctx && !((ExecContext*)ctx)->arena.Create<Tracker>(r, tok)) Refused(ctx);
    }
    Inside(r);
    sim::Yield(5, 8);
    return tok;
  }
  static void Chk(void* p, int32_t tok, void* ctx) {
    Rec* r = R(p);
    sim::Yield(5, 9);
    Inside(r);
    {
      sim::NoYield ny;
      SeeCtx(r, ctx);
      auto* c = (ExecContext*)ctx;
      r->trace.push_back(tok);
      if (r->trace.size() > 100000) sim::Violate("runaway", "an execution made more than 100000 callbacks");
      if (c) {
        if (r->trace.size() == 1 && c->HasErrors() && r->ctx_errs.empty() && r->ctx_problem.empty()) r->ctx_problem = "";
        if (std::binary_search(r->armed.begin(), r->armed.end(), tok)) {
          int times = r->Raises(tok);
          for (int k = 0; k < times; ++k) {
            int32_t id = tok + k * 1000003;
            c->AddError(ErrText(*r, id));
            if (ErrText(*r, id).size()) r->errs.push_back(ErrId(*r, id));
          }
          if (r->err_mode) sim::Hit(sim::PR_SAME_ERROR_TEXT);
          sim::Fired(sim::F_CALLBACK_ERROR);
        }
        if (r->dirty_mod && (uint32_t)tok % r->dirty_mod == 0) {
          size_t n = 1 + (sim::Mix(tok) % 900);
          auto* b = c->arena.Allocate(n, 1ULL << (tok % 5));
          if (b) memset(b, 0x5A, n); else Refused(ctx);
        }
        r->ctx_errs = c->errors;
      }
    }
    sim::Yield(5, 10);
  }
  static void St(void* o, int32_t slot, const RetType& v) {
    if (o == nullptr) return;
    auto* out = (Out*)o;
    if (out->magic != 0x0074757074757455ULL) sim::Violate("wrong-output-pointer", std::string("a store callback received a pointer that is not the caller's output; op: ") + sim::sh->op);
    {
      sim::NoYield ny;
      out->log->push_back({slot, ValStr(v)});
      if (out->log->size() > 100000) sim::Violate("runaway", "an execution made more than 100000 stores");
    }
    sim::Hit(sim::PR_STORES);
    sim::Yield(5, 11);
  }
};
template <int V> volatile int CB<V>::variant = V;

template <int V> static void Register(FunctionRegistry& reg, const std::string& skip) {
  auto ro = [&](const std::string& n, std::vector<ValueType> p, ValueType r, void* f) {
    if (n == skip) return;
    if (!reg.RegisterReadOnlyCFunc(FunctionSignature(n, std::move(p), r), f).ok()) sim::Violate("sim-internal", "register " + n);
  };
  auto rx = [&](const std::string& n, std::vector<ValueType> p, ValueType r, void* f) {
    if (n == skip) return;
    if (!reg.RegisterReadOnlyCFuncWithExecCtx(FunctionSignature(n, std::move(p), r), f).ok()) sim::Violate("sim-internal", "register " + n);
  };
  auto st = [&](const std::string& n, std::vector<ValueType> p, ValueType r, void* f) {
    if (n == skip) return;
    if (!reg.RegisterStoreCFunc(FunctionSignature(n, std::move(p), r), f, 1).ok()) sim::Violate("sim-internal", "register " + n);
  };
  using VT = ValueType;
#define X(f, T, E) \
  ro("ld_" #f, {VT::kPtr, VT::kI32}, VT::E, (void*)CB<V>::ld_##f);                 \
  rx("chk_" #f, {VT::kPtr, VT::E, VT::kI32}, VT::E, (void*)CB<V>::chk_##f);         \
  st("st_" #f, {VT::kPtr, VT::kI32, VT::E}, VT::kI32, (void*)CB<V>::st_##f);
  SCALARS(X)
#undef X
#define X(f, n, S, T, E) \
  ro("ld_" #n, {VT::kPtr, VT::kI32}, VT::E, (void*)CB<V>::ld_##n);                 \
  rx("chk_" #n, {VT::kPtr, VT::E, VT::kI32}, VT::E, (void*)CB<V>::chk_##n);         \
  rx("mk_" #n, {VT::kPtr, VT::kI32}, VT::E, (void*)CB<V>::mk_##n);                  \
  st("st_" #n, {VT::kPtr, VT::kI32, VT::E}, VT::kI32, (void*)CB<V>::st_##n);
  LISTS(X)
#undef X
  ro("ld_string", {VT::kPtr, VT::kI32}, VT::kString, (void*)CB<V>::ld_string);
  rx("chk_string", {VT::kPtr, VT::kString, VT::kI32}, VT::kString, (void*)CB<V>::chk_string);
  rx("mk_string", {VT::kPtr, VT::kI32}, VT::kString, (void*)CB<V>::mk_string);
  st("st_string", {VT::kPtr, VT::kI32, VT::kString}, VT::kI32, (void*)CB<V>::st_string);
  ro("ld_stringlist", {VT::kPtr, VT::kI32}, VT::kStringList, (void*)CB<V>::ld_stringlist);
  rx("chk_stringlist", {VT::kPtr, VT::kStringList, VT::kI32}, VT::kStringList, (void*)CB<V>::chk_stringlist);
  rx("mk_stringlist", {VT::kPtr, VT::kI32}, VT::kStringList, (void*)CB<V>::mk_stringlist);
  st("st_stringlist", {VT::kPtr, VT::kI32, VT::kStringList}, VT::kI32, (void*)CB<V>::st_stringlist);
  rx("own", {VT::kPtr, VT::kI32}, VT::kI32, (void*)CB<V>::own);
  if (skip != "comm_i64" && !reg.RegisterCommutativeCFunc(FunctionSignature("comm_i64", {VT::kI64, VT::kI64}, VT::kI64), (void*)CB<V>::comm_i64).ok())
    sim::Violate("sim-internal", "register comm_i64");
}
Registry MakeRegistry(int variant, const std::string& skip) {
  Registry reg;
  if (!FunctionRegistryFactory::CreateFunctionRegistry(&reg).ok()) sim::Violate("registry-creation-failed", "CreateFunctionRegistry returned an error");
  if (variant == 0) Register<0>(*reg, skip); else Register<1>(*reg, skip);
  if (!RegisterBadIr(*reg)) sim::Violate("sim-internal", "register bad_ir");
  return reg;
}

// ------------------------------------------------------------------ engines
St ToSt(const Status& s) { St r; r.ok = s.ok(); if (!r.ok) r.msg = s.ToString(); return r; }
Eng::Eng(Kind k, ExecEngineOption o) : kind(k), opt(o) {
  switch (k) {
    case Kind::Single: s = std::make_unique<ExecEngine>(o); break;
    case Kind::Batch: b = std::make_unique<BatchExecEngine>(o); break;
    case Kind::Expr: e = std::make_unique<athena::AthenaExpression>(o); break;
    case Kind::Pipe: p = std::make_unique<athena::AthenaPipeline>(o); break;
  }
}
// What an earlier call left on the stack is not the next call's business: every call into the library starts on a
// stack full of some other rubbish.
__attribute__((noinline)) static void DirtyStack() {
  constexpr size_t kN = 24576;
  char b[kN];
  uint64_t x = (sim::sh->execs * 0x9E3779B97F4A7C15ULL) ^ (sim::sh->ops * 0xC2B2AE3D27D4EB4FULL);
  x ^= x >> 29;
  switch (x & 3) {
    case 0: memset(b, 0, kN); break;
    case 1: memset(b, 0xff, kN); break;
    case 2: memset(b, 0x41, kN); break;
    default: for (size_t i = 0; i < kN; i += 8) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; memcpy(b + i, &x, 8); }
  }
  __asm__ volatile("" : : "r"(b) : "memory");
}
template <class F> static St Guarded(const char* what, F&& f) {
  DirtyStack();
  try {
    return ToSt(f());
  } catch (const std::exception& ex) {
    sim::Violate("exception", std::string(what) + " threw: " + ex.what() + "; op: " + sim::sh->op);
  } catch (...) {
    sim::Violate("exception", std::string(what) + " threw; op: " + sim::sh->op);
  }
}
St Eng::Compile(const gen::Program& pr, const Registry& reg) {
  switch (kind) {
    case Kind::Single: { auto ast = gen::Ast(*pr.entries[0]); return Guarded("Compile", [&] { return s->Compile(ast, reg); }); }
    case Kind::Batch: {
      std::vector<std::unique_ptr<ExecNode>> v;
      for (auto& x : pr.entries) v.push_back(gen::Ast(*x));
      return Guarded("Compile", [&] { return b->Compile(v, reg); });
    }
    case Kind::Expr: { std::string t = gen::StmtText(*pr.entries[0]); return Guarded("Compile", [&] { return e->Compile(t, reg); }); }
    case Kind::Pipe: {
      std::vector<std::string> v;
      for (auto& x : pr.entries) v.push_back(gen::StmtText(*x));
      return Guarded("Compile", [&] { return p->Compile(v, reg); });
    }
  }
  return {};
}
St Eng::Save(std::string* out) const {
  if (s) return Guarded("SaveCompiled", [&] { return s->SaveCompiled(out); });
  if (b) return Guarded("SaveCompiled", [&] { return b->SaveCompiled(out); });
  return {false, "unsupported"};
}
St Eng::Load(std::string_view bytes, const Registry& reg, const LoadCompiledOptions& o) {
  if (!s && !b) return {false, "unsupported"};
  // the bytes end where readable memory ends, and they are gone when the call has returned
  sim::EdgeBytes file(bytes.data(), bytes.size());
  std::string_view in(file.data, file.size);
  if (s) return Guarded("LoadCompiled", [&] { return s->LoadCompiled(in, reg, o); });
  if (b) return Guarded("LoadCompiled", [&] { return b->LoadCompiled(in, reg, o); });
  return {false, "unsupported"};
}
std::string Eng::IR() const {
  if (s) return std::string(s->GetIRCode());
  if (b) return std::string(b->GetIRCode());
  if (e) return std::string(e->GetIRCode());
  return std::string(p->GetIRCode());
}
size_t Eng::Count() const { return b ? b->GetFunctionCount() : 1; }

// ------------------------------------------------------------------ values and outcomes
template <class T> static void One(std::string& s, const T& v) {
  char b[64];
  if constexpr (std::is_same_v<T, std::string>) {
    s += "s" + std::to_string(v.size()) + ":" + v;
  } else if constexpr (std::is_same_v<T, double>) {
    double d = v; uint64_t u; if (d != d) d = std::nan(""); memcpy(&u, &d, 8); snprintf(b, sizeof b, "%016lx", (unsigned long)u); s += b;
  } else if constexpr (std::is_same_v<T, float>) {
    float d = v; uint32_t u; if (d != d) d = std::nanf(""); memcpy(&u, &d, 4); snprintf(b, sizeof b, "%08x", u); s += b;
  } else if constexpr (std::is_signed_v<T>) {
    s += std::to_string((long long)v);
  } else {
    s += std::to_string((unsigned long long)v);
  }
}
template <class T> static const char* TN() {
  if constexpr (std::is_same_v<T, uint8_t>) return "u8"; else if constexpr (std::is_same_v<T, uint16_t>) return "u16";
  else if constexpr (std::is_same_v<T, uint32_t>) return "u32"; else if constexpr (std::is_same_v<T, uint64_t>) return "u64";
  else if constexpr (std::is_same_v<T, int8_t>) return "i8"; else if constexpr (std::is_same_v<T, int16_t>) return "i16";
  else if constexpr (std::is_same_v<T, int32_t>) return "i32"; else if constexpr (std::is_same_v<T, int64_t>) return "i64";
  else if constexpr (std::is_same_v<T, float>) return "f32"; else if constexpr (std::is_same_v<T, double>) return "f64";
  else return "string";
}
template <class T> struct IsVec : std::false_type {};
template <class T> struct IsVec<std::vector<T>> : std::true_type {};
std::string ValStr(const RetType& v) {
  std::string s;
  std::visit([&](auto& x) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, std::monostate>) s = "none";
    else if constexpr (IsVec<T>::value) {
      using E = typename T::value_type;
      s = std::string(TN<E>()) + "list[";
      for (const auto& e : x) { One<E>(s, e); s += ","; }
      s += "]";
    } else if constexpr (std::is_same_v<T, std::string>) One<std::string>(s, x);
    else { s = std::string(TN<T>()) + ":"; One<T>(s, x); }
  }, v);
  return s;
}
std::string Call::Str() const {
  std::string s = entry == -2 ? "Execute" : entry == -1 ? "ExecuteAll" : "ExecuteAt(" + std::to_string(entry) + ")";
  s += std::string("[") + (ctx ? "ctx" : "own-ctx") + (voidp ? ",void*" : ",RetType*") + (step ? ",stepped" : "") + "] input#" + std::to_string(rec_seed % 100000) + (ro.refill ? "/refilled" + std::to_string(ro.refill) : "");
  return s;
}
std::string Outcome::Str(bool with_trace) const {
  std::string s = ok ? "ok" : "error{" + msg + "}";
  s += " vals={";
  for (auto& v : vals) s += (v.size() > 200 ? v.substr(0, 200) + "..." : v) + "|";
  s += "} stores={";
  size_t n = 0;
  for (auto& x : stores) { if (n++ > 40) { s += "..."; break; } s += std::to_string(x.slot) + "=" + (x.val.size() > 80 ? x.val.substr(0, 80) + "..." : x.val) + "|"; }
  s += "}";
  if (with_trace) {
    s += " ran={";
    n = 0;
    for (int32_t t : trace) { if (n++ > 60) { s += "..."; break; } s += std::to_string(t) + ","; }
    s += "}";
  }
  return s;
}
bool SameOutcome(const Outcome& a, const Outcome& b, std::string* why, bool exact_trace) {
  auto fail = [&](const std::string& w) { *why = w + "\n  expected: " + a.Str() + "\n  actual:   " + b.Str(); return false; };
  if (a.ok != b.ok) return fail("status differs");
  if (a.msg != b.msg) return fail("error text differs");
  if (a.vals.size() != b.vals.size()) return fail("number of results differs");
  for (size_t i = 0; i < a.vals.size(); ++i) {
    const std::string& m = !a.mask.empty() ? a.mask : b.mask;
    if (!a.ok && (i >= m.size() || m[i] != '1')) continue;
    if (a.vals[i] != b.vals[i]) return fail("value of entry " + std::to_string(i) + " differs");
  }
  if (a.stores.size() != b.stores.size()) return fail("number of stores differs");
  for (size_t i = 0; i < a.stores.size(); ++i)
    if (a.stores[i].slot != b.stores[i].slot || a.stores[i].val != b.stores[i].val) return fail("store #" + std::to_string(i) + " differs");
  if (exact_trace) {
    if (a.trace != b.trace) return fail("functions run differ");
    if (a.errs != b.errs) return fail("errors raised differ");
  } else {
    auto x = a.trace, y = b.trace;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (x != y) return fail("functions run differ");
  }
  if (a.own != b.own) return fail("objects created differ");
  return true;
}
static void PutS(std::string& o, const std::string& s) { uint32_t n = (uint32_t)s.size(); o.append((char*)&n, 4); o += s; }
static void PutI(std::string& o, int32_t v) { o.append((char*)&v, 4); }
std::string Serialize(const std::vector<Outcome>& v) {
  std::string o;
  PutI(o, (int32_t)v.size());
  for (auto& x : v) {
    PutI(o, x.ok);
    PutS(o, x.msg);
    PutI(o, (int32_t)x.vals.size());
    for (auto& s : x.vals) PutS(o, s);
    PutI(o, (int32_t)x.stores.size());
    for (auto& s : x.stores) { PutI(o, s.slot); PutS(o, s.val); }
    PutI(o, (int32_t)x.trace.size());
    for (int32_t t : x.trace) PutI(o, t);
    PutI(o, (int32_t)x.errs.size());
    for (int32_t t : x.errs) PutI(o, t);
    PutS(o, x.mask);
    PutS(o, x.raised);
    PutI(o, (int32_t)x.own);
  }
  return o;
}
std::vector<Outcome> Deserialize(const std::string& s) {
  size_t p = 0;
  bool bad = false;
  auto I = [&]() -> int32_t { if (p + 4 > s.size()) { bad = true; return 0; } int32_t v; memcpy(&v, s.data() + p, 4); p += 4; return v; };
  auto S = [&]() -> std::string { uint32_t n = (uint32_t)I(); if (bad || p + n > s.size()) { bad = true; return ""; } std::string r = s.substr(p, n); p += n; return r; };
  std::vector<Outcome> v;
  int n = I();
  for (int i = 0; i < n && !bad; ++i) {
    Outcome x;
    x.ok = I();
    x.msg = S();
    for (int k = I(); k > 0 && !bad; --k) x.vals.push_back(S());
    for (int k = I(); k > 0 && !bad; --k) { int sl = I(); x.stores.push_back({sl, S()}); }
    for (int k = I(); k > 0 && !bad; --k) x.trace.push_back(I());
    for (int k = I(); k > 0 && !bad; --k) x.errs.push_back(I());
    x.mask = S();
    x.raised = S();
    x.own = (uint32_t)I();
    v.push_back(std::move(x));
  }
  if (bad) v.clear();
  return v;
}
std::vector<int32_t> ErrorTokens(const std::string& msg) {
  std::vector<int32_t> v;
  size_t p = 0;
  while ((p = msg.find("<E#", p)) != std::string::npos) { v.push_back(atoi(msg.c_str() + p + 3)); p += 3; }
  return v;
}

// ------------------------------------------------------------------ executing
static Status Raw(Eng& e, const Call& c, ExecContext* ctx, void* arg, void* out, RetType* one, std::vector<RetType>* all) {
  switch (e.kind) {
    case Kind::Single:
      if (c.voidp) return ctx ? e.s->Execute(*ctx, arg, out) : e.s->Execute(arg, out);
      return ctx ? e.s->Execute(*ctx, arg, one) : e.s->Execute(arg, one);
    case Kind::Batch:
      if (c.entry < 0) {
        if (c.voidp) return ctx ? e.b->ExecuteAll(*ctx, arg, out) : e.b->ExecuteAll(arg, out);
        return ctx ? e.b->ExecuteAll(*ctx, arg, all) : e.b->ExecuteAll(arg, all);
      }
      if (c.voidp) return ctx ? e.b->ExecuteAt(c.entry, *ctx, arg, out) : e.b->ExecuteAt(c.entry, arg, out);
      return ctx ? e.b->ExecuteAt(c.entry, *ctx, arg, one) : e.b->ExecuteAt(c.entry, arg, one);
    case Kind::Expr:
      return ctx ? e.e->Execute(*ctx, arg, one) : e.e->Execute(arg, one);
    default:
      return ctx ? e.p->Execute(*ctx, arg, out) : e.p->Execute(arg, out);
  }
}
Outcome Exec(Eng& e, const Call& c, const gen::Program& prog, ExecContext* ctx, Rec* rec) {
  std::unique_ptr<Rec> own;
  if (!rec) {
    sim::NoYield ny;
    own = MakeRec(c.rec_seed, prog.tokens, c.ro);
    rec = own.get();
  }
  Outcome o;
  Out out;
  out.log = &o.stores;
  RetType one;
  std::vector<RetType> all;
  if (c.voidp) sim::Hit(sim::PR_VOIDPTR_CALL);
  if (c.entry == -1) sim::Hit(sim::PR_BATCH_ALL);
  sim::sh->execs++;
  {
    // callers reuse their result variables: what is in them beforehand must not matter
    sim::NoYield ny;
    uint64_t h = (c.rec_seed + sim::sh->execs * 7) * 0x9E3779B97F4A7C15ULL >> 32;
    auto stale = [](uint64_t k) -> RetType {
      switch (k % 6) {
        case 0: return std::string("stale result of another call");
        case 1: return std::vector<double>(1 + k % 9, -1.5);
        case 2: return std::vector<std::string>(k % 5, "stale");
        case 3: return (uint64_t)0xdeadbeefdeadbeefULL;
        case 4: return std::vector<uint8_t>(k % 40, 7);
        default: return -2.5f;
      }
    };
    if (!c.voidp && h % 3 && e.kind != Kind::Pipe) {
      if (c.entry == -1) for (size_t i = 0; i < h % 13; ++i) all.push_back(stale(h + i));
      else {
        size_t i = e.b ? (size_t)c.entry : 0;
        if (i < prog.types.size() && prog.types[i] != gen::VT::kVoid) one = stale(h);
      }
    }
  }
  DirtyStack();
  {
    sim::JitStep step(c.step);
    Status s = Raw(e, c, c.ctx ? ctx : nullptr, rec, &out, &one, &all);
    o.ok = s.ok();
    if (!o.ok) o.msg = s.ToString();
  }
  sim::NoYield ny;
  if (!c.voidp && e.kind != Kind::Pipe) {
    if (c.entry == -1) {
      for (size_t i = 0; i < all.size(); ++i) o.vals.push_back(i < e.Count() && e.b->GetReturnType(i) == gen::VT::kVoid ? ValStr(RetType{}) : ValStr(all[i]));
      if (!o.ok && e.Count() == 0) o.vals.clear();
    }
    else o.vals.push_back(ValStr(o.ok ? one : RetType{}));   // a failed call promises no value
  }
  o.trace = rec->trace;
  o.errs = rec->errs;
  o.own = rec->own_created;
  o.nraised = rec->ctx_errs.size();
  for (size_t i = 0; i < rec->ctx_errs.size(); ++i) o.raised += (i ? "; " : "") + rec->ctx_errs[i];
  sim::Hit(o.ok ? sim::PR_OK_EXEC : sim::PR_ERR_EXEC);
  if (!o.vals.empty() && o.vals[0].size() > 1 && o.vals[0][0] == 's' && o.vals[0][1] >= '0' && o.vals[0][1] <= '9') sim::Hit(sim::PR_STR_RESULT);
  if (!o.vals.empty() && o.vals[0].find("list[") != std::string::npos) sim::Hit(sim::PR_LIST_RESULT);
  if (!rec->ctx_problem.empty()) sim::Violate("bad-context", rec->ctx_problem + "; " + c.Str());
  if (rec->own_destroyed != rec->own_created || !rec->own_live.empty())
    sim::Violate("objects-left-alive", c.Str() + ": " + std::to_string(rec->own_created) + " tracked objects created in the context, " + std::to_string(rec->own_destroyed) + " destroyed when the call had returned");
  if (c.ctx && ctx && ctx->HasErrors()) sim::Violate("errors-left-in-context", c.Str() + ": context still holds errors after the call: " + ctx->GetErrorMessage());
  if (DataSum(*rec) != rec->data_sum) sim::Violate("input-modified", c.Str() + ": the execution overwrote the caller's input data, or what follows it");
  return o;
}
Outcome Alone(Eng& e, const Call& c0, const gen::Program& prog) {
  Call c = c0;
  c.step = false;
  ExecContext ctx(e.opt.exec_ctx_arena_alloc_min_chunk_size);
  Outcome o = Exec(e, c, prog, &ctx);
  if (c.entry == -1 && e.kind == Kind::Batch) {
    for (size_t i = 0; i < e.Count(); ++i) {
      ExecContext cx(e.opt.exec_ctx_arena_alloc_min_chunk_size);
      Call k = c;
      k.entry = (int)i;
      o.mask += Exec(e, k, prog, &cx).ok ? '1' : '0';
    }
  }
  return o;
}

std::string RunInClone(const std::function<std::string()>& fn, std::string* crash) {
  int fd[2];
  if (pipe(fd) != 0) sim::Violate("sim-internal", "pipe");
  pid_t pid = fork();
  if (pid < 0) sim::Violate("sim-internal", "fork");
  if (pid == 0) {
    close(fd[0]);
    sim::ArmLimits(30, 80);
    std::string r = fn();
    size_t p = 0;
    while (p < r.size()) {
      ssize_t n = write(fd[1], r.data() + p, r.size() - p);
      if (n <= 0) _exit(3);
      p += (size_t)n;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string out;
  static char buf[65536];
  for (;;) {
    ssize_t n = read(fd[0], buf, sizeof buf);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) break;
    out.append(buf, (size_t)n);
  }
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (sim::sh->done == 2) _exit(0);
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }   // out of time here means out of time there
  if (WIFSIGNALED(st)) { if (crash) *crash = "signal " + std::to_string(WTERMSIG(st)) + " during: " + sim::sh->op; else sim::Violate("crash-alone", "a solo execution died with signal " + std::to_string(WTERMSIG(st)) + " during: " + sim::sh->op); }
  else if (WEXITSTATUS(st) != 0) { sim::Violate("sim-internal", "clone exit " + std::to_string(WEXITSTATUS(st))); }
  return out;
}
}  // namespace world
