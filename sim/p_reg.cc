// C15: histories of registrations, overrides and refused registrations in several registries, interleaved with compiles,
// loads and executions, against a model of what every registry holds and of what every compiled program was bound to.
#include <algorithm>
#include <array>
#include <cstring>
#include <map>
#include <optional>
#include "life.h"
#include "props.h"
#include "llvm/IR/IRBuilder.h"

namespace props {
using gen::EP;
using gen::Ex;
using gen::K;
namespace {
// ---- the functions that get registered: what one returns tells which one it is
thread_local void* tl_ctx = nullptr;   // the context handed to the execution in progress, when there is one
template <class T> int64_t N(T v) { return (int64_t)v; }
template <class R, int ID, int VAR, class... P> struct Fn {
  static R Plain(P... p) { int64_t s = 0, w = 1; ((s += N(p) * w++), ...); return (R)(s * 3 + ID); }
  static R Comm(P... p) { int64_t s = 0; ((s += N(p)), ...); return (R)(s * 3 + ID + 40); }
  static R PlainCtx(P... p, void* c) { int64_t s = 0, w = 1; ((s += N(p) * w++), ...); return (R)(s * 3 + ID + (c && (!tl_ctx || c == tl_ctx) ? 80 : 90)); }
  static R CommCtx(P... p, void* c) { int64_t s = 0; ((s += N(p)), ...); return (R)(s * 3 + ID + (c && (!tl_ctx || c == tl_ctx) ? 120 : 90)); }
  static void* Ptr() { return VAR == 0 ? (void*)Plain : VAR == 1 ? (void*)Comm : VAR == 2 ? (void*)PlainCtx : (void*)CommCtx; }
};
template <class R, int ID, class P> struct Sfn {
  static R Store(void* o, P v) {
    auto* out = (world::Out*)o;
    out->log->push_back({ID, std::to_string(N(v))});
    if constexpr (!std::is_void_v<R>) return (R)0;
  }
};
const VT kTy[4] = {VT::kI32, VT::kI64, VT::kF64, VT::kU8};
int TyIdx(VT t) { for (int i = 0; i < 4; ++i) if (kTy[i] == t) return i; return -1; }
const std::vector<std::vector<VT>> kPar = {{VT::kI32}, {VT::kI32, VT::kI32}, {VT::kF64}, {VT::kF64, VT::kI32}, {VT::kI64}, {VT::kU8}, {VT::kI64, VT::kI64}, {VT::kF64, VT::kF64}, {VT::kU8, VT::kI32}};
void* g_fn[9][4][4][4];       // parameter list, return type, id, variant
void* g_st[4][2][4];          // value type, void or i32, id
template <int PL, class... P> void Fill() {
  auto row = [&](auto ret, int ri) {
    using R = decltype(ret);
    auto one = [&](auto idc) {
      constexpr int ID = decltype(idc)::value;
      g_fn[PL][ri][ID][0] = Fn<R, ID, 0, P...>::Ptr(); g_fn[PL][ri][ID][1] = Fn<R, ID, 1, P...>::Ptr();
      g_fn[PL][ri][ID][2] = Fn<R, ID, 2, P...>::Ptr(); g_fn[PL][ri][ID][3] = Fn<R, ID, 3, P...>::Ptr();
    };
    one(std::integral_constant<int, 0>()); one(std::integral_constant<int, 1>()); one(std::integral_constant<int, 2>()); one(std::integral_constant<int, 3>());
  };
  row(int32_t(), 0); row(int64_t(), 1); row(double(), 2); row(uint8_t(), 3);
}
template <int T, class P> void FillSt() {
  auto one = [&](auto idc) {
    constexpr int ID = decltype(idc)::value;
    g_st[T][0][ID] = (void*)Sfn<void, ID, P>::Store;
    g_st[T][1][ID] = (void*)Sfn<int32_t, ID, P>::Store;
  };
  one(std::integral_constant<int, 0>()); one(std::integral_constant<int, 1>()); one(std::integral_constant<int, 2>()); one(std::integral_constant<int, 3>());
}
void FillAll() {
  if (g_fn[0][0][0][0]) return;
  Fill<1, int32_t, int32_t>(); Fill<2, double>(); Fill<3, double, int32_t>(); Fill<4, int64_t>(); Fill<5, uint8_t>();
  Fill<6, int64_t, int64_t>(); Fill<7, double, double>(); Fill<8, uint8_t, int32_t>();
  FillSt<0, int32_t>(); FillSt<1, int64_t>(); FillSt<2, double>(); FillSt<3, uint8_t>();
  Fill<0, int32_t>();
}

// ---- model
enum class BK { C, Ctx, Intrin, Store, Builtin };
struct Bind { BK k = BK::C; VT ret = VT::kI32; int id = 0, var = 0; void* fn = nullptr; bool legacy = false; };
struct Key {
  std::string n; std::vector<VT> p;
  bool operator<(const Key& o) const { return n != o.n ? n < o.n : p < o.p; }
  std::string Str() const { std::string s = n + "("; for (VT t : p) s += std::string(s.back() == '(' ? "" : ",") + gen::TName(t); return s + ")"; }
};
std::string Str(const Bind& b) {
  static const char* k[] = {"C function", "C function with context", "intrinsic", "store function", "built-in"};
  return std::string(k[(int)b.k]) + (b.legacy ? " (explicit context)" : "") + " #" + std::to_string(b.id) + (b.var & 1 ? " commutative" : "") + " -> " + gen::TName(b.ret);
}
struct Reg { Registry reg; std::map<Key, Bind> m; int no; };
struct BuiltinDef { const char* n; std::vector<VT> p; VT r; };
const BuiltinDef kBuiltin[] = {{"abs", {VT::kI32}, VT::kI32}, {"abs", {VT::kI64}, VT::kI64}, {"max", {VT::kI32, VT::kI32}, VT::kI32}, {"max", {VT::kF64, VT::kF64}, VT::kF64},
                               {"min", {VT::kI64, VT::kI64}, VT::kI64}, {"CastI64", {VT::kI32}, VT::kI64}, {"CastF64", {VT::kI64}, VT::kF64}};
// A compiled call tree with everything the program was bound to.
struct Node { bool leaf = false, ctx = false; VT t = VT::kI32; int64_t v = 0; std::string n; std::vector<Node> a; Bind b; };
int64_t Wrap(VT t, int64_t v) { return t == VT::kU8 ? (int64_t)(uint8_t)v : v; }
int64_t Eval(const Node& x, std::vector<world::StoreRec>* st) {
  if (x.leaf) return x.v;
  std::vector<int64_t> v;
  for (auto& c : x.a) if (!c.ctx && c.t != VT::kPtr) v.push_back(Eval(c, st));
  if (x.b.k == BK::Store) { st->push_back({x.b.id, std::to_string(v[0])}); return 0; }
  if (x.b.k == BK::Builtin) {
    if (x.n == "max") return std::max(v[0], v[1]);
    if (x.n == "min") return std::min(v[0], v[1]);
    return v[0];
  }
  int64_t s = 0, w = 1;
  for (int64_t y : v) { s += y * w; if (!(x.b.var & 1) || x.b.k == BK::Intrin) ++w; }
  int64_t add = x.b.k == BK::Intrin ? 160 : (x.b.var == 0 ? 0 : x.b.var == 1 ? 40 : x.b.var == 2 ? 80 : 120);
  return Wrap(x.b.ret, s * 3 + x.b.id + add);
}
std::string Show(VT t, int64_t v) {
  switch (t) {
    case VT::kI32: return world::ValStr(RetType((int32_t)v));
    case VT::kI64: return world::ValStr(RetType((int64_t)v));
    case VT::kF64: return world::ValStr(RetType((double)v));
    default: return world::ValStr(RetType((uint8_t)v));
  }
}
EP ToEx(const Node& x) {
  if (x.ctx) return std::make_unique<Ex>(K::Ctx, VT::kPtr);
  if (x.leaf && x.t == VT::kPtr) return std::make_unique<Ex>(K::Out, VT::kPtr);
  if (x.leaf) {
    auto e = std::make_unique<Ex>(K::Const, x.t);
    switch (x.t) {
      case VT::kI32: e->cv = (int32_t)x.v; break;
      case VT::kI64: e->cv = (int64_t)x.v; break;
      case VT::kF64: e->cv = (double)x.v; break;
      default: e->cv = (uint8_t)x.v; break;
    }
    return e;
  }
  auto e = std::make_unique<Ex>(K::Call, x.b.ret);
  e->name = x.n;
  for (auto& c : x.a) e->a.push_back(ToEx(c));
  return e;
}
// the symbols the machine code of a tree refers to
void Symbols(const Node& x, std::map<Key, Bind>* out) {
  for (auto& c : x.a) Symbols(c, out);
  if (x.leaf || x.ctx || x.b.k == BK::Intrin || x.b.k == BK::Builtin) return;
  Key k{x.n, {}};
  for (auto& c : x.a) k.p.push_back(c.t);
  if (x.b.k == BK::Ctx) k.p.push_back(VT::kPtr);
  (*out)[k] = x.b;
}
Node Leaf(VT t, Rng& r) { Node x; x.leaf = true; x.t = t; x.v = (int64_t)r.Below(8); return x; }
// a call resolved with what the registry holds now
bool MakeNode(const Reg& g, VT want, bool any, int depth, Rng& r, Node* out) {
  std::vector<const std::pair<const Key, Bind>*> c;
  for (auto& kv : g.m)
    if (kv.second.k != BK::Store && (any || kv.second.ret == want)) {
      c.push_back(&kv);
      if (kv.second.k != BK::Builtin) { c.push_back(&kv); c.push_back(&kv); }
    }
  if (c.empty()) return false;
  auto* kv = c[r.Below(c.size())];
  Node x;
  x.n = kv->first.n; x.b = kv->second; x.t = x.b.ret;
  for (VT t : kv->first.p) {
    Node a;
    if (t == VT::kPtr) { a.ctx = a.leaf = true; a.t = t; }
    else if (depth <= 0 || !r.P(0.4) || !MakeNode(g, t, false, depth - 1, r, &a)) a = Leaf(t, r);
    x.a.push_back(std::move(a));
  }
  *out = std::move(x);
  return true;
}
bool MakeStore(const Reg& g, Rng& r, Node* out) {
  std::vector<const std::pair<const Key, Bind>*> c;
  for (auto& kv : g.m) if (kv.second.k == BK::Store) c.push_back(&kv);
  if (c.empty()) return false;
  auto* kv = c[r.Below(c.size())];
  Node x, o, v;
  x.n = kv->first.n; x.b = kv->second; x.t = x.b.ret;
  o.leaf = true; o.t = VT::kPtr;
  if (!MakeNode(g, kv->first.p[1], false, 1, r, &v)) v = Leaf(kv->first.p[1], r);
  x.a.push_back(std::move(o)); x.a.push_back(std::move(v));
  *out = std::move(x);
  return true;
}
struct Prog { Program p; std::vector<std::vector<Node>> e; };   // one list of trees per entry (statements of a pipeline)
bool MakeProg(const Reg& g, Kind kind, Rng& r, Prog* out) {
  out->p = Program();
  out->p.kind = kind;
  out->e.clear();
  int n = kind == Kind::Batch || kind == Kind::Pipe ? 1 + (int)r.Below(3) : 1;
  for (int i = 0; i < n; ++i) {
    out->e.emplace_back();
    auto& l = out->e.back();
    if (kind == Kind::Pipe) {
      auto no = std::make_unique<Ex>(K::Noop, VT::kVoid);
      for (int s = 0, m = 1 + (int)r.Below(2); s < m; ++s) {
        Node x;
        if (!MakeStore(g, r, &x)) return false;
        no->a.push_back(ToEx(x)); no->vn.push_back(""); no->vc.push_back(0);
        l.push_back(std::move(x));
      }
      out->p.entries.push_back(std::move(no));
      out->p.types.push_back(VT::kVoid);
      continue;
    }
    Node x;
    if (!MakeNode(g, VT::kI32, true, 2, r, &x)) return false;
    out->p.types.push_back(x.t);
    if (kind == Kind::Expr) {
      auto no = std::make_unique<Ex>(K::Noop, x.t);
      no->a.push_back(ToEx(x)); no->vn.push_back("r"); no->vc.push_back(0);
      out->p.entries.push_back(std::move(no));
    } else {
      out->p.entries.push_back(ToEx(x));
    }
    l.push_back(std::move(x));
  }
  return true;
}
struct Served { std::unique_ptr<Eng> e; Prog p; std::string what; };
struct Saved { std::string bytes; Kind kind; ExecEngineOption opt; std::shared_ptr<Prog> p; };
Prog CopyProg(const Prog& p) { Prog q; q.p = p.p.Copy(); q.e = p.e; return q; }

void CheckServed(Served& s, Rng r, ExecContext* ctx) {
  Call c;
  c.rec_seed = r.U64();
  c.ctx = ctx && r.P(0.6);
  c.voidp = s.e->kind == Kind::Pipe;
  if (s.e->kind == Kind::Batch) c.entry = r.P(0.5) ? -1 : (int)r.Below(s.p.e.size());
  tl_ctx = c.ctx ? ctx : nullptr;
  Rec blank{};
  blank.spans = std::make_shared<std::vector<std::pair<const char*, size_t>>>();
  blank.data_sum = world::DataSum(blank);
  Outcome o = world::Exec(*s.e, c, s.p.p, ctx, &blank);
  tl_ctx = nullptr;
  sim::NoYield ny;
  Outcome w;
  for (size_t i = 0; i < s.p.e.size(); ++i) {
    if (c.entry >= 0 && (size_t)c.entry != i) continue;
    for (auto& x : s.p.e[i]) {
      int64_t v = Eval(x, &w.stores);
      if (s.e->kind != Kind::Pipe) w.vals.push_back(Show(x.t, v));
    }
  }
  std::string got, want;
  for (auto* l : {&o.stores, &w.stores})   // the scripts of a pipeline may run in any order (C11 decides the order within one)
    std::sort(l->begin(), l->end(), [](auto& a, auto& b) { return a.slot != b.slot ? a.slot < b.slot : a.val < b.val; });
  for (auto& v : o.vals) got += v + " ";
  for (auto& v : o.stores) got += "[" + std::to_string(v.slot) + "=" + v.val + "] ";
  for (auto& v : w.vals) want += v + " ";
  for (auto& v : w.stores) want += "[" + std::to_string(v.slot) + "=" + v.val + "] ";
  sim::LogEvent(std::hash<std::string>()(got));
  if (!o.ok) sim::Violate("bound-program-fails", s.what + ": execution failed: " + o.msg + "\n" + s.p.p.Source());
  if (got != want) sim::Violate("wrong-function", s.what + ": " + c.Str() + "\n  got  " + got + "\n  want " + want + "(the functions registered when it was compiled or loaded)\n" + s.p.p.Source());
}

struct World {
  std::vector<std::unique_ptr<Reg>> regs;
  std::vector<Served> served;
  std::vector<Saved> saved;
  std::vector<std::shared_ptr<ExecContext>> ctxs;
};
void NewReg(World& w, size_t at) {
  auto g = std::make_unique<Reg>();
  if (!FunctionRegistryFactory::CreateFunctionRegistry(&g->reg).ok()) sim::Violate("registry-creation-failed", "CreateFunctionRegistry returned an error");
  for (auto& b : kBuiltin) { Bind x; x.k = BK::Builtin; x.ret = b.r; g->m[{b.n, b.p}] = x; }
  g->no = (int)at;
  if (at < w.regs.size()) w.regs[at] = std::move(g); else w.regs.push_back(std::move(g));
}
CodeGenFunc Intrin(int id, VT ret) {
  return [id, ret](const FunctionSignature& sg, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>& args, IRCodeGenContext& c) -> llvm::Value* {
    auto& b = c.builder;
    llvm::Value* s = llvm::ConstantInt::get(b.getInt64Ty(), 0);
    for (size_t i = 0; i < args.size(); ++i) {
      VT t = sg.GetParamTypes()[i];
      llvm::Value* v = args[i];
      if (t == VT::kF64) v = b.CreateFPToSI(v, b.getInt64Ty());
      else if (t == VT::kU8) v = b.CreateZExt(v, b.getInt64Ty());
      else v = b.CreateSExtOrTrunc(v, b.getInt64Ty());
      s = b.CreateAdd(s, b.CreateMul(v, llvm::ConstantInt::get(b.getInt64Ty(), i + 1)));
    }
    s = b.CreateAdd(b.CreateMul(s, llvm::ConstantInt::get(b.getInt64Ty(), 3)), llvm::ConstantInt::get(b.getInt64Ty(), id + 160));
    switch (ret) {
      case VT::kI32: return b.CreateTrunc(s, b.getInt32Ty());
      case VT::kI64: return s;
      case VT::kF64: return b.CreateSIToFP(s, b.getDoubleTy());
      default: return b.CreateTrunc(s, b.getInt8Ty());
    }
  };
}
// what GetFuncBySign must answer for a key
void Query(Reg& g, const Key& k, const std::string& where) {
  FunctionSignature q(k.n, k.p, VT::kUnknown);
  FunctionStructure fs;
  fs.func_type = FunctionType::kCFunc; fs.c_func_ptr = nullptr;
  Status s = g.reg->GetFuncBySign(q, &fs);
  sim::NoYield ny;
  auto it = g.m.find(k);
  std::string st = s.ok() ? "" : s.ToString();
  if (it == g.m.end()) {
    if (s.ok()) sim::Violate("lookup-finds-unregistered", where + ": registry " + std::to_string(g.no) + " answers a lookup of " + k.Str() + ", which was never registered there");
    return;
  }
  if (!s.ok()) sim::Violate("lookup-misses", where + ": registry " + std::to_string(g.no) + " does not find " + k.Str() + " [" + Str(it->second) + "]: " + st);
  if (q.GetRetType() != it->second.ret) sim::Violate("lookup-wrong-type", where + ": registry " + std::to_string(g.no) + " says " + k.Str() + " returns " + gen::TName(q.GetRetType()) + ", it was registered as [" + Str(it->second) + "]");
  bool il = fs.func_type == FunctionType::kLLVMIntrinicFunc;
  if (it->second.k == BK::Builtin) return;
  if (il != (it->second.k == BK::Intrin) || (!il && fs.c_func_ptr != it->second.fn))
    sim::Violate("lookup-wrong-function", where + ": registry " + std::to_string(g.no) + " holds another function for " + k.Str() + " than the one registered last [" + Str(it->second) + "]");
}
void Registration(Reg& g, Rng& r, const std::string& where) {
  static const char* names[] = {"uf0", "uf1", "uf2"};
  Key k;
  Bind b;
  b.id = (int)r.Below(4);
  bool ov = r.P(0.5), null = r.P(0.1);
  int how = (int)r.Below(100);
  if (how < 14) {                                                   // store function
    int t = (int)r.Below(4), v = r.P(0.5);
    k = {r.P(0.6) ? "us0" : "us1", {VT::kPtr, kTy[t]}};
    b.k = BK::Store; b.ret = v ? VT::kI32 : VT::kVoid; b.fn = g_st[t][v][b.id];
    sim::SetOp("registry %d: register %s [%s]%s%s", g.no, k.Str().c_str(), Str(b).c_str(), ov ? " override" : "", null ? " null pointer" : "");
    Status s = g.reg->RegisterStoreCFunc(FunctionSignature(k.n, k.p, b.ret), null ? nullptr : b.fn, 1, ov);
    bool want = !null && (ov || !g.m.count(k));
    if (s.ok() != want) sim::Violate(want ? "registration-refused" : "registration-accepted", where + ": " + sim::sh->op + ": " + (s.ok() ? "accepted" : s.ToString()));
    if (want) g.m[k] = b;
    return;
  }
  int pl = (int)r.Below(9), ri = (int)r.Below(4);
  k = {names[r.Below(3)], kPar[pl]};
  if (r.P(0.15)) {                                                  // one of the built-ins
    auto& d = kBuiltin[r.Below(sizeof kBuiltin / sizeof *kBuiltin)];
    k = {d.n, d.p};
    for (pl = 0; kPar[pl] != d.p;) ++pl;
  } else if (r.P(0.65)) {                                           // one that is registered already, in one spelling or both
    std::vector<Key> c;
    for (auto& kv : g.m) {
      if (kv.second.k == BK::Builtin || kv.second.k == BK::Store) continue;
      c.push_back(kv.first);
      if (c.back().p.back() == VT::kPtr) c.back().p.pop_back();
    }
    if (!c.empty()) {
      k = c[r.Below(c.size())];
      for (pl = 0; kPar[pl] != k.p;) ++pl;
    }
  }
  b.ret = kTy[ri];
  Key lk = k;
  lk.p.push_back(VT::kPtr);
  Status s = Status::OK();
  bool want = false;
  auto op = [&](const char* f) { sim::SetOp("registry %d: %s %s [%s]%s%s", g.no, f, k.Str().c_str(), Str(b).c_str(), ov ? " override" : "", null ? " null" : ""); };
  FunctionSignature sg(k.n, k.p, b.ret);
  if (how < 46) {                                                   // plain or commutative
    b.var = how & 1;
    b.fn = g_fn[pl][ri][b.id][b.var];
    void* f = null ? nullptr : b.fn;
    want = !null && (ov || !g.m.count(k));
    if (r.P(0.15)) {
      op("RegisterFunc");
      FunctionStructure fs;
      fs.func_type = FunctionType::kCFunc; fs.c_func_ptr = f;
      b.var = 0; b.fn = g_fn[pl][ri][b.id][0];
      fs.c_func_ptr = null ? nullptr : b.fn;
      s = g.reg->RegisterFunc(sg, fs, ov);
    } else if (b.var) { op("RegisterCommutativeCFunc"); s = g.reg->RegisterCommutativeCFunc(sg, f, ov); }
    else { op("RegisterReadOnlyCFunc"); s = g.reg->RegisterReadOnlyCFunc(sg, f, ov); }
    if (want) g.m[k] = b;
  } else if (how < 74) {                                            // with context
    b.k = BK::Ctx;
    b.var = 2 + (how & 1);
    b.fn = g_fn[pl][ri][b.id][b.var];
    void* f = null ? nullptr : b.fn;
    want = !null && (ov || (!g.m.count(k) && !g.m.count(lk)));
    op(b.var == 3 ? "RegisterCommutativeCFuncWithExecCtx" : "RegisterReadOnlyCFuncWithExecCtx");
    s = b.var == 3 ? g.reg->RegisterCommutativeCFuncWithExecCtx(sg, f, ov) : g.reg->RegisterReadOnlyCFuncWithExecCtx(sg, f, ov);
    if (want) {
      g.m[k] = b;
      b.k = BK::C; b.legacy = true;
      g.m[lk] = b;
    }
  } else if (how < 84) {                                            // the explicit spelling of a function with context
    auto it = g.m.find(k);
    if (it != g.m.end() && it->second.k == BK::Ctx) return;         // (it would share its symbol with the implicit one)
    b.legacy = true;
    b.var = 2 + (how & 1);
    b.fn = g_fn[pl][ri][b.id][b.var];
    void* f = null ? nullptr : b.fn;
    want = !null && (ov || !g.m.count(lk));
    FunctionSignature ls(lk.n, lk.p, b.ret);
    op("(explicit context)");
    s = b.var == 3 ? g.reg->RegisterCommutativeCFunc(ls, f, ov) : g.reg->RegisterReadOnlyCFunc(ls, f, ov);
    if (want) g.m[lk] = b;
  } else {                                                          // intrinsic
    b.k = BK::Intrin;
    want = !null && (ov || !g.m.count(k));
    op("RegisterLLVMIntrinicFunc");
    CodeGenFunc f;
    if (!null) f = Intrin(b.id, b.ret);
    s = g.reg->RegisterLLVMIntrinicFunc(sg, f, ov);
    if (want) g.m[k] = b;
  }
  if (s.ok() != want) sim::Violate(want ? "registration-refused" : "registration-accepted", where + ": " + sim::sh->op + ": " + (s.ok() ? "accepted" : s.ToString()));
  sim::Explain("%s: %s%s\n", where.c_str(), sim::sh->op, want ? "" : " -> refused");
  Query(g, k, where);
  Query(g, lk, where);
}
Kind RKind(Rng& r) { static const Kind k[] = {Kind::Single, Kind::Single, Kind::Batch, Kind::Batch, Kind::Expr, Kind::Pipe}; return k[r.Below(6)]; }
void Step(World& w, Rng& er, int n, ExecContext* ctx) {
  std::string where = "operation " + std::to_string(n);
  Reg& g = *w.regs[er.Below(w.regs.size())];
  int op = (int)er.Below(100);
  if (op < 34) { Registration(g, er, where); Config(1); return; }
  if (op < 40) {                                                    // lookups
    std::vector<Key> ks;
    {
      sim::NoYield ny;
      for (auto& q : w.regs) for (auto& kv : q->m) ks.push_back(kv.first);
    }
    sim::SetOp("look up in registry %d", g.no);
    for (int i = 0; i < 4; ++i) Query(g, ks[er.Below(ks.size())], where);
    Config(2);
    return;
  }
  if (op < 62) {                                                    // compile
    Kind kind = RKind(er);
    Served s;
    if (!MakeProg(g, kind, er, &s.p)) { kind = Kind::Single; if (!MakeProg(g, kind, er, &s.p)) return; }
    auto opt = RandOpt(er, er.P(0.6));
    bool save = opt.enable_save_compiled;
    s.e = std::make_unique<Eng>(kind, opt);
    s.what = std::string(gen::KindName(kind)) + " compiled by operation " + std::to_string(n) + " with registry " + std::to_string(g.no);
    sim::SetOp("compile (%s)", s.what.c_str());
    sim::Explain("%s: compile a %s with registry %d\n%s", where.c_str(), gen::KindName(kind), g.no, s.p.p.Source().c_str());
    if (er.P(0.12)) {                                               // with one name this registry does not know
      Program bad = s.p.p.Copy();
      Ex* e = bad.entries[er.Below(bad.entries.size())].get();
      while (e->k != K::Call) e = e->a[0].get();
      e->name = e->name == "uf9" ? "uf8" : "uf9";
      St st = s.e->Compile(bad, g.reg);
      if (st.ok) sim::Violate("unregistered-accepted", where + ": a program that calls a function nobody registered compiled\n" + bad.Source());
      sim::Hit(sim::PR_COMPILE_FAIL);
      Config(4);
      if (er.P(0.5)) return;
    }
    St st = s.e->Compile(s.p.p, g.reg);
    if (!st.ok) sim::Violate("compile-refused", where + ": " + s.what + " failed: " + st.msg + "\n" + s.p.p.Source());
    sim::Hit(sim::PR_COMPILE_OK);
    CheckServed(s, er.Fork(1), ctx);
    if (save && (kind == Kind::Single || kind == Kind::Batch)) {
      Saved v;
      St q = s.e->Save(&v.bytes);
      if (!q.ok) sim::Violate("save-failed", where + ": " + q.msg);
      v.kind = kind; v.opt = opt;
      v.p = std::make_shared<Prog>(CopyProg(s.p));
      w.saved.push_back(std::move(v));
    }
    if (w.served.size() < 6) w.served.push_back(std::move(s)); else w.served[er.Below(6)] = std::move(s);
    Config(3);
    return;
  }
  if (op < 76) {                                                    // load
    if (w.saved.empty()) return;
    Saved& v = w.saved[er.Below(w.saved.size())];
    Served s;
    s.p = CopyProg(*v.p);
    s.what = std::string(gen::KindName(v.kind)) + " loaded by operation " + std::to_string(n) + " with registry " + std::to_string(g.no);
    std::map<Key, Bind> sy;
    for (auto& l : s.p.e) for (auto& x : l) Symbols(x, &sy);
    bool missing = false;
    for (auto& [k, b] : sy) {
      auto it = g.m.find(k);
      if (it == g.m.end() || it->second.k == BK::Intrin || it->second.k == BK::Builtin || it->second.k == BK::Ctx) { missing = true; continue; }
      if (it->second.ret != b.ret || it->second.var != b.var || it->second.k == BK::Store != (b.k == BK::Store)) return;   // a different interface: not a supported load
    }
    if (!missing) {
      std::function<void(Node&)> rebind = [&](Node& x) {
        for (auto& c : x.a) rebind(c);
        if (x.leaf || x.ctx || x.b.k == BK::Intrin || x.b.k == BK::Builtin) return;
        Key k{x.n, {}};
        for (auto& c : x.a) k.p.push_back(c.t);
        if (x.b.k == BK::Ctx) k.p.push_back(VT::kPtr);
        x.b = g.m[k];
      };
      for (auto& l : s.p.e) for (auto& x : l) rebind(x);
    }
    auto opt = RandOpt(er, false);
    opt.fp_math_mode = v.opt.fp_math_mode;
    s.e = std::make_unique<Eng>(v.kind, opt);
    sim::SetOp("load (%s)", s.what.c_str());
    sim::Explain("%s: load a %s with registry %d%s\n", where.c_str(), gen::KindName(v.kind), g.no, missing ? " (a function is missing)" : "");
    St st = s.e->Load(v.bytes, g.reg);
    if (st.ok && missing) sim::Violate("load-without-function", where + ": " + s.what + " succeeded although a function it needs is not registered there\n" + s.p.p.Source());
    if (!st.ok && !missing) sim::Violate("load-refused", where + ": " + s.what + " failed: " + st.msg + "\n" + s.p.p.Source());
    Config(missing ? 6 : 5);
    if (missing) { sim::Hit(sim::PR_LOAD_REJECT); sim::Fired(sim::F_MISSING_FUNC); return; }
    sim::Hit(sim::PR_LOAD_OK);
    CheckServed(s, er.Fork(1), ctx);
    if (w.served.size() < 6) w.served.push_back(std::move(s)); else w.served[er.Below(6)] = std::move(s);
    return;
  }
  if (op < 82) {                                                    // the registry goes away; engines compiled with it stay
    if (er.P(0.5)) {
      sim::SetOp("destroy and recreate registry %d", g.no);
      sim::Explain("%s: %s\n", where.c_str(), sim::sh->op);
      size_t at = g.no;
      NewReg(w, at);
      sim::Fired(sim::F_LIFETIME_KILL);
    } else if (!w.served.empty()) {
      w.served.erase(w.served.begin() + er.Below(w.served.size()));
    }
    Config(7);
    return;
  }
  if (w.served.empty()) return;
  Served& s = w.served[er.Below(w.served.size())];
  sim::SetOp("execute %s (%s)", s.what.c_str(), where.c_str());
  CheckServed(s, er.Fork(2), ctx);
  Config(8);
}
}  // namespace

void C15(Rng r) {
  FillAll();
  ExecContext main_ctx(512);
  World w;
  int nr = 1 + (int)r.Below(3);
  for (int i = 0; i < nr; ++i) NewReg(w, i);
  int nops = 20 + (int)r.Below(sim::spec.thorough ? 60 : 30);
  bool conc = r.P(0.3);
  int pre = conc ? nops / 2 : nops;
  auto run = [&](World& x, Rng s, int from, int to, ExecContext* c) {
    for (int n = from; n < to; ++n) {
      Rng er = s.Fork(9000 + n);
      if (!sim::KeepElem()) continue;
      Step(x, er, n, c);
    }
  };
  run(w, r.Fork(1), 0, pre, &main_ctx);
  if (conc) {
    // threads: one goes on with this world (engines it shares excepted), one executes what was compiled so far, one has a
    // world of its own
    std::vector<Served> shared;
    for (auto& s : w.served) shared.push_back(std::move(s));
    w.served.clear();
    std::vector<std::unique_ptr<World>> ws;
    int own = (int)r.Below(2);
    for (int i = 0; i < own; ++i) { ws.push_back(std::make_unique<World>()); NewReg(*ws.back(), 0); }
    std::vector<uint32_t> keep(nops, 1);
    std::vector<std::function<void()>> fns;
    Rng r1 = r.Fork(2), r2 = r.Fork(3), r3 = r.Fork(4);
    // elements are chosen before the threads start
    for (int n = pre; n < nops; ++n) keep[n] = sim::KeepElem();
    fns.push_back([&] {
      std::unique_ptr<ExecContext> c;
      { sim::NoYield ny; c = std::make_unique<ExecContext>(256); }
      for (int n = pre; n < nops; ++n) {
        if (!keep[n]) continue;
        Rng er = r1.Fork(9000 + n);
        Step(w, er, n, c.get());
      }
    });
    if (!shared.empty())
      fns.push_back([&] {
        std::unique_ptr<ExecContext> c;
        { sim::NoYield ny; c = std::make_unique<ExecContext>(256); }
        for (int n = 0; n < 12; ++n) {
          Rng er = r2.Fork(n);
          CheckServed(shared[er.Below(shared.size())], er.Fork(1), c.get());
        }
      });
    for (int i = 0; i < own; ++i)
      fns.push_back([&, i] {
        std::unique_ptr<ExecContext> c;
        { sim::NoYield ny; c = std::make_unique<ExecContext>(256); }
        for (int n = 0; n < 12; ++n) {
          Rng er = r3.Fork(n);
          Step(*ws[i], er, n, c.get());
        }
      });
    sim::RunThreads(fns, sim::RandomSched(r, true), r.Fork(7));
    for (auto& s : shared) { sim::SetOp("execute %s (at the end)", s.what.c_str()); CheckServed(s, r.Fork(77), &main_ctx); }
    if (r.P(0.5)) { w.regs.clear(); for (auto& x : ws) x->regs.clear(); }
    for (auto& x : ws) for (auto& s : x->served) CheckServed(s, r.Fork(79), &main_ctx);
  } else if (r.P(0.5)) {
    w.regs.clear();
  }
  for (auto& s : w.served) { sim::SetOp("execute %s (at the end)", s.what.c_str()); CheckServed(s, r.Fork(78), &main_ctx); }
}
}  // namespace props
