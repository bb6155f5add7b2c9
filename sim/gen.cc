#include "gen.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include "world.h"

namespace gen {
using namespace jitfusion;
const char* KindName(Kind k) {
  static const char* n[] = {"engine", "batch", "expression", "pipeline"};
  return n[(int)k];
}
static const char* kNames[] = {"unknown", "void", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "string",
  "u8list", "u16list", "u32list", "u64list", "i8list", "i16list", "i32list", "i64list", "f32list", "f64list", "stringlist", "ptr"};
const char* TName(VT t) { return kNames[(int)t]; }
static VT TParse(const std::string& s) {
  for (int i = 0; i < 25; ++i) if (s == kNames[i]) return (VT)i;
  return VT::kUnknown;
}
bool IsList(VT t) { return t >= VT::kU8List && t <= VT::kStringList; }
bool IsInt(VT t) { return t >= VT::kU8 && t <= VT::kI64; }
bool IsFloat(VT t) { return t == VT::kF32 || t == VT::kF64; }
bool IsNum(VT t) { return IsInt(t) || IsFloat(t); }
VT ElemOf(VT t) { return t == VT::kStringList ? VT::kString : (VT)((int)t - (int)VT::kU8List + (int)VT::kU8); }
VT ListOf(VT t) { return t == VT::kString ? VT::kStringList : (VT)((int)t - (int)VT::kU8 + (int)VT::kU8List); }
static bool FloatElem(VT t) { return t == VT::kF32 || t == VT::kF64 || t == VT::kF32List || t == VT::kF64List; }

// ------------------------------------------------------------------ IR helpers
EP CloneEx(const Ex& e) {
  auto n = std::make_unique<Ex>(e.k, e.t);
  n->cv = e.cv; n->cl = e.cl; n->op = e.op; n->name = e.name; n->vn = e.vn; n->vc = e.vc; n->isolated = e.isolated;
  for (auto& c : e.a) n->a.push_back(CloneEx(*c));
  return n;
}
std::unique_ptr<ExecNode> Ast(const Ex& e) {
  std::vector<std::unique_ptr<ExecNode>> a;
  if (e.k != K::Un && e.k != K::Bin) for (auto& c : e.a) a.push_back(Ast(*c));
  switch (e.k) {
    case K::Const: return std::make_unique<ConstantValueNode>(e.cv);
    case K::CList: return std::make_unique<ConstantListValueNode>(e.cl);
    case K::Un: return std::make_unique<UnaryOPNode>((UnaryOPType)e.op, Ast(*e.a[0]));
    case K::Bin: { auto l = Ast(*e.a[0]); auto r = Ast(*e.a[1]); return std::make_unique<BinaryOPNode>((BinaryOPType)e.op, std::move(l), std::move(r)); }
    case K::Call: return std::make_unique<FunctionNode>(e.name, std::move(a));
    case K::If: return std::make_unique<IfNode>(std::move(a));
    case K::Switch: return std::make_unique<SwitchNode>(std::move(a));
    case K::When: return std::make_unique<IfBlockNode>(std::move(a));
    case K::Ref: return std::make_unique<RefNode>(e.name);
    case K::Arg: return std::make_unique<EntryArgumentNode>();
    case K::Out: return std::make_unique<OutputNode>();
    case K::Ctx: return std::make_unique<ExecContextNode>();
    case K::Noop: {
      std::vector<VarInfo> vi;
      for (size_t i = 0; i < e.vn.size(); ++i) vi.emplace_back(e.vn[i], e.vc[i] != 0);
      return std::make_unique<NoOPNode>(std::move(vi), std::move(a), e.isolated);
    }
  }
  return nullptr;
}
static const char* Suffix(VT t) {
  switch (t) {
    case VT::kI32: return "";
    default: return TName(t);
  }
}
template <class T>
static std::string Num(T v, VT t) {
  char b[64];
  if constexpr (std::is_floating_point_v<T>) {
    snprintf(b, sizeof b, "%.6f%s", (double)v, t == VT::kF64 ? "" : "f32");
  } else if constexpr (std::is_signed_v<T>) {
    snprintf(b, sizeof b, "%lld%s", (long long)v, Suffix(t));
  } else {
    snprintf(b, sizeof b, "%llu%s", (unsigned long long)v, Suffix(t));
  }
  return b;
}
static std::string Lit1(const std::string& v, VT) { return "\"" + v + "\""; }
template <class T> static std::string Lit1(const T& v, VT t) { return Num(v, t); }
static std::string BinText(int op) {
  switch ((BinaryOPType)op) {
    case BinaryOPType::kAdd: return "+"; case BinaryOPType::kSub: return "-"; case BinaryOPType::kMul: return "*";
    case BinaryOPType::kDiv: return "/"; case BinaryOPType::kMod: return "%"; case BinaryOPType::kLarge: return ">";
    case BinaryOPType::kLargeEqual: return ">="; case BinaryOPType::kEqual: return "=="; case BinaryOPType::kLess: return "<";
    case BinaryOPType::kLessEqual: return "<="; case BinaryOPType::kNotEqual: return "!="; case BinaryOPType::kAnd: return "and";
    case BinaryOPType::kOr: return "or"; case BinaryOPType::kBitwiseAnd: return "&"; case BinaryOPType::kBitwiseOr: return "|";
    case BinaryOPType::kBitwiseXor: return "^"; case BinaryOPType::kBitwiseShiftLeft: return "<<"; case BinaryOPType::kBitwiseShiftRight: return ">>";
  }
  return "?";
}
std::string Text(const Ex& e) {
  auto args = [&] { std::string s; for (size_t i = 0; i < e.a.size(); ++i) { if (i) s += ", "; s += Text(*e.a[i]); } return s; };
  switch (e.k) {
    case K::Const: return std::visit([&](auto& v) { return Lit1(v, e.t); }, e.cv);
    case K::CList: {
      std::string s = "[";
      std::visit([&](auto& v) { bool first = true; for (auto x : v) { if (!first) s += ", "; first = false; s += Lit1(x, ElemOf(e.t)); } }, e.cl);
      return s + "]";
    }
    case K::Un: {
      static const char* u[] = {"+", "-"};
      std::string o = e.op == (int)UnaryOPType::kNot ? "not " : e.op == (int)UnaryOPType::kBitwiseNot ? "~" : u[e.op - 1];
      return "(" + o + "(" + Text(*e.a[0]) + "))";
    }
    case K::Bin: return "(" + Text(*e.a[0]) + " " + BinText(e.op) + " " + Text(*e.a[1]) + ")";
    case K::Call: return e.name == "in" ? "(" + Text(*e.a[0]) + " in " + Text(*e.a[1]) + ")" : e.name + "(" + args() + ")";
    case K::If: return "if(" + args() + ")";
    case K::Switch: return "switch(" + args() + ")";
    case K::Ref: return e.name;
    case K::Arg: return "entry_arg";
    case K::Out: return "output";
    case K::Ctx: return "exec_ctx";
    case K::When: {
      std::string s;
      size_t n = e.a.size();
      for (size_t i = 0; i + 1 < n; i += 2) s += std::string(i ? " elif " : "when ") + Text(*e.a[i]) + " {\n" + StmtText(*e.a[i + 1]) + "}";
      if (n & 1) s += " else {\n" + StmtText(*e.a[n - 1]) + "}";
      return s;
    }
    case K::Noop: return StmtText(e);
  }
  return "";
}
std::string StmtText(const Ex& n) {
  std::string s;
  for (size_t i = 0; i < n.a.size(); ++i) {
    if (n.a[i]->k == K::When) { s += Text(*n.a[i]) + "\n"; continue; }
    if (!n.vn[i].empty()) s += (n.vc[i] ? "let " : "") + n.vn[i] + " = ";
    s += Text(*n.a[i]) + ";\n";
  }
  return s;
}
Program Program::Copy() const {
  Program p;
  p.kind = kind; p.types = types; p.tokens = tokens; p.mark = mark;
  for (auto& e : entries) p.entries.push_back(CloneEx(*e));
  return p;
}
std::string Program::Source() const {
  std::string s;
  for (size_t i = 0; i < entries.size(); ++i) s += "--[" + std::to_string(i) + ":" + TName(types[i]) + "]\n" + (entries[i]->k == K::Noop ? StmtText(*entries[i]) : Text(*entries[i]) + "\n");
  return s;
}

// ------------------------------------------------------------------ builtin table
static std::vector<Sig> g_sigs;
static std::map<VT, std::vector<int>> g_by_ret;
static std::vector<std::string> g_names;
static std::map<std::string, std::vector<int>> g_by_name;
static bool Usable(const Sig& s) {
  if (s.name.rfind("__", 0) == 0) return false;
  for (VT p : s.p) if (p == VT::kPtr || p == VT::kUnknown) return false;
  if (s.r == VT::kPtr || s.r == VT::kUnknown) return false;
  if (s.p.size() == 3 && (s.name == "FilterByBitmap" || s.name.rfind("Group", 0) == 0)) return false;
  return true;
}
void LoadSigs(const std::string& path, const FunctionRegistry& reg) {
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    Sig s;
    size_t a = line.find('('), b = line.find(")->");
    if (a == std::string::npos || b == std::string::npos) continue;
    s.name = line.substr(0, a);
    std::string ps = line.substr(a + 1, b - a - 1);
    std::stringstream ss(ps);
    std::string t;
    while (std::getline(ss, t, ',')) if (!t.empty()) s.p.push_back(TParse(t));
    std::stringstream rs(line.substr(b + 3));
    rs >> t;
    s.r = TParse(t);
    while (rs >> t) { if (t == "L") s.llvm = true; if (t == "X") s.ctx = true; if (t == "COMM") s.comm = true; }
    if (!Usable(s)) continue;
    FunctionSignature fs(s.name, s.p, VT::kUnknown);
    FunctionStructure st;
    if (!reg.GetFuncBySign(fs, &st).ok()) continue;   // not in this tree
    s.r = fs.GetRetType();
    g_by_ret[s.r].push_back((int)g_sigs.size());
    if (g_by_name.find(s.name) == g_by_name.end()) g_names.push_back(s.name);
    g_by_name[s.name].push_back((int)g_sigs.size());
    g_sigs.push_back(s);
  }
}
const std::vector<Sig>& Sigs() { return g_sigs; }
const std::vector<std::string>& FuncNames() { return g_names; }

// ------------------------------------------------------------------ generator
static EP MkConst(VT t, ConstantValueType v) { auto e = std::make_unique<Ex>(K::Const, t); e->cv = std::move(v); return e; }
EP Gen::I32(int32_t v) { return MkConst(VT::kI32, v); }
EP Gen::CallEx(const std::string& n, VT t, std::vector<EP> a) { auto e = std::make_unique<Ex>(K::Call, t); e->name = n; e->a = std::move(a); return e; }
static std::vector<EP> V1(EP a) { std::vector<EP> v; v.push_back(std::move(a)); return v; }
static std::vector<EP> V2(EP a, EP b) { auto v = V1(std::move(a)); v.push_back(std::move(b)); return v; }
static std::vector<EP> V3(EP a, EP b, EP c) { auto v = V2(std::move(a), std::move(b)); v.push_back(std::move(c)); return v; }

static const char* kStr[] = {"", "a", "abc", "hello world", "42", "-7", "zz", "the quick brown fox jumps over it", "abcabc", "3.5", "x1", "Q"};
static const double kOddF[] = {0.1, 0.1000001, 0.10000000001, 1e-7, 2e-7, 1.0 / 3, -0.0, 123456.78901234};
// most literals are short; some are long, and those handed over as a tree may hold any byte
std::string Gen::LitStr(double plong) {
  std::string s = kStr[r_.Below(12)];
  if (r_.P(0.5)) s += std::to_string(r_.Below(1000));
  if (r_.P(plong)) {
    size_t n = 100 + r_.Below(r_.P(0.3) ? 6000 : 900);
    if (o_.wide == 4 && r_.P(0.3)) n = 20000 + r_.Below(60000);
    while (s.size() < n) s += (char)('!' + (s.size() * 7 + n) % 80);
    for (auto& c : s) if (c == '"' || c == '\\') c = '_';
  } else if (!o_.text && !o_.interp && r_.P(0.08)) {
    static const char* odd[] = {"\n", "\"", "\\", "\xff\xfe", "%s", "\t|; ", "', '", "\x01"};
    s += odd[r_.Below(8)];
    if (r_.P(0.4)) { s += '\0'; s += "tail"; }
  }
  return s;
}
EP Gen::Lit(VT t) {
  bool neg = !o_.text && r_.P(0.3);
  static const int64_t pool[] = {0, 1, 2, 3, 5, 7, 8, 13, 31, 64, 100, 127};
  int64_t v = pool[r_.Below(12)];
  switch (t) {
    case VT::kU8: return MkConst(t, (uint8_t)v);
    case VT::kU16: return MkConst(t, (uint16_t)(v * (r_.P(0.3) ? 300 : 1)));
    case VT::kU32: return MkConst(t, (uint32_t)(v * (r_.P(0.3) ? 70000 : 1)));
    case VT::kU64: return MkConst(t, (uint64_t)(v * (r_.P(0.3) ? 5000000000LL : 1)));
    case VT::kI8: return MkConst(t, (int8_t)(neg ? -v : v));
    case VT::kI16: return MkConst(t, (int16_t)(neg ? -v * 5 : v));
    case VT::kI32: return MkConst(t, (int32_t)(neg ? -v * 7 : v * (r_.P(0.2) ? 100000 : 1)));
    case VT::kI64: return MkConst(t, (int64_t)(neg ? -v * 9 : v * (r_.P(0.2) ? 4000000000LL : 1)));
    case VT::kF32: if (!o_.interp && !o_.text && r_.P(0.2)) return MkConst(t, (float)kOddF[r_.Below(8)]); return MkConst(t, (float)v * (o_.interp ? 1.f : 0.5f));
    case VT::kF64: if (!o_.interp && !o_.text && r_.P(0.2)) return MkConst(t, kOddF[r_.Below(8)]); return MkConst(t, (double)v * (o_.interp ? 1.0 : 0.25));
    default: return MkConst(t, LitStr(o_.wide == 4 ? 0.5 : 0.05));
  }
}
EP Gen::LitList(VT t, int n, bool small_pos) {
  auto e = std::make_unique<Ex>(K::CList, t);
  auto fill = [&](auto tag, VT) {
    using T = decltype(tag);
    std::vector<T> v;
    for (int i = 0; i < n; ++i) {
      int64_t x = (int64_t)r_.Below(small_pos ? 9 : 60) + (small_pos ? 1 : 0);
      if (!small_pos && !o_.text && r_.P(0.2) && std::is_signed_v<T>) x = -x;
      v.push_back((T)x);
    }
    e->cl = std::move(v);
  };
  switch (t) {
    case VT::kU8List: fill((uint8_t)0, t); break;
    case VT::kU16List: fill((uint16_t)0, t); break;
    case VT::kU32List: fill((uint32_t)0, t); break;
    case VT::kU64List: fill((uint64_t)0, t); break;
    case VT::kI8List: fill((int8_t)0, t); break;
    case VT::kI16List: fill((int16_t)0, t); break;
    case VT::kI32List: fill((int32_t)0, t); break;
    case VT::kI64List: fill((int64_t)0, t); break;
    case VT::kF32List: fill((float)0, t); break;
    case VT::kF64List: fill((double)0, t); break;
    default: { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(r_.P(0.8) ? std::string(kStr[r_.Below(12)]) : LitStr(0.1)); e->cl = std::move(v); }
  }
  return e;
}
EP Gen::Leaf(VT t, bool pure) {
  // variables of the right type
  if (!vars.empty() && r_.P(0.55)) {
    std::vector<const Var*> c;
    for (auto& v : vars) if (v.t == t) c.push_back(&v);
    if (!c.empty()) { auto e = std::make_unique<Ex>(K::Ref, t); e->name = c[r_.Below(c.size())]->name; return e; }
  }
  double x = (double)r_.Below(100) / 100.0;
  if (IsList(t)) {
    if (x < 0.30) { int n = (int)r_.Below(7); if (o_.text && n == 0) n = 1; if (r_.P(0.2)) n = (r_.P(0.5) ? 8 : 16); if (r_.P(0.06)) n = 30 + (int)r_.Below(400); if (o_.wide == 4 && r_.P(0.2)) n = 1000 + (int)r_.Below(4000); return LitList(t, n); }
    if (x < 0.45 && !pure && !o_.interp) { return CallEx(std::string("mk_") + TName(t), t, V2(std::make_unique<Ex>(K::Arg, VT::kPtr), I32((int)r_.Below(r_.P(0.1) ? 400 : 12)))); }
    return CallEx(std::string("ld_") + TName(t), t, V2(std::make_unique<Ex>(K::Arg, VT::kPtr), I32((int)r_.Below(4))));
  }
  if (x < 0.30) return Lit(t);
  if (x < 0.38 && !pure && !o_.interp && t == VT::kString) return CallEx("mk_string", t, V2(std::make_unique<Ex>(K::Arg, VT::kPtr), I32((int)r_.Below(40))));
  return CallEx(std::string("ld_") + TName(t), t, V2(std::make_unique<Ex>(K::Arg, VT::kPtr), I32((int)r_.Below(4))));
}
EP Gen::Chk(EP x) {
  VT t = x->t;
  int32_t tok = base_ + (int32_t)tokens_->size();
  tokens_->push_back(tok);
  return CallEx(std::string("chk_") + TName(t), t, V3(std::make_unique<Ex>(K::Arg, VT::kPtr), std::move(x), I32(tok)));
}
EP Gen::Cond(int d) {
  if (d <= 0) { auto e = Leaf(VT::kU8); return r_.P(o_.chk) ? Chk(std::move(e)) : std::move(e); }
  EP e;
  double x = (double)r_.Below(100) / 100.0;
  if (x < 0.35) {
    e = std::make_unique<Ex>(K::Bin, VT::kU8);
    e->op = r_.P(0.5) ? (int)BinaryOPType::kAnd : (int)BinaryOPType::kOr;
    e->a.push_back(Cond(d - 1));
    e->a.push_back(Cond(d - 1));
  } else if (x < 0.75) {
    static const VT nt[] = {VT::kI32, VT::kI64, VT::kU32, VT::kU64, VT::kF64, VT::kString};
    VT t = nt[r_.Below(6)];
    e = std::make_unique<Ex>(K::Bin, VT::kU8);
    e->op = (int)BinaryOPType::kLarge + (int)r_.Below(6);
    e->a.push_back(Expr(t, d - 1));
    e->a.push_back(Expr(t, d - 1));
  } else if (x < 0.85) {
    e = std::make_unique<Ex>(K::Un, VT::kU8);
    e->op = (int)UnaryOPType::kNot;
    e->a.push_back(Cond(d - 1));
  } else {
    e = Leaf(VT::kU8);
  }
  return r_.P(o_.chk) ? Chk(std::move(e)) : std::move(e);
}
VT Gen::AnyType() {
  if (o_.interp) {
    static const VT t[] = {VT::kI32, VT::kI64, VT::kU32, VT::kU64, VT::kF64, VT::kString, VT::kI32, VT::kU8, VT::kI32List};
    return t[r_.Below(9)];
  }
  if (!o_.focus.empty() && r_.P(0.8)) {
    auto it = g_by_name.find(o_.focus[r_.Below(o_.focus.size())]);
    if (it != g_by_name.end()) return g_sigs[it->second[r_.Below(it->second.size())]].r;
  }
  return (VT)((int)VT::kU8 + (int)r_.Below(22));
}
static bool Starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
// argument generation with the documented domain of the builtin respected
EP Gen::ArgFor(const Sig& s, size_t i, int d) {
  VT t = s.p[i];
  const std::string& n = s.name;
  if ((n == "ListDiv" || n == "ListMod") && i == 1 && !FloatElem(t)) {
    if (IsList(t)) return LitList(t, 1 + (int)r_.Below(6), true);
    std::vector<EP> dummy;
    switch (t) {
      case VT::kU8: return MkConst(t, (uint8_t)(1 + r_.Below(9))); case VT::kU16: return MkConst(t, (uint16_t)(1 + r_.Below(9)));
      case VT::kU32: return MkConst(t, (uint32_t)(1 + r_.Below(9))); case VT::kU64: return MkConst(t, (uint64_t)(1 + r_.Below(9)));
      case VT::kI8: return MkConst(t, (int8_t)(1 + r_.Below(9))); case VT::kI16: return MkConst(t, (int16_t)(1 + r_.Below(9)));
      case VT::kI32: return MkConst(t, (int32_t)(1 + r_.Below(9))); default: return MkConst(t, (int64_t)(1 + r_.Below(9)));
    }
  }
  if (Starts(n, "Cast") && FloatElem(t)) {   // float to integer conversions stay in range
    if (n == "CastF32" || n == "CastF64" || n == "CastF32List" || n == "CastF64List") return Expr(t, d);
    if (IsList(t)) { int k = (int)r_.Below(5); return LitList(t, o_.text && k == 0 ? 1 : k, true); }
    return t == VT::kF32 ? MkConst(t, (float)r_.Below(100)) : MkConst(t, (double)r_.Below(100));
  }
  if (n == "CrossJoin") {
    if (IsList(t)) return r_.P(0.5) ? LitList(t, 1 + (int)r_.Below(4)) : CallEx(std::string("ld_") + TName(t), t, V2(std::make_unique<Ex>(K::Arg, VT::kPtr), I32((int)r_.Below(4))));
    return Leaf(t);
  }
  if (o_.survey && r_.P(IsList(t) ? 0.8 : 0.5)) {
    EP x = CallEx(std::string("ld_") + TName(t), t, V2(std::make_unique<Ex>(K::Arg, VT::kPtr), I32((int)r_.Below(4))));
    return r_.P(o_.chk) ? Chk(std::move(x)) : std::move(x);
  }
  if (FloatElem(t)) return Leaf(t, true);
  return Expr(t, d);
}
EP Gen::Builtin(VT t, int d) {
  const Sig* s = nullptr;
  if (!o_.focus.empty() && r_.P(0.75)) {
    std::vector<int> c;
    for (auto& f : o_.focus) { auto it = g_by_name.find(f); if (it != g_by_name.end()) for (int k : it->second) if (g_sigs[k].r == t) c.push_back(k); }
    if (!c.empty()) s = &g_sigs[c[r_.Below(c.size())]];
  }
  if (!s) {
    auto it = g_by_ret.find(t);
    if (it == g_by_ret.end()) return nullptr;
    // choose a name first so that families with many overloads do not dominate
    const Sig& a = g_sigs[it->second[r_.Below(it->second.size())]];
    const Sig& b = g_sigs[it->second[r_.Below(it->second.size())]];
    s = r_.P(0.5) && a.name < b.name ? &a : &b;
  }
  return CallSig(*s, d);
}
EP Gen::CallSig(const Sig& sig, int d) {
  const Sig* s = &sig;
  const std::string& n = s->name;
  std::vector<EP> a;
  if (n == "GetAt") {
    int len = 1 + (int)r_.Below(8);
    a.push_back(LitList(s->p[0], len));
    a.push_back(MkConst(VT::kU32, (uint32_t)r_.Below(len)));
  } else if (n == "FilterByBitmap") {
    if (s->p[0] == VT::kStringList) return nullptr;
    EP l = Leaf(s->p[0], true);
    static const char* cmp[] = {"GenLargeBitmap", "GenLessBitmap", "GenEqualBitmap", "GenNotEqualBitmap", "GenLargeEqualBitmap", "GenLessEqualBitmap"};
    EP bm = CallEx(cmp[r_.Below(6)], VT::kU8List, V2(CloneEx(*l), Leaf(ElemOf(s->p[0]), true)));
    a.push_back(std::move(l));
    a.push_back(std::move(bm));
  } else if (Starts(n, "Group") && n != "GroupIndex" && n != "GroupCount") {
    EP l = Leaf(s->p[0], true);
    VT gt = r_.P(0.6) ? s->p[0] : (VT)((int)VT::kU8List + (int)r_.Below(11));
    EP gl = r_.P(0.6) && gt == s->p[0] ? CloneEx(*l) : Leaf(gt, true);
    a.push_back(std::move(l));
    a.push_back(CallEx("GroupIndex", VT::kU32List, V1(std::move(gl))));
  } else if (n == "GroupCount") {
    a.push_back(CallEx("GroupIndex", VT::kU32List, V1(Leaf((VT)((int)VT::kU8List + (int)r_.Below(11)), true))));
  } else {
    for (size_t i = 0; i < s->p.size(); ++i) a.push_back(ArgFor(*s, i, d - 1));
  }
  return CallEx(n, s->r, std::move(a));
}
// one call of a built-in function, each equally likely, mostly on the caller's own buffers
EP Gen::Survey(VT* t) {
  const auto& names = FuncNames();
  for (;;) {
    auto it = g_by_name.find(!o_.focus.empty() && r_.P(0.8) ? o_.focus[r_.Below(o_.focus.size())] : names[r_.Below(names.size())]);
    if (it == g_by_name.end()) continue;
    const Sig& s = g_sigs[it->second[r_.Below(it->second.size())]];
    EP e = CallSig(s, 1 + (int)r_.Below(2));
    if (!e) continue;
    *t = s.r;
    return e;
  }
}
// a value wrapped many times
EP Gen::Chain(VT t) {
  EP e = Leaf(t);
  int n = 12 + (int)r_.Below(50);
  bool add = t == VT::kI32 || t == VT::kI64 || t == VT::kU32 || t == VT::kU64;
  for (int i = 0; i < n; ++i) {
    int how = (int)r_.Below(add ? 4 : 2);
    if (how == 0 && r_.P(0.2)) { e = Chk(std::move(e)); continue; }
    EP x;
    if (how < 2) {
      x = std::make_unique<Ex>(K::If, t);
      x->a.push_back(Cond(r_.P(0.2) ? 1 : 0));
      bool sw = r_.P(0.5);
      EP l = Leaf(t);
      x->a.push_back(sw ? std::move(l) : std::move(e));
      x->a.push_back(sw ? std::move(e) : std::move(l));
    } else {
      x = std::make_unique<Ex>(K::Bin, t);
      x->op = (int)(r_.P(0.5) ? BinaryOPType::kAdd : BinaryOPType::kBitwiseXor);
      EP l = Leaf(t);
      bool sw = r_.P(0.5);
      x->a.push_back(sw ? std::move(l) : std::move(e));
      x->a.push_back(sw ? std::move(e) : std::move(l));
    }
    e = std::move(x);
  }
  return e;
}
EP Gen::Expr(VT t, int d) {
  EP e;
  if (o_.wide == 3 && d > 0 && d >= o_.depth && r_.P(0.5)) return Chain(t);
  if (t == VT::kU8 && o_.interp) return Cond(d);
  if (d <= 0) {
    e = Leaf(t);
    return r_.P(o_.chk * 0.7) ? Chk(std::move(e)) : std::move(e);
  }
  double x = (double)r_.Below(1000) / 1000.0;
  double pcond = 0.18 + 0.1 * o_.cond_bias;
  if (x < pcond * 0.6) {
    e = std::make_unique<Ex>(K::If, t);
    e->a.push_back(Cond(d - 1));
    e->a.push_back(Expr(t, d - 1));
    e->a.push_back(Expr(t, d - 1));
  } else if (x < pcond) {
    e = std::make_unique<Ex>(K::Switch, t);
    int n = 1 + (int)r_.Below(3), ds = d - 1;
    if (o_.wide == 1 && r_.P(0.6)) { n = 6 + (int)r_.Below(35); ds = 0; }
    for (int i = 0; i < n; ++i) { e->a.push_back(Cond(d - 2)); e->a.push_back(Expr(t, ds)); }
    e->a.push_back(Expr(t, ds));
  } else if (!o_.interp && r_.P(o_.builtin)) {
    e = Builtin(t, d);
    if (!e) e = Leaf(t);
  } else if (o_.interp && r_.P(0.15) && (t == VT::kU32 || t == VT::kI64)) {
    if (t == VT::kU32) {
      if (r_.P(0.5)) e = CallEx("StringLen", t, V1(Expr(VT::kString, d - 1)));
      else e = CallEx("Len", t, V1(Expr(VT::kI32List, d - 1)));
    } else {
      e = CallEx("comm_i64", t, V2(Expr(t, d - 1), Expr(t, d - 1)));
    }
  } else if (t == VT::kI32List && o_.fail_lists && r_.P(0.4)) {
    e = CallEx(r_.P(0.5) ? "ListSub" : "ListAdd", t, V2(Expr(t, d - 1), Expr(t, d - 1)));
  } else if (t == VT::kString || IsList(t)) {
    if (r_.P(0.5)) {
      e = std::make_unique<Ex>(K::Bin, t);
      e->op = (int)BinaryOPType::kAdd;
      e->a.push_back(Expr(t, d - 1));
      e->a.push_back(Expr(t, d - 1));
    } else {
      e = Leaf(t);
    }
  } else if (t == VT::kI32 || t == VT::kI64 || t == VT::kU32 || t == VT::kU64) {
    double y = (double)r_.Below(100) / 100.0;
    if (y < 0.55) {
      e = std::make_unique<Ex>(K::Bin, t);
      static const BinaryOPType ops[] = {BinaryOPType::kAdd, BinaryOPType::kSub, BinaryOPType::kMul, BinaryOPType::kBitwiseAnd, BinaryOPType::kBitwiseOr, BinaryOPType::kBitwiseXor};
      e->op = (int)ops[r_.Below(6)];
      e->a.push_back(Expr(t, d - 1));
      e->a.push_back(Expr(t, d - 1));
    } else if (y < 0.68) {
      e = std::make_unique<Ex>(K::Bin, t);
      e->op = r_.P(0.5) ? (int)BinaryOPType::kDiv : (int)BinaryOPType::kMod;
      e->a.push_back(Expr(t, d - 1));
      int64_t v = 1 + (int64_t)r_.Below(12);
      e->a.push_back(t == VT::kI32 ? MkConst(t, (int32_t)v) : t == VT::kI64 ? MkConst(t, (int64_t)v) : t == VT::kU32 ? MkConst(t, (uint32_t)v) : MkConst(t, (uint64_t)v));
    } else if (y < 0.78) {
      e = std::make_unique<Ex>(K::Bin, t);
      e->op = r_.P(0.5) ? (int)BinaryOPType::kBitwiseShiftLeft : (int)BinaryOPType::kBitwiseShiftRight;
      e->a.push_back(Expr(t, d - 1));
      int64_t v = (int64_t)r_.Below(8);
      e->a.push_back(t == VT::kI32 ? MkConst(t, (int32_t)v) : t == VT::kI64 ? MkConst(t, (int64_t)v) : t == VT::kU32 ? MkConst(t, (uint32_t)v) : MkConst(t, (uint64_t)v));
    } else if (y < 0.9) {
      e = std::make_unique<Ex>(K::Un, t);
      e->op = r_.P(0.5) ? (int)UnaryOPType::kMinus : (int)UnaryOPType::kBitwiseNot;
      e->a.push_back(Expr(t, d - 1));
    } else if (!o_.interp) {
      e = CallEx("comm_" + std::string(TName(t == VT::kI64 ? t : VT::kI64)), VT::kI64, V2(Expr(VT::kI64, d - 1), Expr(VT::kI64, d - 1)));
      if (t != VT::kI64) e = CallEx(t == VT::kI32 ? "CastI32" : t == VT::kU32 ? "CastU32" : "CastU64", t, V1(std::move(e)));
    } else {
      e = Leaf(t);
    }
  } else if (IsFloat(t)) {
    if (r_.P(0.6)) {
      e = std::make_unique<Ex>(K::Bin, t);
      static const BinaryOPType ops[] = {BinaryOPType::kAdd, BinaryOPType::kSub, BinaryOPType::kMul};
      e->op = (int)ops[r_.Below(o_.interp ? 2 : 3)];
      e->a.push_back(o_.interp ? Leaf(t) : Expr(t, d - 1));
      e->a.push_back(o_.interp ? Leaf(t) : Expr(t, d - 1));
    } else {
      e = Leaf(t);
    }
  } else if (t == VT::kU8) {
    e = Cond(d);
  } else {
    e = Leaf(t);
  }
  return r_.P(o_.chk) ? Chk(std::move(e)) : std::move(e);
}
// what a statement assigns: mostly an expression, sometimes a bare literal or another variable
EP Gen::Assigned(VT t, int d) {
  double x = (double)r_.Below(100) / 100.0;
  if (x < 0.14) return IsList(t) ? LitList(t, 1 + (int)r_.Below(5)) : Lit(t);
  if (x < 0.24) return Leaf(t);
  return Expr(t, d);
}
EP Gen::Store(VT t, int slot, int d) {
  EP v;
  if (!vars.empty() && r_.P(0.25)) {   // a variable as it is
    const Var& w = vars[r_.Below(vars.size())];
    v = std::make_unique<Ex>(K::Ref, w.t);
    v->name = w.name;
    t = w.t;
  } else {
    v = Expr(t, d);
  }
  return CallEx(std::string("st_") + TName(t), VT::kI32, V3(std::make_unique<Ex>(K::Out, VT::kPtr), I32(slot), std::move(v)));
}
// A statement list. New variables stay visible to the caller through `vars` only when top is set.
EP Gen::Stmts(int count, int slot_base, const std::string& vp, bool top, int nest) {
  auto n = std::make_unique<Ex>(K::Noop, VT::kVoid);
  size_t mark = vars.size();
  (void)slot_base;
  for (int i = 0; i < count; ++i) {
    Rng outer = r_;
    r_ = r_.Fork(1000 + i);
    size_t vars_before = vars.size();
    bool kept = true;
    if (!top && keep) kept = sim::KeepElem();
    double x = (double)r_.Below(100) / 100.0;
    // conditional blocks become rarer with depth
    if (x >= 0.68 && nest > 0 && r_.P(o_.wide == 6 ? 0.1 : nest == 1 ? 0.35 : 0.65)) x = r_.P(0.6) ? 0.1 : 0.5;
    int d = 1 + (int)r_.Below(o_.depth > 0 ? o_.depth : 1);
    if (o_.depth == 0) d = 0;
    if (x < 0.38) {
      n->a.push_back(Store(AnyType(), next_slot++, d));
      n->vn.push_back("");
      n->vc.push_back(0);
    } else if (x < 0.62 || nest >= (o_.wide == 6 ? 9 : 3)) {
      // assignment to an existing variable or definition of a new one
      std::vector<const Var*> c;
      for (auto& v : vars) if (!v.is_const) c.push_back(&v);
      if (!c.empty() && r_.P(nest > 0 ? 0.8 : 0.45)) {
        Var v = *c[r_.Below(c.size())];
        n->a.push_back(Assigned(v.t, d));
        n->vn.push_back(v.name);
        n->vc.push_back(0);
      } else {
        Var v{VarName(vp), AnyType(), r_.P(0.25)};
        n->a.push_back(Assigned(v.t, d));
        n->vn.push_back(v.name);
        n->vc.push_back(v.is_const);
        vars.push_back(v);
      }
    } else if (x < 0.68 && o_.own) {
      int32_t tok = base_ + (int32_t)tokens_->size();
      tokens_->push_back(tok);
      n->a.push_back(CallEx("own", VT::kI32, V2(std::make_unique<Ex>(K::Arg, VT::kPtr), I32(tok))));
      n->vn.push_back("");
      n->vc.push_back(0);
    } else {
      auto w = std::make_unique<Ex>(K::When, VT::kVoid);
      int branches = 1 + (int)r_.Below(3), most = o_.wide == 6 && nest > 1 ? 1 : 3;
      if (o_.wide == 1 && nest == 0 && r_.P(0.5)) { branches = 6 + (int)r_.Below(20); most = 1; }
      for (int b = 0; b < branches; ++b) {
        w->a.push_back(Cond(d > 2 ? 2 : d));
        w->a.push_back(Stmts(1 + (int)r_.Below(most), 0, vp, false, nest + 1));
      }
      if (r_.P(0.55)) w->a.push_back(Stmts(1 + (int)r_.Below(most), 0, vp, false, nest + 1));
      n->a.push_back(std::move(w));
      n->vn.push_back("");
      n->vc.push_back(0);
    }
    r_ = outer;
    r_.U64();
    if (!kept && !(n->a.size() == 1 && i == count - 1)) {
      n->a.pop_back();
      n->vn.pop_back();
      n->vc.pop_back();
      vars.resize(vars_before, Var{});
    }
  }
  if (!top) vars.resize(mark, Var{});
  return n;
}

// ------------------------------------------------------------------ near copies
namespace {
struct Spot { Ex* node; const Ex* up; size_t arg; bool cast; };
void Spots(Ex& e, const Ex* up, size_t arg, bool cast, std::vector<Spot>* out) {
  out->push_back({&e, up, arg, cast});
  for (size_t i = 0; i < e.a.size(); ++i) Spots(*e.a[i], &e, i, cast || (e.k == K::Call && e.name.rfind("Cast", 0) == 0), out);
}
bool Arith(const Ex* u) {
  if (!u || u->k != K::Bin) return false;
  auto op = (BinaryOPType)u->op;
  return op != BinaryOPType::kDiv && op != BinaryOPType::kMod && op != BinaryOPType::kBitwiseShiftLeft && op != BinaryOPType::kBitwiseShiftRight;
}
// one change; false when this spot allows none
bool Change(const Spot& s, Rng& r, bool text, bool interp, int32_t mark) {
  Ex& e = *s.node;
  const Ex* u = s.up;
  bool own = u && u->k == K::Call && (u->name.rfind("chk_", 0) == 0 || u->name.rfind("st_", 0) == 0 || u->name == "own" || u->name.rfind("ld_", 0) == 0 || u->name.rfind("mk_", 0) == 0);
  if (e.k == K::Const) {
    if (own && u->name.rfind("ld_", 0) == 0) {
      if (IsList(u->t)) return false;   // lengths may have to match
      auto& v = std::get<int32_t>(e.cv); v = (v + 1 + (int32_t)r.Below(3)) & 3; return true; }
    if (own && !(s.arg == 1 && u->name.rfind("chk_", 0) == 0) && !(s.arg == 2 && u->name.rfind("st_", 0) == 0)) return false;   // slots, tokens, sizes
    if (auto* m = std::get_if<int32_t>(&e.cv)) if (*m == mark) return false;
    if (IsInt(e.t)) {
      bool retype = !own && u && u->k == K::Call && r.P(0.6);
      if (retype) {   // another overload: the same digits as another type
        std::vector<VT> c;
        auto it = g_by_name.find(u->name);
        if (it == g_by_name.end()) return false;
        for (int k : it->second) {
          auto& g = g_sigs[k];
          if (g.r != u->t || g.p.size() != u->a.size() || !IsInt(g.p[s.arg]) || g.p[s.arg] == e.t) continue;
          bool same = true;
          for (size_t i = 0; i < g.p.size(); ++i) same &= i == s.arg || g.p[i] == u->a[i]->t;
          if (same) c.push_back(g.p[s.arg]);
        }
        if (c.empty()) return false;
        int64_t v = 0;
        std::visit([&](auto& x) { if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x)>>) v = (int64_t)x; }, e.cv);
        if (v < 0 || v > 127) return false;
        VT t = c[r.Below(c.size())];
        e.t = t;
        switch (t) {
          case VT::kU8: e.cv = (uint8_t)v; break; case VT::kU16: e.cv = (uint16_t)v; break; case VT::kU32: e.cv = (uint32_t)v; break; case VT::kU64: e.cv = (uint64_t)v; break;
          case VT::kI8: e.cv = (int8_t)v; break; case VT::kI16: e.cv = (int16_t)v; break; case VT::kI32: e.cv = (int32_t)v; break; default: e.cv = (int64_t)v;
        }
        return true;
      }
      if (!(Arith(u) || own || (u && (u->k == K::If || u->k == K::Switch || u->k == K::Noop)))) return false;
      std::visit([&](auto& x) { using T = std::decay_t<decltype(x)>; if constexpr (std::is_integral_v<T>) x = (T)(x >= 100 ? x - 1 : x + 1 + (int)r.Below(2) * 9); }, e.cv);
      return true;
    }
    if (IsFloat(e.t)) {
      if (s.cast) return false;
      bool tiny = !text && !interp && r.P(0.7);
      std::visit([&](auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_floating_point_v<T>) x = tiny ? (std::is_same_v<T, double> ? (T)(x + (x < 1 && x > -1 ? 1e-9 : x * 1e-13)) : (T)(x + (x < 1 && x > -1 ? 1e-7f : x * 3e-7f))) : x + 1;
      }, e.cv);
      return true;
    }
    if (e.t == VT::kString) {
      auto& v = std::get<std::string>(e.cv);
      if (!v.empty() && r.P(0.6)) { auto& c = v[r.P(0.5) ? v.size() - 1 : r.Below(v.size())]; c = c == 'k' ? 'm' : 'k'; }
      else v += "k";
      return true;
    }
    return false;
  }
  if (e.k == K::CList) {
    return std::visit([&](auto& v) {
      using T = typename std::decay_t<decltype(v)>::value_type;
      if (v.empty()) return false;
      size_t i = r.P(0.5) ? v.size() - 1 : r.Below(v.size());
      if constexpr (std::is_same_v<T, std::string>) {
        if (v.size() > 1 && i + 1 < v.size() && r.P(0.4) && !v[i + 1].empty()) { v[i] += v[i + 1][0]; v[i + 1].erase(0, 1); }   // the same characters, split differently
        else v[i] += "k";
      } else {
        if (v.size() > 1 && r.P(0.3)) { std::swap(v[i], v[(i + 1) % v.size()]); }
        else v[i] = v[i] == (T)9 ? (T)8 : v[i] == (T)-1 ? (T)1 : (T)(v[i] + (T)1);
      }
      return true;
    }, e.cl);
  }
  if (e.k == K::Bin) {
    auto op = (BinaryOPType)e.op;
    if ((e.t == VT::kI32 || e.t == VT::kI64 || e.t == VT::kU32 || e.t == VT::kU64) && (op == BinaryOPType::kAdd || op == BinaryOPType::kSub)) { e.op = (int)(op == BinaryOPType::kAdd ? BinaryOPType::kSub : BinaryOPType::kAdd); return true; }
    if (op == BinaryOPType::kAnd || op == BinaryOPType::kOr) { e.op = (int)(op == BinaryOPType::kAnd ? BinaryOPType::kOr : BinaryOPType::kAnd); return true; }
    if (op == BinaryOPType::kLess || op == BinaryOPType::kLessEqual) { e.op = (int)(op == BinaryOPType::kLess ? BinaryOPType::kLessEqual : BinaryOPType::kLess); return true; }
    if (op == BinaryOPType::kSub || op == BinaryOPType::kLarge) { std::swap(e.a[0], e.a[1]); return true; }
    return false;
  }
  if (e.k == K::If) { std::swap(e.a[1], e.a[2]); return true; }
  return false;
}
void Rebase(Ex& e, int32_t by) {
  if (e.k == K::Call && e.name.rfind("st_", 0) == 0 && e.a[1]->k == K::Const) std::get<int32_t>(e.a[1]->cv) += by;
  for (auto& c : e.a) Rebase(*c, by);
}
}  // namespace
void Nudge(Ex& e, Rng& r, bool text, bool interp, int times, int32_t mark) {
  for (int n = 0; n < times; ++n) {
    std::vector<Spot> sp;
    Spots(e, nullptr, 0, false, &sp);
    bool flt = !text && !interp && r.P(0.4);
    for (int tries = 0; tries < 40; ++tries) {
      auto& s = sp[r.Below(sp.size())];
      // the digits a number is usually printed with say little about it
      if (flt && tries < 20 && !(s.node->k == K::Const && IsFloat(s.node->t))) continue;
      // constants are the interesting spots
      if (tries < 24 && s.node->k != K::Const && s.node->k != K::CList) continue;
      // operands shared by construction (group indices, bitmaps) stay equal in length, so any spot will do
      if (Change(s, r, text, interp, mark)) break;
    }
  }
}

Program MakeProgram(Kind k, Rng r, Opts o, int n, int32_t mark, bool statements, bool elements) {
  Program p;
  p.kind = k;
  p.mark = mark;
  if (sim::spec.depth >= 0 && o.depth > sim::spec.depth) o.depth = sim::spec.depth;
  if (k == Kind::Expr || k == Kind::Pipe) o.text = true;
  if (k == Kind::Pipe) statements = true;
  if (k == Kind::Expr) statements = false;
  if (k == Kind::Single || k == Kind::Expr) n = 1;
  bool family = n > 1 && r.Fork(4711).P(o.family);
  bool all_stm = r.Fork(4713).P(0.5);
  if (family && !o.share_tokens) { o.chk = 0; o.own = false; }
  auto keep = [&](Rng* er) {
    uint32_t idx = 0;
    bool kp = true;
    if (elements) { kp = sim::KeepElem(&idx); *er = Rng(r.s ^ sim::Mix(idx * 7919ULL + 3)); } else { *er = r.Fork(r.U64()); }
    return kp;
  };
  for (int i = 0; i < n; ++i) {
    Rng er(1);
    bool entry_kept = (n == 1) ? true : keep(&er);
    if (n == 1) er = r.Fork(i + 5);
    Gen g(er, o, &p.tokens, mark + 1);
    g.next_slot = i * 1000;
    g.keep = elements;
    bool stm = statements;
    if (k == Kind::Batch && statements) stm = all_stm || er.P(0.6);
    EP entry;
    VT t = VT::kVoid;
    size_t tok_before = p.tokens.size();
    Rng fr = er.Fork(4712);
    if (family && !p.entries.empty() && fr.P(0.75)) {
      size_t from = fr.Below(p.entries.size());
      entry = CloneEx(*p.entries[from]);
      t = p.types[from];
      Nudge(*entry, fr, o.text, o.interp, fr.P(0.15) ? 0 : 1 + (int)fr.Below(2), mark);
      if (t == VT::kVoid && (k == Kind::Pipe || fr.P(0.5))) Rebase(*entry, i * 1000 - std::get<int32_t>(entry->a[0]->a[1]->cv) / 1000 * 1000);
      sim::Hit(sim::PR_NEAR_COPY);
    } else if (stm) {
      auto noop = std::make_unique<Ex>(K::Noop, VT::kVoid);
      // identifying store
      {
        auto c = std::make_unique<Ex>(K::Call, VT::kI32);
        c->name = "st_i32";
        c->a.push_back(std::make_unique<Ex>(K::Out, VT::kPtr));
        c->a.push_back(MkConst(VT::kI32, (int32_t)(i * 1000 + 999)));
        c->a.push_back(MkConst(VT::kI32, mark));
        noop->a.push_back(std::move(c));
        noop->vn.push_back("");
        noop->vc.push_back(0);
      }
      int cnt = 1 + (int)er.Below(o.interp ? 7 : 5);
      if (o.wide == 2 && n < 6) cnt = 20 + (int)er.Below(60);
      for (int j = 0; j < cnt; ++j) {
        Rng sr(1);
        bool kp = keep(&sr);
        g.SetRng(sr);
        auto vars = g.vars;
        EP one = g.Stmts(1, 0, "v", true, 0);
        if (!kp) { g.vars = vars; continue; }
        noop->a.push_back(std::move(one->a[0]));
        noop->vn.push_back(one->vn[0]);
        noop->vc.push_back(one->vc[0]);
      }
      entry = std::move(noop);
    } else if (k == Kind::Expr) {
      auto noop = std::make_unique<Ex>(K::Noop, VT::kVoid);
      int cnt = (int)er.Below(4);
      if (o.wide == 2) cnt = 20 + (int)er.Below(40);
      for (int j = 0; j < cnt; ++j) {
        Rng sr(1);
        bool kp = keep(&sr);
        g.SetRng(sr);
        Gen::Var v{g.VarName("v"), g.AnyType(), sr.P(0.5)};
        EP x = g.Expr(v.t, 1 + (int)sr.Below(2));
        if (!kp) continue;
        noop->a.push_back(std::move(x));
        noop->vn.push_back(v.name);
        noop->vc.push_back(v.is_const);
        g.vars.push_back(v);
      }
      Rng sr = er.Fork(99);
      g.SetRng(sr);
      t = g.AnyType();
      EP x = g.Expr(t, o.depth);
      auto c = std::make_unique<Ex>(K::Call, t);
      c->name = std::string("chk_") + TName(t);
      c->a = V3(std::make_unique<Ex>(K::Arg, VT::kPtr), std::move(x), MkConst(VT::kI32, mark));
      noop->a.push_back(std::move(c));
      noop->vn.push_back("");
      noop->vc.push_back(0);
      entry = std::move(noop);
    } else {
      EP x;
      if (o.survey && er.P(0.9)) {
        x = g.Survey(&t);
      } else if (family && !o.text && !o.interp && er.P(0.25)) {
        // numbers that near-copies tell apart only in their last digits
        t = er.P(0.7) ? VT::kF64 : VT::kF32;
        x = std::make_unique<Ex>(K::Bin, t);
        x->op = (int)(er.P(0.5) ? BinaryOPType::kAdd : BinaryOPType::kMul);
        double v = kOddF[er.Below(8)];
        x->a.push_back(t == VT::kF64 ? MkConst(t, v) : MkConst(t, (float)v));
        x->a.push_back(g.Leaf(t, true));
        if (er.P(0.3)) std::swap(x->a[0], x->a[1]);
      } else {
        t = g.AnyType();
        x = g.Expr(t, o.depth);
      }
      auto c = std::make_unique<Ex>(K::Call, t);
      c->name = std::string("chk_") + TName(t);
      c->a = V3(std::make_unique<Ex>(K::Arg, VT::kPtr), std::move(x), MkConst(VT::kI32, mark));
      entry = std::move(c);
    }
    if (!entry_kept && !(i + 1 == n && p.entries.empty())) { p.tokens.resize(tok_before); continue; }
    p.entries.push_back(std::move(entry));
    p.types.push_back(t);
  }
  p.tokens.push_back(mark);
  return p;
}

static void Remark(Ex& e, int32_t from, int32_t to) {
  if (e.k == K::Const) if (auto* v = std::get_if<int32_t>(&e.cv)) if (*v == from) *v = to;
  for (auto& c : e.a) Remark(*c, from, to);
}
Program NearCopy(const Program& p, Rng r, Opts o, int32_t mark) {
  Program q = p.Copy();
  if (p.kind == Kind::Expr || p.kind == Kind::Pipe) o.text = true;
  Nudge(*q.entries[r.Below(q.entries.size())], r, o.text, o.interp, 1 + (int)r.Below(2), p.mark);
  if (mark) {
    for (auto& e : q.entries) Remark(*e, p.mark, mark);
    q.tokens.back() = q.mark = mark;
  }
  sim::Hit(sim::PR_NEAR_COPY);
  return q;
}

// ------------------------------------------------------------------ reference interpreter
static int Bits(VT t) { return (t == VT::kU8 || t == VT::kI8) ? 8 : (t == VT::kU16 || t == VT::kI16) ? 16 : (t == VT::kU32 || t == VT::kI32) ? 32 : 64; }
static bool Signed(VT t) { return t >= VT::kI8 && t <= VT::kI64; }
static Val MkInt(VT t, uint64_t bits) {
  Val v;
  v.t = t;
  int b = Bits(t);
  if (b < 64) bits &= (1ULL << b) - 1;
  v.u = bits;
  v.i = Signed(t) && b < 64 && (bits >> (b - 1) & 1) ? (int64_t)(bits | ~((1ULL << b) - 1)) : (int64_t)bits;
  return v;
}
static bool Truthy(const Val& v) { return IsFloat(v.t) ? (v.f != 0 && v.f == v.f) : v.u != 0; }
std::string ShowVal(const Val& v) {
  char b[64];
  if (v.t == VT::kString) return "s" + std::to_string(v.s.size()) + ":" + v.s;
  if (v.t == VT::kF64) { uint64_t u; double d = v.f; if (d != d) d = std::nan(""); memcpy(&u, &d, 8); snprintf(b, sizeof b, "f64:%016lx", (unsigned long)u); return b; }
  if (v.t == VT::kI32List) { std::string s = "i32list["; for (auto x : v.li) s += std::to_string(x) + ","; return s + "]"; }
  if (Signed(v.t)) snprintf(b, sizeof b, "%s:%lld", TName(v.t), (long long)v.i);
  else snprintf(b, sizeof b, "%s:%llu", TName(v.t), (unsigned long long)v.u);
  return b;
}
static Val FromRec(const world::Rec& r, VT t, int k) {
  Val v;
  v.t = t;
  switch (t) {
    case VT::kU8: return MkInt(t, r.u8[k]);
    case VT::kI32: return MkInt(t, (uint64_t)(int64_t)r.i32[k]);
    case VT::kI64: return MkInt(t, (uint64_t)r.i64[k]);
    case VT::kU32: return MkInt(t, r.u32[k]);
    case VT::kU64: return MkInt(t, r.u64[k]);
    case VT::kF64: v.f = r.f64[k]; return v;
    case VT::kString: v.s.assign(r.str[k].data, r.str[k].len); return v;
    case VT::kI32List: for (uint32_t i = 0; i < r.li32[k].len; ++i) v.li.push_back(r.li32[k].data[i]); return v;
    default: sim::Violate("sim-internal", "interpreter: load type");
  }
}
Val Interp::Eval(const Ex& e) {
  if (++steps > 200000) sim::Violate("sim-internal", "interpreter step limit");
  switch (e.k) {
    case K::Const: {
      Val v;
      v.t = e.t;
      std::visit([&](auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, std::string>) v.s = x;
        else if constexpr (std::is_floating_point_v<T>) v.f = x;
        else v = MkInt(e.t, (uint64_t)(int64_t)x);
      }, e.cv);
      return v;
    }
    case K::CList: {
      Val v;
      v.t = e.t;
      if (auto* p = std::get_if<std::vector<int32_t>>(&e.cl)) for (auto x : *p) v.li.push_back(x);
      else sim::Violate("sim-internal", "interpreter: list type");
      return v;
    }
    case K::Ref: {
      for (size_t i = scopes.size(); i-- > 0;) { auto it = scopes[i].find(e.name); if (it != scopes[i].end()) return it->second; }
      sim::Violate("sim-internal", "interpreter: undefined " + e.name);
    }
    case K::Un: {
      Val a = Eval(*e.a[0]);
      switch ((UnaryOPType)e.op) {
        case UnaryOPType::kNot: return MkInt(VT::kU8, !Truthy(a));
        case UnaryOPType::kMinus: if (IsFloat(a.t)) { a.f = -a.f; return a; } return MkInt(e.t, 0 - (uint64_t)a.i);
        case UnaryOPType::kBitwiseNot: return MkInt(e.t, ~a.u);
        default: return a;
      }
    }
    case K::Bin: {
      auto op = (BinaryOPType)e.op;
      Val a = Eval(*e.a[0]);
      if (op == BinaryOPType::kAnd) { if (!Truthy(a)) return MkInt(VT::kU8, 0); return MkInt(VT::kU8, Truthy(Eval(*e.a[1]))); }
      if (op == BinaryOPType::kOr) { if (Truthy(a)) return MkInt(VT::kU8, 1); return MkInt(VT::kU8, Truthy(Eval(*e.a[1]))); }
      Val b = Eval(*e.a[1]);
      if (op >= BinaryOPType::kLarge && op <= BinaryOPType::kNotEqual) {
        int c;
        bool unord = false;
        if (a.t == VT::kString) { c = a.s.compare(b.s); }
        else if (IsFloat(a.t)) { unord = !(a.f == a.f && b.f == b.f); c = a.f < b.f ? -1 : a.f > b.f; }
        else if (Signed(a.t)) c = a.i < b.i ? -1 : a.i > b.i;
        else c = a.u < b.u ? -1 : a.u > b.u;
        (void)unord;
        bool r = op == BinaryOPType::kLarge ? c > 0 : op == BinaryOPType::kLargeEqual ? c >= 0 : op == BinaryOPType::kEqual ? c == 0 : op == BinaryOPType::kLess ? c < 0 : op == BinaryOPType::kLessEqual ? c <= 0 : c != 0;
        return MkInt(VT::kU8, r);
      }
      if (op == BinaryOPType::kAdd && a.t == VT::kString) { a.s += b.s; return a; }
      if (op == BinaryOPType::kAdd && IsList(a.t)) { a.li.insert(a.li.end(), b.li.begin(), b.li.end()); return a; }
      if (IsFloat(a.t)) { a.f = op == BinaryOPType::kAdd ? a.f + b.f : op == BinaryOPType::kSub ? a.f - b.f : a.f * b.f; return a; }
      switch (op) {
        case BinaryOPType::kAdd: return MkInt(e.t, a.u + b.u);
        case BinaryOPType::kSub: return MkInt(e.t, a.u - b.u);
        case BinaryOPType::kMul: return MkInt(e.t, a.u * b.u);
        case BinaryOPType::kDiv: return Signed(e.t) ? MkInt(e.t, (uint64_t)(a.i / b.i)) : MkInt(e.t, a.u / b.u);
        case BinaryOPType::kMod: return Signed(e.t) ? MkInt(e.t, (uint64_t)(a.i % b.i)) : MkInt(e.t, a.u % b.u);
        case BinaryOPType::kBitwiseAnd: return MkInt(e.t, a.u & b.u);
        case BinaryOPType::kBitwiseOr: return MkInt(e.t, a.u | b.u);
        case BinaryOPType::kBitwiseXor: return MkInt(e.t, a.u ^ b.u);
        case BinaryOPType::kBitwiseShiftLeft: return MkInt(e.t, a.u << b.u);
        case BinaryOPType::kBitwiseShiftRight: return Signed(e.t) ? MkInt(e.t, (uint64_t)(a.i >> b.u)) : MkInt(e.t, a.u >> b.u);
        default: sim::Violate("sim-internal", "interpreter: op");
      }
    }
    case K::If: return Truthy(Eval(*e.a[0])) ? Eval(*e.a[1]) : Eval(*e.a[2]);
    case K::Switch: {
      for (size_t i = 0; i + 1 < e.a.size(); i += 2) if (Truthy(Eval(*e.a[i]))) return Eval(*e.a[i + 1]);
      return Eval(*e.a.back());
    }
    case K::When: {
      size_t n = e.a.size();
      for (size_t i = 0; i + 1 < n; i += 2) if (Truthy(Eval(*e.a[i]))) { Stmts(*e.a[i + 1], true); return Val{}; }
      if (n & 1) Stmts(*e.a[n - 1], true);
      return Val{};
    }
    case K::Noop: Stmts(e, false); return Val{};
    case K::Call: {
      auto& n = e.name;
      if (n.rfind("ld_", 0) == 0) return FromRec(*rec, e.t, (int)Eval(*e.a[1]).i);
      if (n.rfind("chk_", 0) == 0) {
        Val x = Eval(*e.a[1]);
        int32_t tok = (int32_t)Eval(*e.a[2]).i;
        trace.push_back(tok);
        if (std::binary_search(rec->armed.begin(), rec->armed.end(), tok)) errs.push_back(world::ErrId(*rec, tok));
        return x;
      }
      if (n.rfind("st_", 0) == 0) {
        int32_t slot = (int32_t)Eval(*e.a[1]).i;
        Val x = Eval(*e.a[2]);
        if (output) stores->push_back({slot, ShowVal(x)});
        return MkInt(VT::kI32, (uint32_t)slot);
      }
      if (n == "own") { int32_t tok = (int32_t)Eval(*e.a[1]).i; trace.push_back(tok); return MkInt(VT::kI32, (uint32_t)tok); }
      if (n == "StringLen") return MkInt(VT::kU32, Eval(*e.a[0]).s.size());
      if (n == "Len") return MkInt(VT::kU32, Eval(*e.a[0]).li.size());
      if (n == "ListSub" || n == "ListAdd") {
        Val a = Eval(*e.a[0]), b = Eval(*e.a[1]);
        if (a.li.size() != b.li.size()) { 
          size_t x = a.li.size(), y = b.li.size();
          if (n == "ListAdd" && x > y) std::swap(x, y);   // commutative: the program does not fix the order of the two lists, and both calls may be made once
          berrs.push_back(n + std::to_string(x) + "/" + std::to_string(y));
          a.li.clear(); return a;
        }
        for (size_t i = 0; i < a.li.size(); ++i) a.li[i] = (int32_t)(uint32_t)(n == "ListSub" ? (uint64_t)a.li[i] - (uint64_t)b.li[i] : (uint64_t)a.li[i] + (uint64_t)b.li[i]);
        return a;
      }
      if (n == "comm_i64") { Val a = Eval(*e.a[0]), b = Eval(*e.a[1]); return MkInt(VT::kI64, (a.u ^ b.u) + 2 * (a.u & b.u) + (a.u | b.u)); }
      sim::Violate("sim-internal", "interpreter: call " + n);
    }
    default: return Val{};
  }
}
void Interp::Stmts(const Ex& n, bool own_scope) {
  if (own_scope || scopes.empty()) scopes.emplace_back();
  for (size_t i = 0; i < n.a.size(); ++i) {
    Val v = Eval(*n.a[i]);
    if (n.vn[i].empty()) continue;
    bool set = false;
    for (size_t s = scopes.size(); s-- > 0 && !set;) { auto it = scopes[s].find(n.vn[i]); if (it != scopes[s].end()) { it->second = v; set = true; } }
    if (!set) scopes.back()[n.vn[i]] = v;
  }
  if (own_scope) scopes.pop_back();
}
}  // namespace gen
