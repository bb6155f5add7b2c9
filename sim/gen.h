// Program generator: a typed expression/statement IR which is rendered to an AST, to Athena source text and, for the
// interpretable subset, evaluated by a small reference interpreter.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "exec_node.h"
#include "function_registry.h"
#include "rt.h"
#include "type.h"

namespace world { struct Rec; struct StoreRec; }

namespace gen {
using VT = jitfusion::ValueType;
using sim::Rng;
enum class Kind : int { Single = 0, Batch = 1, Expr = 2, Pipe = 3 };
const char* KindName(Kind k);

enum class K : uint8_t { Const, CList, Un, Bin, Call, If, Switch, When, Ref, Arg, Out, Ctx, Noop };
struct Ex;
using EP = std::unique_ptr<Ex>;
struct Ex {
  K k;
  VT t = VT::kUnknown;
  jitfusion::ConstantValueType cv;
  jitfusion::ConstantListValueType cl;
  int op = 0;
  std::string name;
  std::vector<EP> a;
  std::vector<std::string> vn;   // Noop: variable names ("" = plain statement)
  std::vector<uint8_t> vc;       // Noop: declared with let
  bool isolated = false;
  explicit Ex(K kk, VT tt = VT::kUnknown) : k(kk), t(tt) {}
};
EP CloneEx(const Ex& e);
std::unique_ptr<jitfusion::ExecNode> Ast(const Ex& e);
std::string Text(const Ex& e);
std::string StmtText(const Ex& noop);

struct Sig { std::string name; std::vector<VT> p; VT r; bool llvm = false, ctx = false, comm = false; };
void LoadSigs(const std::string& path, const jitfusion::FunctionRegistry& reg);
const std::vector<Sig>& Sigs();
const std::vector<std::string>& FuncNames();
const char* TName(VT t);
VT ElemOf(VT t);
VT ListOf(VT t);
bool IsInt(VT t);
bool IsNum(VT t);
bool IsList(VT t);
bool IsFloat(VT t);

struct Program {
  Kind kind = Kind::Single;
  std::vector<EP> entries;
  std::vector<VT> types;            // kVoid for statement programs
  std::vector<int32_t> tokens;      // all chk()/own() tokens
  int32_t mark = 0;                 // unique constant in every entry
  Program Copy() const;
  std::string Source() const;
};

// Changes `times` constants, operators or overloads of one entry so slightly that the result is still valid and in the
// domain of every function it calls.
void Nudge(Ex& e, Rng& r, bool text, bool interp, int times, int32_t mark);

struct Opts {
  bool interp = false;     // only constructs the reference interpreter knows
  bool text = false;       // must be expressible as Athena text
  int depth = 3;
  double chk = 0.2;        // probability of wrapping a node in chk()
  double builtin = 0.5;    // rich mode: probability of a builtin call
  std::vector<std::string> focus;   // rich mode: prefer these functions
  bool own = true;
  bool lists = true;
  int cond_bias = 0;       // more conditionals
  double family = 0.3;     // batches and pipelines: probability that entries are (near-)copies of each other
  bool share_tokens = false;  // copies keep their chk() tokens
  int wide = 0;            // one dimension is large: 1 alternatives, 2 statements, 3 nesting of expressions, 4 constants, 5 names, 6 nesting of blocks
  bool survey = false;     // rich mode: entries are single calls of any built-in function on the caller's buffers
  bool fail_lists = false; // interp mode: list arithmetic that fails when the lengths differ
};

class Gen {
 public:
  Gen(Rng r, Opts o, std::vector<int32_t>* tokens, int32_t token_base) : r_(r), o_(std::move(o)), tokens_(tokens), base_(token_base) {}
  struct Var { std::string name; VT t; bool is_const; };
  std::vector<Var> vars;
  EP Expr(VT t, int d);
  EP Cond(int d);
  EP Leaf(VT t, bool pure = false);
  EP Survey(VT* t);
  EP Assigned(VT t, int d);
  EP Store(VT t, int slot, int d);
  // `count` statements of a statement program; slots start at slot_base
  EP Stmts(int count, int slot_base, const std::string& vprefix, bool top = true, int nest = 0);
  VT AnyType();
  void SetRng(Rng r) { r_ = r; }
  int next_slot = 0;
  int vcount = 0;
  bool keep = false;   // nested statements are elements too

  std::string VarName(const std::string& vp) { return vp + (o_.wide == 5 ? std::string(40 + (size_t)base_ % 230, 'n') : "") + std::to_string(vcount++); }

 private:
  EP Chain(VT t);
  EP Lit(VT t);
  std::string LitStr(double plong);
  EP LitList(VT t, int n, bool small_pos = false);
  EP Builtin(VT t, int d);
  EP CallSig(const Sig& s, int d);
  EP Chk(EP x);
  EP CallEx(const std::string& n, VT t, std::vector<EP> a);
  EP I32(int32_t v);
  EP ArgFor(const Sig& s, size_t i, int d);
  Rng r_;
  Opts o_;
  std::vector<int32_t>* tokens_;
  int32_t base_;
};

// Builds a program of `n` entries (n==1 for Single/Expr).  Uses sim elements, so that the minimiser can drop entries
// and statements.
Program MakeProgram(Kind k, Rng r, Opts o, int n, int32_t mark, bool statements, bool elements = true);

// p with one entry changed slightly (same tokens and types; mark 0 = same mark)
Program NearCopy(const Program& p, Rng r, Opts o, int32_t mark = 0);

// ---- reference interpreter (interp-mode programs) ----
struct Val {
  VT t = VT::kUnknown;
  int64_t i = 0; uint64_t u = 0; double f = 0; std::string s;
  std::vector<int64_t> li;
};
struct Interp {
  const world::Rec* rec;
  std::vector<int32_t> trace, errs;
  std::vector<std::string> berrs;   // errors raised by built-ins
  std::vector<world::StoreRec>* stores;
  bool output = true;
  std::vector<std::map<std::string, Val>> scopes;
  Val Eval(const Ex& e);
  void Stmts(const Ex& noop, bool own_scope);
  std::string Show(const Val& v);
  uint64_t steps = 0;
};
std::string ShowVal(const Val& v);
}  // namespace gen
