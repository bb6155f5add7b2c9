// The simulated world around the library: input records, callbacks registered with the
// function registry, call execution and its recorded outcome.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include "athena.h"
#include "batch_exec_engine.h"
#include "exec_engine.h"
#include "exec_node.h"
#include "exec_options.h"
#include "function_registry.h"
#include "gen.h"
#include "rt.h"

namespace world {
using namespace jitfusion;
using Registry = std::unique_ptr<FunctionRegistry>;

// ---- deep value used by the reference interpreter and by records of results ----
struct StoreRec { int32_t slot; std::string val; };

// Output target handed to the program (OutputNode).
struct Out {
  uint64_t magic = 0x0074757074757455ULL;
  std::vector<StoreRec>* log = nullptr;
};

// Input record handed to the program (EntryArgumentNode).
struct Rec {
  uint64_t magic = 0x52454352454352ULL;
  uint64_t seed = 0;
  uint8_t u8[4]; uint16_t u16[4]; uint32_t u32[4]; uint64_t u64[4];
  int8_t i8[4]; int16_t i16[4]; int32_t i32[4]; int64_t i64[4];
  float f32[4]; double f64[4];
  StringStruct str[4];
  U8ListStruct lu8[4]; U16ListStruct lu16[4]; U32ListStruct lu32[4]; U64ListStruct lu64[4];
  I8ListStruct li8[4]; I16ListStruct li16[4]; I32ListStruct li32[4]; I64ListStruct li64[4];
  F32ListStruct lf32[4]; F64ListStruct lf64[4]; StringListStruct lstr[4];
  std::vector<int32_t> armed;     // sorted: tokens whose chk() reports an error
  int err_mode = 0;
  uint32_t dirty_mod = 0;         // chk() also allocates scratch in the arena now and then
  // per-execution logs
  std::vector<int32_t> trace;     // tokens in the order evaluated
  std::vector<int32_t> errs;      // tokens that reported an error, in order
  std::vector<uint64_t> own_live; // serials of the tracked objects alive, in creation order
  uint32_t own_created = 0, own_destroyed = 0;
  std::vector<std::string> ctx_errs;  // the context's error list as seen by the last callback that got the context
  std::string ctx_problem;            // first anomaly a callback noticed about the context it was given
  bool saw_ctx = false;
  uint64_t data_sum = 0;              // checksum of the input data
  std::function<void()> reenter;      // runs inside callback number reenter_at: a function that uses an engine itself
  uint32_t calls = 0, reenter_at = 0;
  std::shared_ptr<std::vector<std::unique_ptr<char[]>>> storage;  // list/string bytes; may be shared between records
  std::shared_ptr<std::vector<std::pair<const char*, size_t>>> spans;
  int Raises(int32_t tok) const;   // errors the callback with this token raises
  int ListLen(ValueType t, int k) const;
};
uint64_t DataSum(const Rec& r);
extern uint64_t g_slack;   // records made in this run
// a second record over the same list/string bytes (two callers reading one input)
std::unique_ptr<Rec> ShareRec(const Rec& r);
// err_mode: what the text of a reported error is. 0: its own; 1: the same text for many tokens; 2: with separators and
// format characters in it; 3: long; 4: a mix; 5: some tokens report a whole series; 6: some without any text
struct RecOpts { double arm_p = 0.15; bool interp = false; bool big = false; int max_list = 9; int err_mode = 0;
  uint32_t refill = 0; };  // refill != 0: the same buffers with other contents (lengths and addresses stay)
// puts the contents of `fresh` (same seed, other refill) into the buffers of `keep`
void ReloadRec(Rec& keep, const Rec& fresh);
std::unique_ptr<Rec> MakeRec(uint64_t seed, const std::vector<int32_t>& tokens, const RecOpts& o);

// ---- registry ----
// variant: which copy of the callbacks (different addresses); skip: do not register this name
Registry MakeRegistry(int variant, const std::string& skip = "");
uint32_t OwnLive();  // tracked arena objects currently alive in this process

// ---- engines ----
struct St { bool ok = true; std::string msg; };
St ToSt(const Status& s);
struct Eng {
  gen::Kind kind;
  ExecEngineOption opt;
  std::unique_ptr<ExecEngine> s;
  std::unique_ptr<BatchExecEngine> b;
  std::unique_ptr<athena::AthenaExpression> e;
  std::unique_ptr<athena::AthenaPipeline> p;
  Eng(gen::Kind k, ExecEngineOption o);
  St Compile(const gen::Program& p, const Registry& reg);
  St Save(std::string* out) const;
  St Load(std::string_view bytes, const Registry& reg, const LoadCompiledOptions& o = {});
  std::string IR() const;
  size_t Count() const;     // batch: entries; otherwise 1
};

struct Call {
  int entry = -2;        // -2: the only entry point (single/expr/pipeline), -1: ExecuteAll, >=0: ExecuteAt
  bool ctx = false;      // supply an ExecContext
  bool voidp = false;    // the void* output overload
  bool step = false;     // instruction-step the JIT code under the scheduler
  uint64_t rec_seed = 0;
  RecOpts ro;
  std::string Str() const;
};
struct Outcome {
  bool ok = true;
  std::string msg;
  std::vector<std::string> vals;   // one per entry (typed result) or empty
  std::vector<StoreRec> stores;
  std::vector<int32_t> trace, errs;
  std::string mask;                // ExecuteAll: per entry '1' when it succeeds alone
  uint32_t own = 0;
  size_t nraised = 0;
  std::string raised;              // error list as the last callback with a context saw it, joined with "; "
  std::string Str(bool with_trace = true) const;
};
// exact_trace: same machine code (order of evaluation must match); otherwise the trace is compared as a multiset
bool SameOutcome(const Outcome& want, const Outcome& got, std::string* why, bool exact_trace = true);
std::string Serialize(const std::vector<Outcome>& v);
std::vector<Outcome> Deserialize(const std::string& s);

std::string ValStr(const RetType& v);
// Executes one call. ctx may be null when call.ctx is false.
Outcome Exec(Eng& e, const Call& c, const gen::Program& prog, ExecContext* ctx, Rec* rec = nullptr);
// Same call in a brand-new context; for ExecuteAll it also runs every entry alone and fills in the mask.
Outcome Alone(Eng& e, const Call& c, const gen::Program& prog);
// Runs fn in a forked copy of this process and returns the bytes it produced. `crash` receives a description
// when the copy died.
std::string RunInClone(const std::function<std::string()>& fn, std::string* crash);
// the number an error is known by, and its text
int32_t ErrId(const Rec& r, int32_t tok);
std::string ErrText(const Rec& r, int32_t tok);
// Sequence of "<E#n>" tokens in an error text, in order.
std::vector<int32_t> ErrorTokens(const std::string& msg);
}  // namespace world
