// One function per property: each builds a workload, injects faults through the simulator and compares what the
// library did with an oracle. Every choice is derived from sim::spec.seed.
#include "props.h"
#include <algorithm>
#include <cstring>

namespace props {
world::Registry* g_reg = nullptr;

// ------------------------------------------------------------------ shared helpers
ExecEngineOption RandOpt(Rng& r, bool save, bool dump_ir) {
  ExecEngineOption o;
  static const int64_t chunk[] = {1, 64, 256, 4096, 4096, 65536};
  o.exec_ctx_arena_alloc_min_chunk_size = chunk[r.Below(6)];
  o.dump_ir = dump_ir;
  if (r.P(0.3)) { o.fp_math_mode = FPMathMode::kStrict; sim::Hit(sim::PR_STRICT_FP); }
  o.enable_save_compiled = save;
  return o;
}
gen::Opts RandGen(Rng& r) {
  gen::Opts o;
  o.depth = 1 + (int)r.Below(sim::spec.thorough ? 4 : 3);
  static const double c[] = {0.1, 0.2, 0.35};
  o.chk = c[r.Below(3)];
  static const double b[] = {0.3, 0.6, 0.8};
  o.builtin = b[r.Below(3)];
  o.share_tokens = r.P(0.5);
  if (r.P(0.7)) {
    int n = 1 + (int)r.Below(3);
    for (int i = 0; i < n; ++i) o.focus.push_back(gen::FuncNames()[r.Below(gen::FuncNames().size())]);
  }
  if (r.P(0.05)) { o.wide = 1 + (int)r.Below(6); if (o.wide != 3 && o.wide != 4 && o.depth > 2) o.depth = 2; }
  if (!o.wide && r.P(0.12)) { o.survey = true; o.depth = 1; o.focus.clear(); }
  return o;
}
int Entries(Rng& r, gen::Opts& o, int n) {
  if (o.survey) return 5 + (int)r.Below(12);
  if (!r.P(0.06)) return n;
  if (o.depth > 1) o.depth = 1;
  if (o.wide) return n;
  if (r.P(0.04)) { o.depth = 0; return 256 + (int)r.Below(20); }
  if (r.P(0.08)) { o.depth = (int)r.Below(2); return 62 + (int)r.Below(12); }
  return 9 + (int)r.Below(18);
}
gen::Opts InterpGen(Rng& r) {
  gen::Opts o;
  o.interp = true;
  o.depth = 1 + (int)r.Below(4);
  static const double c[] = {0.15, 0.3, 0.5};
  o.chk = c[r.Below(3)];
  o.cond_bias = (int)r.Below(4);
  if (r.P(0.06)) { o.wide = 1 + (int)r.Below(6); if (o.wide != 3 && o.wide != 4 && o.depth > 2) o.depth = 2; }
  return o;
}
Call RandCall(Rng& r, const Program& p, const world::RecOpts& ro) {
  Call c;
  c.ro = ro;
  c.rec_seed = r.U64();
  c.ctx = r.P(0.7);
  switch (p.kind) {
    case Kind::Single: c.voidp = p.types[0] == VT::kVoid ? r.P(0.85) : false; break;
    case Kind::Expr: break;
    case Kind::Pipe: c.voidp = true; break;
    case Kind::Batch: {
      bool all_void = true;
      for (VT t : p.types) all_void &= t == VT::kVoid;
      c.entry = r.P(0.35) ? -1 : (int)r.Below(p.types.size());
      if (c.entry == -1) c.voidp = all_void && r.P(0.8);
      else c.voidp = p.types[c.entry] == VT::kVoid ? r.P(0.85) : false;
    }
  }
  return c;
}
world::RecOpts RandRec(Rng& r, bool interp) {
  world::RecOpts o;
  static const double a[] = {0.0, 0.1, 0.25, 0.5};
  o.arm_p = a[r.Below(4)];
  o.interp = interp;
  o.big = !interp && r.P(0.15);
  o.max_list = r.P(0.8) ? 9 : 40;
  if (!interp && r.P(0.25)) o.err_mode = 1 + (int)r.Below(6);
  return o;
}
Kind RandKind(Rng& r) {
  static const Kind k[] = {Kind::Single, Kind::Single, Kind::Batch, Kind::Batch, Kind::Batch, Kind::Expr, Kind::Pipe, Kind::Pipe};
  return k[r.Below(8)];
}
void CompileGood(Eng& e, const Program& p, const Registry& reg, const char* what) {
  sim::SetOp("compile %s [%s] mark %d", what, gen::KindName(p.kind), p.mark);
  if (sim::spec.explain) sim::Explain("%s", p.Source().c_str());
  St s = e.Compile(p, reg);
  sim::sh->ops++;
  if (!s.ok) sim::Violate("valid-program-rejected", std::string("compile of a valid program failed: ") + s.msg + "\n" + p.Source());
  sim::Hit(sim::PR_COMPILE_OK);
}
std::vector<Outcome> SoloOutcomes(Eng& e, const Program& p, const std::vector<Call>& calls) {
  auto v = world::Deserialize(world::RunInClone([&] {
    std::vector<Outcome> o;
    for (auto& c : calls) { sim::SetOp("solo %s", c.Str().c_str()); o.push_back(world::Alone(e, c, p)); }
    return world::Serialize(o);
  }, nullptr));
  if (v.size() != calls.size()) sim::Violate("sim-internal", "solo clone returned " + std::to_string(v.size()));
  return v;
}
void Check(const Outcome& want, const Outcome& got, const Call& c, const char* cls, const std::string& where, const Program& p, bool exact) {
  std::string why;
  if (!world::SameOutcome(want, got, &why, exact)) sim::Violate(cls, where + " " + c.Str() + ": " + why + "\nprogram:\n" + p.Source());
}
void LogOutcome(const Outcome& o) {
  sim::LogStr(o.Str());
  sim::sh->state_hash = sim::Mix(sim::sh->state_hash ^ std::hash<std::string>()(o.Str()));
}
void Config(uint64_t v) { sim::sh->state_hash = sim::Mix(sim::sh->state_hash ^ sim::Mix(v + 77)); }

void Setup(Rng& r) {
  sim::HeapConfigure(sim::RandomHeap(r), r.U64());
  sim::MapPlacement(r.U64(), r.P(0.3));
}
// the registered token belongs to which entry of the program
std::map<int32_t, int> TokenEntry(const Program& p) {
  std::map<int32_t, int> m;
  std::function<void(const gen::Ex&, int)> walk = [&](const gen::Ex& e, int i) {
    if (e.k == gen::K::Call && !e.a.empty() && (e.name.rfind("chk_", 0) == 0 || e.name == "own")) {
      const gen::Ex& t = *e.a.back();
      if (t.k == gen::K::Const)
        if (auto* v = std::get_if<int32_t>(&t.cv)) { auto it = m.emplace(*v, i).first; if (it->second != i) it->second = -1; }
    }
    for (auto& c : e.a) walk(*c, i);
  };
  for (size_t i = 0; i < p.entries.size(); ++i) walk(*p.entries[i], (int)i);
  m.erase(p.mark);
  for (auto it = m.begin(); it != m.end();) it = it->second < 0 ? m.erase(it) : std::next(it);   // in several entries
  return m;
}

// ------------------------------------------------------------------ C01
static void C01(Rng r) {
  bool stepped = r.P(0.15);
  Kind k = RandKind(r);
  gen::Opts go = r.P(0.25) ? InterpGen(r) : RandGen(r);
  if (stepped) { go.depth = 1; }
  int n = k == Kind::Single || k == Kind::Expr ? 1 : stepped ? 1 + (int)r.Below(2) : Entries(r, go, 1 + (int)r.Below(4));
  bool stm = k == Kind::Pipe || (k == Kind::Single && r.P(0.25)) || (k == Kind::Batch && r.P(0.3));
  Program p = gen::MakeProgram(k, r.Fork(1), go, n, 100000, stm);
  bool via_save = (k == Kind::Single || k == Kind::Batch) && r.P(0.25);
  ExecEngineOption opt = RandOpt(r, via_save, r.P(0.1));
  auto eng = std::make_unique<Eng>(k, opt);
  CompileGood(*eng, p, *g_reg);
  if (via_save) {
    std::string bytes;
    St s = eng->Save(&bytes);
    if (!s.ok) sim::Violate("save-failed", s.msg);
    auto e2 = std::make_unique<Eng>(k, opt);
    s = e2->Load(bytes, *g_reg);
    if (!s.ok) sim::Violate("load-failed", s.msg);
    eng = std::move(e2);
    sim::Hit(sim::PR_LOAD_OK);
  }
  Eng& e = *eng;
  std::string ir = e.IR();
  world::RecOpts ro = RandRec(r, go.interp);
  if (stepped) { ro.big = false; ro.max_list = 5; }
  std::vector<Call> calls;
  int nc = 3 + (int)r.Below(6);
  for (int i = 0; i < nc; ++i) { Rng cr = r.Fork(100 + i); calls.push_back(RandCall(cr, p, ro)); }
  if (r.P(0.3)) for (auto& c : calls) c.rec_seed = calls[0].rec_seed;   // everyone reads one input
  sim::SetOp("solo executions");
  auto want = SoloOutcomes(e, p, calls);
  std::vector<std::unique_ptr<Rec>> base;
  for (auto& c : calls) base.push_back(world::MakeRec(c.rec_seed, p.tokens, c.ro));
  int nt = 2 + (int)r.Below(stepped ? 2 : 3);
  int most = 4;                                       // jobs per thread
  if (!stepped && r.P(0.07)) nt = 6 + (int)r.Below(6);
  if (!stepped && r.P(0.05)) most = 40 + (int)r.Below(100);
  struct Job { int call; bool ctx, share, fresh_ctx; int inner; uint32_t at; };
  bool reenter = !stepped && r.P(0.3);                // functions the program calls execute the engine themselves
  std::vector<std::vector<Job>> jobs(nt);
  for (int t = 0; t < nt; ++t) {
    int m = 2 + (int)r.Below(stepped ? 1 : most);
    for (int j = 0; j < m; ++j) {
      Rng jr = r.Fork(1000 + t * 500 + j);
      Job jb{(int)jr.Below(calls.size()), jr.P(0.75), jr.P(0.5), jr.P(0.2), -1, 0};
      if (reenter && jr.P(0.5)) { jb.inner = (int)jr.Below(calls.size()); jb.at = (uint32_t)jr.Below(4); }
      if (sim::KeepElem()) jobs[t].push_back(jb);
    }
  }
  std::vector<std::vector<Outcome>> got(nt);
  std::vector<std::function<void()>> fns;
  for (int t = 0; t < nt; ++t) {
    fns.push_back([&, t] {
      std::unique_ptr<ExecContext> ctx;
      for (auto& jb : jobs[t]) {
        Call c = calls[jb.call];
        c.ctx = jb.ctx;
        c.step = stepped;
        std::unique_ptr<Rec> rec;
        {
          sim::NoYield ny;
          if (!ctx || jb.fresh_ctx) ctx = std::make_unique<ExecContext>(opt.exec_ctx_arena_alloc_min_chunk_size);
          rec = jb.share ? world::ShareRec(*base[jb.call]) : world::MakeRec(c.rec_seed, p.tokens, c.ro);
          if (jb.inner >= 0) {
            rec->reenter_at = jb.at;
            rec->reenter = [&, t, jb] {
              Call ci = calls[jb.inner];
              ci.ctx = !jb.ctx || jb.at & 1;
              std::unique_ptr<ExecContext> mine;
              { sim::NoYield ny; mine = std::make_unique<ExecContext>(opt.exec_ctx_arena_alloc_min_chunk_size); }
              Outcome o = world::Exec(e, ci, p, mine.get());
              sim::NoYield ny;
              if (e.kind == Kind::Batch && ci.entry == -1) o.mask = want[jb.inner].mask;
              std::string why;
              if (!world::SameOutcome(want[jb.inner], o, &why, true))
                sim::Violate("inner-outcome-differs", "thread " + std::to_string(t) + " of " + std::to_string(nt) + ", " + ci.Str() + " from inside a function called by " + calls[jb.call].Str() + ": " + why + "\nprogram:\n" + p.Source());
            };
          }
        }
        Outcome o = world::Exec(e, c, p, ctx.get(), rec.get());
        sim::NoYield ny;
        if (e.kind == Kind::Batch && c.entry == -1) o.mask = want[jb.call].mask;
        std::string why;
        if (!world::SameOutcome(want[jb.call], o, &why, true))
          sim::Violate("concurrent-outcome-differs", "thread " + std::to_string(t) + " of " + std::to_string(nt) + ", " + c.Str() + ": " + why + "\nprogram:\n" + p.Source());
        got[t].push_back(std::move(o));
      }
    });
  }
  sim::SetOp("%d threads executing one %s", nt, gen::KindName(k));
  sim::RunThreads(fns, sim::RandomSched(r), r.Fork(7));
  for (auto& g : got) for (auto& o : g) LogOutcome(o);
  Config(nt * 16 + (int)k);
  for (size_t i = 0; i < calls.size(); ++i) {
    sim::SetOp("solo again %s", calls[i].Str().c_str());
    Outcome o = world::Alone(e, calls[i], p);
    Check(want[i], o, calls[i], "engine-changed-by-concurrency", "after the concurrent phase", p);
  }
  if (e.IR() != ir) sim::Violate("ir-changed", "GetIRCode changed while executing");
}

// ------------------------------------------------------------------ C02
static void C02(Rng r) {
  int ne = 1 + (int)r.Below(3);
  struct Unit { Program p; std::unique_ptr<Eng> e; };
  std::vector<Unit> us;
  world::RecOpts ro = RandRec(r, false);
  bool often = false;   // mostly refilled buffers
  for (int i = 0; i < ne; ++i) {
    Kind k = RandKind(r);
    gen::Opts go = RandGen(r);
    if (!go.survey && !go.wide && r.P(0.12)) { go.survey = true; go.depth = 1; go.focus.clear(); }
    if (go.survey) { often = true; if (r.P(0.7)) k = Kind::Batch; }
    Unit u;
    u.p = gen::MakeProgram(k, r.Fork(i + 1), go, k == Kind::Single || k == Kind::Expr ? 1 : Entries(r, go, 1 + (int)r.Below(3)), 100000 + i * 10000, k == Kind::Pipe || r.P(0.25));
    u.e = std::make_unique<Eng>(k, RandOpt(r, false));
    CompileGood(*u.e, u.p, *g_reg);
    us.push_back(std::move(u));
  }
  struct Op { int u; Call c; bool clear; int inner = -1; uint32_t at = 0; };
  bool reenter = r.P(0.25);   // functions called through the context use engines with a context of their own
  std::vector<Op> ops;
  int n = 6 + (int)r.Below(20);
  for (int i = 0; i < n; ++i) {
    Rng cr = r.Fork(500 + i);
    Op o;
    o.u = (int)cr.Below(us.size());
    world::RecOpts q = ro;
    if (cr.P(0.15)) q.big = true;
    o.c = RandCall(cr, us[o.u].p, q);
    o.c.ctx = true;
    o.clear = cr.P(0.08);
    if (reenter && cr.P(0.4)) { o.inner = (int)cr.Below(1000); o.at = (uint32_t)cr.Below(4); }
    if (!ops.empty() && cr.P(often ? 0.7 : 0.35)) {
      // the caller refilled the buffers of an earlier call
      const Op& b = ops[cr.P(0.5) ? ops.size() - 1 : cr.Below(ops.size())];
      if (cr.P(0.6)) { o.u = b.u; o.c = b.c; }
      else if (b.u == o.u) { o.c.rec_seed = b.c.rec_seed; o.c.ro = b.c.ro; }
      else { o.u = b.u; o.c = RandCall(cr, us[o.u].p, q); o.c.ctx = true; o.c.rec_seed = b.c.rec_seed; o.c.ro = b.c.ro; }
      o.c.ro.refill = (uint32_t)cr.Below(6);
    }
    if (sim::KeepElem()) ops.push_back(o);
  }
  std::vector<Outcome> want = world::Deserialize(world::RunInClone([&] {
    std::vector<Outcome> v;
    for (auto& o : ops) { sim::SetOp("fresh-context %s", o.c.Str().c_str()); v.push_back(world::Alone(*us[o.u].e, o.c, us[o.u].p)); }
    return world::Serialize(v);
  }, nullptr));
  static const int64_t chunk[] = {1, 64, 256, 4096, 65536};
  ExecContext ctx(chunk[r.Below(5)]), ctx2(chunk[r.Below(5)]);
  int cycles = 3 + (int)r.Below(3);
  if (r.P(0.06)) { cycles = 30 + (int)r.Below(250); if (ops.size() > 4) ops.resize(4); want.resize(ops.size()); }   // a context's long life
  uint64_t live1 = 0, tot1 = 0;
  bool keep = r.P(0.6);  // the callers own their buffers and refill them
  std::map<std::pair<int, uint64_t>, std::unique_ptr<Rec>> bufs;
  if (keep)
    for (auto& o : ops) {
      auto& b = bufs[{o.u, o.c.rec_seed}];
      if (!b) b = world::MakeRec(o.c.rec_seed, us[o.u].p.tokens, o.c.ro);
    }
  for (int cy = 0; cy < cycles; ++cy) {
    uint64_t max_tot = 0;
    for (size_t i = 0; i < ops.size(); ++i) {
      auto& o = ops[i];
      sim::SetOp("reused-context %s #%zu cycle %d", o.c.Str().c_str(), i, cy);
      if (o.clear) ctx.Clear();
      Rec* rec = nullptr;
      if (keep) {
        sim::NoYield ny;
        rec = bufs[{o.u, o.c.rec_seed}].get();
        world::ReloadRec(*rec, *world::MakeRec(o.c.rec_seed, us[o.u].p.tokens, o.c.ro));
      }
      std::unique_ptr<Rec> own;
      if (o.inner >= 0) {
        sim::NoYield ny;
        if (!rec) { own = world::MakeRec(o.c.rec_seed, us[o.u].p.tokens, o.c.ro); rec = own.get(); }
        size_t k = (size_t)o.inner % ops.size();
        rec->reenter_at = o.at;
        rec->reenter = [&, k] {
          Outcome in = world::Exec(*us[ops[k].u].e, ops[k].c, us[ops[k].u].p, &ctx2);
          in.mask = want[k].mask;
          Check(want[k], in, ops[k].c, "context-reuse-observable", "a call made by a function called from another call, through its own reused context", us[ops[k].u].p);
        };
      }
      Outcome got = world::Exec(*us[o.u].e, o.c, us[o.u].p, &ctx, rec);
      got.mask = want[i].mask;
      Check(want[i], got, o.c, "context-reuse-observable", "call #" + std::to_string(i) + " of cycle " + std::to_string(cy) + " through a reused context", us[o.u].p);
      if (cy == 0) LogOutcome(got);
      if (ctx.arena.total_bytes() > max_tot) max_tot = ctx.arena.total_bytes();
      sim::Hit(sim::PR_CTX_REUSED);
    }
    uint64_t live = sim::HeapLiveBytes();
    if (cy == 1) { live1 = live; tot1 = max_tot; }
    if (cy > 1 && live > live1) sim::Violate("context-memory-grows", "live heap after cycle " + std::to_string(cy) + " is " + std::to_string(live) + " bytes, after cycle 1 it was " + std::to_string(live1));
    if (cy > 1 && max_tot > tot1) sim::Violate("context-memory-grows", "the arena retained " + std::to_string(max_tot) + " bytes in cycle " + std::to_string(cy) + " but " + std::to_string(tot1) + " in cycle 1");
    sim::LogEvent(max_tot);
  }
  sim::Hit(sim::PR_LEAK_CYCLES);
  if (world::OwnLive()) sim::Violate("objects-left-alive", "tracked objects alive in an idle reused context");
}

// ------------------------------------------------------------------ C03
static std::string Stripped(std::string m) {
  while (m.rfind("Runtime Error: ", 0) == 0) m = m.substr(15);
  return m;
}
// What one execution reported against the log of the callbacks it ran.
void CheckErrors(const Outcome& o, const Call& c, const Program& p, bool exact_text) {
  auto bad = [&](const char* cls, const std::string& m) { sim::Violate(cls, c.Str() + ": " + m + "\n  got " + o.Str() + "\nprogram:\n" + p.Source()); };
  if (!o.errs.empty() && o.ok) bad("error-lost", "functions reported errors but the execution returned OK");
  auto toks = world::ErrorTokens(o.msg);
  if (toks != o.errs) bad("errors-misreported", "error text does not hold exactly the reported errors in the order raised");
  if (exact_text) {
    if (o.ok != !o.nraised) bad(o.ok ? "error-lost" : "error-invented", "status does not match the errors raised {" + o.raised + "}");
    if (!o.ok && Stripped(o.msg) != o.raised) bad("error-text-wrong", "error text differs from the errors raised {" + o.raised + "}");
  }
}
static bool ExactText(const Program& p, const Call& c, bool interp) {
  if (p.kind == Kind::Pipe) return false;
  if (interp) return true;
  if (p.kind == Kind::Expr) return true;
  size_t i = p.kind == Kind::Single ? 0 : (size_t)std::max(0, c.entry);
  return p.types[i] != VT::kVoid;
}
static const char* kErrFuncs[] = {"ListAddList", "ListSubList", "ListMulList", "ListDivList", "ListModList", "ListBitwiseAndList",
  "ListBitwiseOrList", "ListBitwiseXorList", "ZipConcat", "IfByBitmap", "GroupSum", "GroupMin", "GroupMax", "GenLargeBitmap", "GenEqualBitmap",
  "FilterByBitmap", "ListAdd", "ListSub", "ListMul", "ListBitwiseAnd", "ListBitwiseOr"};
// error text of ExecuteAll: the failing entries' texts, in index order, and nothing else of substance
static void CheckAllText(const Outcome& all, const std::vector<Outcome>& each, const Call& c, const Program& p) {
  size_t pos = 0;
  std::vector<int32_t> toks;
  bool ok = true;
  for (size_t i = 0; i < each.size(); ++i) {
    if (each[i].ok) continue;
    ok = false;
    std::string t = Stripped(each[i].msg);
    size_t f = all.msg.find(t, pos);
    if (f == std::string::npos) sim::Violate("batch-error-missing", c.Str() + ": the error of failing entry " + std::to_string(i) + " {" + t + "} is missing (or out of order) in {" + all.msg + "}\nprogram:\n" + p.Source());
    pos = f + t.size();
    auto et = world::ErrorTokens(t);
    toks.insert(toks.end(), et.begin(), et.end());
  }
  if (ok != all.ok) sim::Violate("batch-status-wrong", c.Str() + ": executing all entries returned " + (all.ok ? "OK" : "an error") + " {" + all.msg + "} but alone " + (ok ? "all entries succeed" : "some entries fail") + "\nprogram:\n" + p.Source());
  if (world::ErrorTokens(all.msg) != toks) sim::Violate("batch-error-wrong", c.Str() + ": error text of the batch holds other errors than its failing entries raised: {" + all.msg + "}\nprogram:\n" + p.Source());
  size_t want_len = 0, nf = 0;
  for (auto& o : each) if (!o.ok) { want_len += Stripped(o.msg).size(); nf++; }
  if (all.msg.size() > want_len + (nf + 1) * 48) sim::Violate("batch-error-wrong", c.Str() + ": error text of the batch holds more than its failing entries' errors: {" + all.msg + "}");
}
// Whether built-ins called for sure by the expression must have reported an error: element-wise functions, joins and
// group functions of lists whose lengths differ, selections by a bitmap that is too short. -1 = the length of the value is not known.
struct Lens {
  const Rec& rec;
  bool must = false, unknown = false;
  int Of(const gen::Ex& e) {
    if (!gen::IsList(e.t)) {
      if (e.k == gen::K::Call) { for (auto& c : e.a) Of(*c); Known(e); }
      else if (e.k != gen::K::Const && e.k != gen::K::Arg) unknown = true;   // evaluated only partly, or not
      return -1;
    }
    if (e.k == gen::K::CList) return std::visit([](auto& v) { return (int)v.size(); }, e.cl);
    if (e.k != gen::K::Call) { unknown = true; return -1; }
    if (e.name.rfind("ld_", 0) == 0) { int k = std::get<int32_t>(e.a[1]->cv); return rec.ListLen(e.t, k); }
    if (e.name.rfind("mk_", 0) == 0) return std::get<int32_t>(e.a[1]->cv);
    if (e.name.rfind("chk_", 0) == 0) return Of(*e.a[1]);
    std::vector<int> l;
    for (auto& c : e.a) l.push_back(Of(*c));
    const std::string& n = e.name;
    bool arith = n == "ListAdd" || n == "ListSub" || n == "ListMul" || n == "ListDiv" || n == "ListMod" || n.rfind("ListBitwise", 0) == 0;
    if (arith && e.a.size() == 2 && gen::IsList(e.a[0]->t) && gen::IsList(e.a[1]->t)) return Same(l[0], l[1]);
    if (arith && e.a.size() == 2) return l[0];
    if (n == "ZipConcat" && e.a.size() >= 2 && gen::IsList(e.a[0]->t) && gen::IsList(e.a[1]->t)) return Same(l[0], l[1]);
    if (n == "GroupIndex") return l[0];
    if (n == "IfByBitmap" && e.a.size() == 3) {
      int len = gen::IsList(e.a[1]->t) && gen::IsList(e.a[2]->t) ? Same(l[1], l[2]) : gen::IsList(e.a[1]->t) ? l[1] : l[2];
      if (len < 0 || l[0] < 0) { unknown = true; return -1; }
      if (l[0] < (len + 7) / 8) { must = true; return -1; }
      return len;
    }
    if (n.rfind("Gen", 0) == 0 && n.find("Bitmap") != std::string::npos && e.a.size() == 2) {
      if (gen::IsList(e.a[0]->t) && gen::IsList(e.a[1]->t)) { int x = Same(l[0], l[1]); return x < 0 ? -1 : (x + 7) / 8; }
      return l[0] < 0 ? -1 : (l[0] + 7) / 8;
    }
    if (n.rfind("Group", 0) == 0 && n != "GroupCount" && e.a.size() == 2) { Same(l[0], l[1]); return -1; }
    Known(e);
    return -1;
  }
  void Known(const gen::Ex& e) {
    // functions that never report an error by themselves (in the given argument types)
    if (e.k != gen::K::Call) return;
    const std::string& n = e.name;
    if (n.rfind("ld_", 0) == 0 || n.rfind("mk_", 0) == 0 || n.rfind("chk_", 0) == 0 || n == "GroupCount" || n == "GroupIndex" || n == "Len") return;
    unknown = true;
  }
  int Same(int a, int b) {
    if (a < 0 || b < 0) { unknown = true; return -1; }
    if (a == b) return a;
    must = true;
    return -1;
  }
};
static const char* kFailing[] = {"ListAdd", "ListSub", "ListMul", "ListDiv", "ListMod", "ListBitwiseAnd", "ListBitwiseOr", "ListBitwiseXor", "ZipConcat",
  "GroupSum", "GroupMin", "GroupMax", "GroupAvg", "GroupKeys", "IfByBitmap", "GenLargeBitmap", "GenEqualBitmap"};
static void C03(Rng r) {
  bool interp = r.P(0.45);
  Kind k = RandKind(r);
  if (k == Kind::Pipe && !interp) k = Kind::Batch;
  gen::Opts go = interp ? InterpGen(r) : RandGen(r);
  go.share_tokens = r.P(0.7);
  if (!interp && !go.wide && r.P(0.3)) { go.survey = true; go.depth = 1; go.focus.assign(kFailing, kFailing + sizeof kFailing / sizeof *kFailing); if (r.P(0.7)) k = Kind::Batch; }
  else if (!interp && r.P(0.6)) { go.focus.clear(); for (int i = 0; i < 2; ++i) go.focus.push_back(kErrFuncs[r.Below(sizeof kErrFuncs / sizeof *kErrFuncs)]); }
  int n = k == Kind::Batch ? Entries(r, go, 2 + (int)r.Below(5)) : k == Kind::Pipe ? Entries(r, go, 1 + (int)r.Below(4)) : 1;
  bool stm = k == Kind::Pipe || (interp && k != Kind::Expr && r.P(0.4));
  Program p = gen::MakeProgram(k, r.Fork(1), go, n, 100000, stm);
  ExecEngineOption opt = RandOpt(r, false);
  Eng e(k, opt);
  CompileGood(e, p, *g_reg);
  world::RecOpts ro = RandRec(r, interp);
  static const double a[] = {0.05, 0.2, 0.2, 0.5, 1.0};
  ro.arm_p = a[r.Below(5)];
  ro.err_mode = r.P(0.5) ? 0 : 1 + (int)r.Below(6);
  std::vector<Call> calls;
  int nc = 4 + (int)r.Below(5);
  if (r.P(0.05)) nc = 40 + (int)r.Below(80);
  for (int i = 0; i < nc; ++i) {
    Rng cr = r.Fork(100 + i);
    Call c = RandCall(cr, p, ro);
    if (k == Kind::Batch && cr.P(0.4)) {
      bool all_void = true;
      for (VT t : p.types) all_void &= t == VT::kVoid;
      c.entry = -1;
      c.voidp = all_void;
    }
    if (cr.P(0.2)) c.ro.arm_p = 0;
    if (sim::KeepElem()) calls.push_back(c);
  }
  if (calls.empty()) return;
  static const int64_t chunk[] = {1, 256, 4096};
  bool reenter = r.P(0.25);
  uint64_t rs = r.U64();
  // one execution; now and then a function it calls executes the engine too, which may fail by itself
  auto exec = [&](const Call& c, ExecContext* ctx) {
    std::unique_ptr<Rec> rec;
    std::unique_ptr<ExecContext> mine;
    {
      sim::NoYield ny;
      rec = world::MakeRec(c.rec_seed, p.tokens, c.ro);
      uint64_t h = sim::Mix(c.rec_seed ^ rs ^ (uint64_t)c.entry);
      if (reenter && h % 3 == 0) {
        Call ci = calls[(h >> 8) % calls.size()];
        ci.ctx = h & 16;
        if (ci.ctx) mine = std::make_unique<ExecContext>(64);
        rec->reenter_at = (uint32_t)(h >> 20) % 4;
        rec->reenter = [&, ci] {
          Outcome o = world::Exec(e, ci, p, mine.get());
          sim::NoYield ny;
          if (ci.entry != -1) CheckErrors(o, ci, p, ExactText(p, ci, interp));
        };
      }
    }
    return world::Exec(e, c, p, ctx, rec.get());
  };
  auto check = [&](const Call& c, ExecContext* ctx) {
    if (!(k == Kind::Batch && c.entry == -1)) {
      Outcome o = exec(c, ctx);
      sim::NoYield ny;
      CheckErrors(o, c, p, ExactText(p, c, interp));
      if (go.survey && !stm) {
        size_t i = k == Kind::Batch ? (size_t)std::max(0, c.entry) : 0;
        auto rec = world::MakeRec(c.rec_seed, p.tokens, c.ro);
        Lens l{*rec};
        if (p.types[i] != VT::kVoid) {
          l.Of(*p.entries[i]);
          size_t raised = 0;   // by callbacks
          for (int32_t t : o.trace) raised += (size_t)rec->Raises(t);
          if (l.must) {
            sim::Hit(sim::PR_MUST_FAIL);
            if (o.ok || o.nraised <= raised)
              sim::Violate("error-lost", c.Str() + ": a built-in function was given lists whose lengths do not fit but no error of it was reported\n  got " + o.Str() + "\nprogram:\n" + p.Source());
          } else if (!l.unknown && o.nraised != raised) {
            sim::Violate("error-invented", c.Str() + ": no function failed\n  got " + o.Str() + "\nprogram:\n" + p.Source());
          }
        }
      }
      if (c.ro.err_mode <= 1 && o.raised.size() && (o.raised.find("<E#") != 0 || o.raised.find("; ") != std::string::npos)) {
        auto t = world::ErrorTokens(o.raised);
        size_t parts = 1, q = 0;
        while ((q = o.raised.find("; ", q)) != std::string::npos) { parts++; q += 2; }
        if (parts > t.size()) sim::Fired(sim::F_BUILTIN_ERROR, parts - t.size());
      }
      return o;
    }
    // every entry by itself, then all of them
    std::vector<Outcome> each;
    for (size_t i = 0; i < p.entries.size(); ++i) {
      Call ci = c;
      ci.entry = (int)i;
      Outcome o = exec(ci, ctx);
      sim::NoYield ny;
      CheckErrors(o, ci, p, ExactText(p, ci, interp));
      each.push_back(std::move(o));
    }
    Outcome all = exec(c, ctx);
    sim::NoYield ny;
    CheckAllText(all, each, c, p);
    std::vector<int32_t> tr;
    std::vector<world::StoreRec> st;
    for (auto& o : each) { tr.insert(tr.end(), o.trace.begin(), o.trace.end()); st.insert(st.end(), o.stores.begin(), o.stores.end()); }
    if (tr != all.trace) sim::Violate("batch-order", c.Str() + ": executing all entries did not run every entry exactly once in index order\n  got " + all.Str() + "\nprogram:\n" + p.Source());
    bool same = st.size() == all.stores.size();
    for (size_t i = 0; same && i < st.size(); ++i) same = st[i].slot == all.stores[i].slot && st[i].val == all.stores[i].val;
    if (!same) sim::Violate("batch-order", c.Str() + ": the stores of executing all entries are not those of the entries in index order\n  got " + all.Str() + "\nprogram:\n" + p.Source());
    if (!c.voidp) {
      if (all.vals.size() != each.size()) sim::Violate("batch-results", c.Str() + ": " + std::to_string(all.vals.size()) + " results for " + std::to_string(each.size()) + " entries");
      for (size_t i = 0; i < each.size(); ++i)
        if (each[i].ok && !each[i].vals.empty() && each[i].vals[0] != all.vals[i])
          sim::Violate("batch-results", c.Str() + ": non-failing entry " + std::to_string(i) + " returned " + all.vals[i] + ", alone it returns " + each[i].vals[0] + "\nprogram:\n" + p.Source());
    }
    // against the callback log: which entry ran which callback
    auto te = TokenEntry(p);
    int last = -1;
    for (int32_t t : all.trace) {
      auto it = te.find(t);
      if (it == te.end()) continue;
      if (it->second < last) sim::Violate("batch-order", c.Str() + ": entry " + std::to_string(it->second) + " ran after entry " + std::to_string(last));
      last = it->second;
    }
    size_t marks = (size_t)std::count(all.trace.begin(), all.trace.end(), p.mark), values = 0, voids = 0;
    for (VT t : p.types) (t == VT::kVoid ? voids : values)++;
    if (marks != values) sim::Violate("batch-order", c.Str() + ": " + std::to_string(marks) + " of " + std::to_string(values) + " value entries ran");
    if (c.voidp) {
      size_t ms = 0;
      for (auto& s : all.stores) ms += s.slot % 1000 == 999;
      if (ms != voids) sim::Violate("batch-order", c.Str() + ": " + std::to_string(ms) + " of " + std::to_string(voids) + " statement entries ran");
    }
    return all;
  };
  bool conc = r.P(0.35);
  sim::SetOp("error attribution, %s", conc ? "concurrent" : "sequential");
  if (!conc) {
    ExecContext ctx(chunk[r.Below(3)]);
    for (auto& c : calls) {
      sim::SetOp("execute %s", c.Str().c_str());
      LogOutcome(check(c, &ctx));
    }
  } else {
    int nt = 2 + (int)r.Below(2);
    std::vector<std::function<void()>> fns;
    std::vector<std::vector<Outcome>> out(nt);
    for (int t = 0; t < nt; ++t)
      fns.push_back([&, t] {
        std::unique_ptr<ExecContext> ctx;
        { sim::NoYield ny; ctx = std::make_unique<ExecContext>(chunk[t % 3]); }
        for (size_t i = t; i < calls.size(); i += nt) out[t].push_back(check(calls[i], ctx.get()));
      });
    sim::RunThreads(fns, sim::RandomSched(r), r.Fork(7));
    for (auto& v : out) for (auto& o : v) LogOutcome(o);
  }
  Config((int)k * 2 + conc);
}

// ------------------------------------------------------------------ C08
static void C08(Rng r) {
  bool pipe = r.P(0.2);
  gen::Opts go = r.P(0.4) ? InterpGen(r) : RandGen(r);
  go.share_tokens = !pipe && r.P(0.5);
  go.family = 0.55;
  int n = Entries(r, go, 2 + (int)r.Below(5));
  Program p = gen::MakeProgram(pipe ? Kind::Pipe : Kind::Batch, r.Fork(1), go, n, 100000, pipe || r.P(0.45));
  n = (int)p.entries.size();
  // composition: a permutation, a selection, or entries used several times
  std::vector<int> pick;
  int how = (int)r.Below(4);
  for (int i = 0; i < n; ++i) pick.push_back(i);
  if (how == 1) for (int i = n - 1; i > 0; --i) std::swap(pick[i], pick[r.Below(i + 1)]);
  if (how == 2) { pick.clear(); int m = 1 + (int)r.Below(n + 2); for (int i = 0; i < m; ++i) pick.push_back((int)r.Below(n)); }
  Program b;
  b.kind = p.kind; b.mark = p.mark; b.tokens = p.tokens;
  for (int i : pick) { b.entries.push_back(gen::CloneEx(*p.entries[i])); b.types.push_back(p.types[i]); }
  ExecEngineOption opt = RandOpt(r, false);
  // alone
  std::vector<Program> sp;
  std::vector<std::unique_ptr<Eng>> se;
  bool all_ok = true;
  std::string first_err;
  for (int i = 0; i < n; ++i) {
    Program q;
    q.kind = pipe ? Kind::Pipe : Kind::Single;
    q.mark = p.mark; q.tokens = p.tokens;
    q.entries.push_back(gen::CloneEx(*p.entries[i]));
    q.types.push_back(p.types[i]);
    auto e = std::make_unique<Eng>(q.kind, opt);
    sim::SetOp("compile entry %d alone", i);
    St s = e->Compile(q, *g_reg);
    if (!s.ok && std::count(pick.begin(), pick.end(), i)) { all_ok = false; first_err = s.msg; }
    sp.push_back(std::move(q));
    se.push_back(std::move(e));
  }
  Eng be(b.kind, opt);
  sim::SetOp("compile the batch");
  if (sim::spec.explain) sim::Explain("%s", b.Source().c_str());
  St bs = be.Compile(b, *g_reg);
  if (bs.ok != all_ok) sim::Violate("batch-compile-differs", std::string("the batch compile ") + (bs.ok ? "succeeded although an entry alone is rejected: " + first_err : "failed although every entry compiles alone: " + bs.msg) + "\nprogram:\n" + b.Source());
  if (!bs.ok) return;
  sim::Hit(sim::PR_COMPILE_OK);
  if (b.kind == Kind::Batch) {
    if (be.Count() != b.entries.size()) sim::Violate("batch-count", "entry count " + std::to_string(be.Count()) + " instead of " + std::to_string(b.entries.size()));
    for (size_t i = 0; i < b.entries.size(); ++i)
      if (be.b->GetReturnType(i) != b.types[i]) sim::Violate("batch-type", "return type of entry " + std::to_string(i) + " is " + gen::TName(be.b->GetReturnType(i)) + " instead of " + gen::TName(b.types[i]) + "\nprogram:\n" + b.Source());
  }
  world::RecOpts ro = RandRec(r, go.interp);
  bool all_void = true;
  for (VT t : b.types) all_void &= t == VT::kVoid;
  int nc = 2 + (int)r.Below(4);
  struct Exp { std::vector<Outcome> each; };
  std::vector<uint64_t> inputs;
  std::vector<Exp> exp;
  for (int i = 0; i < nc; ++i) {
    Rng cr = r.Fork(300 + i);
    uint64_t seed = cr.U64();
    if (!sim::KeepElem()) continue;
    inputs.push_back(seed);
  }
  auto single_call = [&](int i, uint64_t seed) {
    Call c;
    c.ro = ro;
    c.rec_seed = seed;
    c.ctx = true;
    c.voidp = pipe || p.types[i] == VT::kVoid;
    return c;
  };
  std::vector<Outcome> flat = world::Deserialize(world::RunInClone([&] {
    std::vector<Outcome> v;
    for (uint64_t s : inputs) for (int i = 0; i < n; ++i) { sim::SetOp("entry %d alone", i); v.push_back(se[i]->s || pipe ? world::Alone(*se[i], single_call(i, s), sp[i]) : Outcome()); }
    return world::Serialize(v);
  }, nullptr));
  if (flat.size() != inputs.size() * n) sim::Violate("sim-internal", "solo results");
  auto check_one = [&](size_t in, int slot, ExecContext* ctx) {
    Call c = single_call(pick[slot], inputs[in]);
    c.entry = slot;
    Outcome o = world::Exec(be, c, b, ctx);
    sim::NoYield ny;
    Check(flat[in * n + pick[slot]], o, c, "batch-entry-differs", "entry compared with the same program compiled alone:", b, false);
    return o;
  };
  auto check_all = [&](size_t in, ExecContext* ctx) {
    Call c;
    c.ro = ro;
    c.rec_seed = inputs[in];
    c.ctx = ctx != nullptr;
    c.entry = pipe ? -2 : -1;
    c.voidp = pipe || all_void;
    Outcome o = world::Exec(be, c, b, ctx);
    sim::NoYield ny;
    bool ok = true;
    std::vector<Outcome> each;
    std::vector<int32_t> tr;
    std::vector<world::StoreRec> st;
    for (size_t s = 0; s < pick.size(); ++s) {
      auto& w = flat[in * n + pick[s]];
      ok &= w.ok;
      each.push_back(w);
      tr.insert(tr.end(), w.trace.begin(), w.trace.end());
      if (c.voidp) st.insert(st.end(), w.stores.begin(), w.stores.end());
    }
    if (o.ok != ok) sim::Violate("batch-all-differs", c.Str() + ": status differs from the entries run separately: {" + o.msg + "}\nprogram:\n" + b.Source());
    // a pipeline that occurs more than once may share identical read-only calls and identical stores
    bool repeats = pipe && std::set<int>(pick.begin(), pick.end()).size() < pick.size();
    auto x = tr, y = o.trace;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (repeats) { x.erase(std::unique(x.begin(), x.end()), x.end()); y.erase(std::unique(y.begin(), y.end()), y.end()); }
    if (x != y) sim::Violate("batch-all-differs", c.Str() + ": functions run differ from the entries run separately\n  got " + o.Str() + "\nprogram:\n" + b.Source());
    if (!pipe) {
      bool same = st.size() == o.stores.size();
      for (size_t i = 0; same && i < st.size(); ++i) same = st[i].slot == o.stores[i].slot && st[i].val == o.stores[i].val;
      if (!same) sim::Violate("batch-all-differs", c.Str() + ": stores differ from the entries run in order\n  got " + o.Str() + "\nprogram:\n" + b.Source());
      if (!c.voidp)
        for (size_t s = 0; s < pick.size(); ++s)
          if (each[s].ok && b.types[s] != VT::kVoid && o.vals.at(s) != each[s].vals.at(0)) sim::Violate("batch-all-differs", c.Str() + ": result of entry " + std::to_string(s) + " is " + o.vals[s] + ", alone it is " + each[s].vals[0] + "\nprogram:\n" + b.Source());
      CheckAllText(o, each, c, b);
    } else {
      // pipelines may be grouped: each pipeline's own stores keep their order
      for (size_t s = 0; s < pick.size(); ++s) {
        bool dup = std::count(pick.begin(), pick.end(), pick[s]) > 1;
        std::vector<world::StoreRec> mine;
        for (auto& q : o.stores) if (q.slot / 1000 == pick[s]) mine.push_back(q);
        auto& w = each[s].stores;
        if (dup) {
          std::set<std::string> a, b2;
          for (auto& q : w) a.insert(std::to_string(q.slot) + "=" + q.val);
          for (auto& q : mine) b2.insert(std::to_string(q.slot) + "=" + q.val);
          if (a != b2 || mine.size() > w.size() * (size_t)std::count(pick.begin(), pick.end(), pick[s])) sim::Violate("batch-all-differs", c.Str() + ": stores of repeated pipeline " + std::to_string(s) + " differ from the same pipeline compiled alone\n  alone " + each[s].Str() + "\n  got " + o.Str() + "\nprogram:\n" + b.Source());
          continue;
        }
        bool same = w.size() == mine.size();
        for (size_t i = 0; same && i < w.size(); ++i) same = w[i].slot == mine[i].slot && w[i].val == mine[i].val;
        if (!same) sim::Violate("batch-all-differs", c.Str() + ": stores of pipeline " + std::to_string(s) + " differ from the same pipeline compiled alone\n  alone " + each[s].Str() + "\n  got " + o.Str() + "\nprogram:\n" + b.Source());
      }
    }
    return o;
  };
  bool conc = r.P(0.4);
  ExecContext ctx(opt.exec_ctx_arena_alloc_min_chunk_size);
  if (!conc) {
    for (size_t in = 0; in < inputs.size(); ++in) {
      sim::SetOp("batch entries on input %zu", in);
      if (!pipe) for (size_t s = 0; s < pick.size(); ++s) LogOutcome(check_one(in, (int)s, &ctx));
      LogOutcome(check_all(in, r.P(0.7) ? &ctx : nullptr));
    }
  } else {
    int nt = 2 + (int)r.Below(3);
    std::vector<std::function<void()>> fns;
    std::vector<std::vector<Outcome>> out(nt);
    for (int t = 0; t < nt; ++t)
      fns.push_back([&, t] {
        std::unique_ptr<ExecContext> cx;
        { sim::NoYield ny; cx = std::make_unique<ExecContext>(opt.exec_ctx_arena_alloc_min_chunk_size); }
        for (size_t in = 0; in < inputs.size(); ++in) {
          if (!pipe) for (size_t s = 0; s < pick.size(); ++s) if ((s + t) % nt == 0) out[t].push_back(check_one(in, (int)s, cx.get()));
          if ((in + t) % 2 == 0) out[t].push_back(check_all(in, cx.get()));
        }
      });
    sim::SetOp("%d threads executing different entries", nt);
    sim::RunThreads(fns, sim::RandomSched(r), r.Fork(7));
    for (auto& v : out) for (auto& o : v) LogOutcome(o);
  }
  Config(pick.size() * 8 + how * 2 + conc);
}

void Warm() {
  // initialise LLVM, the process symbol table and everything lazily created inside the C++ library
  gen::Opts o;
  o.interp = true;
  o.depth = 2;
  Rng r(42);
  for (int k = 0; k < 4; ++k) {
    Program p = gen::MakeProgram((Kind)k, r.Fork(k + 1), o, 2, 100000, k == 3, false);
    ExecEngineOption op;
    op.enable_save_compiled = true;
    op.dump_ir = true;
    Eng e((Kind)k, op);
    e.Compile(p, *g_reg);
    std::string b;
    if (k < 2 && e.Save(&b).ok) { Eng f((Kind)k, op); f.Load(b, *g_reg); }
  }
}
void Run(const std::string& prop) {
  world::g_slack = 0;
  Rng r(sim::Mix(sim::spec.seed));
  Setup(r);
  static const std::map<std::string, void (*)(Rng)> table = {
      {"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C05", C05}, {"C06", C06}, {"C07", C07}, {"C08", C08},
      {"C09", C09}, {"C10", C10}, {"C11", C11}, {"C12", C12}, {"C13", C13}, {"C14", C14}, {"C15", C15}, {"C24", C24}};
  auto it = table.find(prop);
  if (it == table.end()) sim::Violate("sim-internal", "unknown property " + prop);
  it->second(r);
}
const char* Rule(const std::string& p) {
  static const std::map<std::string, const char*> m = {
      {"C01", "One program (engine, batch, expression or pipeline; sometimes loaded from a saved artifact), 3-8 distinct calls whose outcomes are first recorded alone in a cloned process, then 2-4 simulated threads issue 2-5 of them each under a seeded scheduler that preempts at every basic block, load, store, allocation and lock of repository code (15% of runs also at every machine instruction of the JIT code). Distinct = different schedule hash (sequence of thread/site at preemptive switches) with at least one preemptive switch."},
      {"C02", "6-25 calls of 1-3 engines through one reused context for 3-5 cycles against the same calls with a brand-new context in a cloned process; failing callbacks and builtins, arena scratch, tracked objects, random Clear(). Distinct = different sequence of outcomes."},
      {"C03", "Programs with logged callbacks that fail on armed tokens and builtins that fail on mismatched inputs; status and text of every execution are compared with the callback log, batches with their entries in index order; 35% concurrent. Distinct = different sequence of outcomes."},
      {"C04", "Histories of 6-20 compiles and loads (valid, invalid, damaged, refused memory, missing functions), executions, saves and introspection against a model that knows which program must be served. Distinct = different sequence of operations and outcomes."},
      {"C05", "Save on a simulated disk (write, fsync, rename; crash anywhere), restart as a second executable with other image base, heap, stack, library and callback addresses, load what the disk holds and compare every outcome. Distinct = different sequence of outcomes."},
      {"C06", "Artifacts damaged by truncation, torn sectors, appended and duplicated data, flipped framing bits, extreme length fields, foreign host strings, wrong engine kind; extension areas; waivers. Distinct = different sequence of damage and outcome."},
      {"C07", "10-200 arena operations (allocate with any size and alignment, create objects, reset, refused memory) against a block model. Distinct = different sequence of operations."},
      {"C08", "2-6 programs compiled alone and as a batch in any composition and order, every entry compared on several inputs, sequentially or from 2-4 threads. Distinct = different sequence of outcomes."},
      {"C09", "One engine operation (create, compile, load, destroy) with the k-th map or protect request refused once or persistently while another engine serves; then recovery. Distinct = different operation, refusal point and outcome."},
      {"C10", "Programs compiled from inputs that are destroyed and overwritten afterwards, and compiled again in cloned processes with another heap layout, code placement and memory contents. Distinct = different sequence of outcomes."},
      {"C11", "1-6 pipeline scripts against a reference interpreter, permuted, repeated and subset, with failing callbacks, sequentially or from 2-4 threads. Distinct = different sequence of outcomes."},
      {"C12", "Conditional-heavy programs against a reference interpreter: value, stores, callbacks run and errors. Distinct = different sequence of outcomes."},
      {"C13", "One random lifecycle (registry, engines, compiles, loads, saves, executions, failures) repeated 4-5 times; live heap and mapped code must not grow. Distinct = different lifecycle."},
      {"C14", "2-4 simulated threads, each with its own engine and a script of create/compile/load/save/execute/destroy operations, half of the runs in a process where LLVM was never initialised; every outcome compared with the same script run alone in a cloned process. Distinct = different schedule hash."},
      {"C15", "20-50 registrations (plain, commutative, with context in both spellings, store, intrinsic, direct; duplicates, overrides, null functions), lookups, compiles, saves, loads and executions over 1-3 registries that come and go, against a model of each registry and of the functions each program was bound to; 30% go on with 2-3 threads. Distinct = different sequence of operations and outcomes."},
      {"C24", "a program over built-ins and callbacks executed while seeded requests of the execution arena for memory are refused (one, a few, or all from some point), alone or while other threads execute; statuses, and the following executions, are checked. Distinct = operations and refusals."}};
  auto it = m.find(p);
  return it == m.end() ? "" : it->second;
}
}  // namespace props
