// C09 (refused system memory), C13 (every resource is returned) and C14 (separate engines side by side).
#include <algorithm>
#include <cstring>
#include "art.h"
#include "life.h"
#include "props.h"

namespace props {

static std::string Line(const Outcome& o) {
  Outcome c = o;
  std::sort(c.trace.begin(), c.trace.end());
  return c.Str(true);
}

// LLVM lists symbol names in the order of a hash table keyed by addresses
static std::string Words(const std::string& m) {
  std::vector<std::string> w(1);
  for (char c : m) if (strchr(" ,(){}[]", c)) { if (!w.back().empty()) w.emplace_back(); } else w.back() += c;
  std::sort(w.begin(), w.end());
  std::string o;
  for (auto& x : w) if (!x.empty()) o += x + ' ';
  return o;
}

// ------------------------------------------------------------------ C09
void C09(Rng r) {
  static const Kind ks[] = {Kind::Single, Kind::Single, Kind::Batch, Kind::Batch, Kind::Expr, Kind::Pipe};
  Kind k = ks[r.Below(6)];
  bool savable = k == Kind::Single || k == Kind::Batch;
  ExecEngineOption opt = RandOpt(r, r.P(0.5), r.P(0.2));
  int np = 2;
  std::vector<Program> progs;
  for (int i = 0; i < np; ++i) {
    gen::Opts go = RandGen(r);
    go.depth = 1 + (int)r.Below(2);
    int n = k == Kind::Single || k == Kind::Expr ? 1 : Entries(r, go, 1 + (int)r.Below(4));
    progs.push_back(gen::MakeProgram(k, r.Fork(i + 1), go, n, 7310017 + i * 10007, k == Kind::Pipe || (k != Kind::Expr && r.P(0.3))));
  }
  world::RecOpts ro = RandRec(r, false);
  std::map<int, std::string> arts;
  std::vector<std::vector<Call>> calls(np);
  std::vector<std::vector<Outcome>> want(np);
  for (int i = 0; i < np; ++i) {
    int nc = 2;
    for (int j = 0; j < nc; ++j) { Rng cr = r.Fork(300 + i * 10 + j); calls[i].push_back(ServeCall(cr, progs[i], ro)); }
    if (k == Kind::Batch) for (size_t e = 0; e < progs[i].types.size(); ++e) {   // every entry must be usable
      Rng cr = r.Fork(340 + i * 10 + e);
      Call c = ServeCall(cr, progs[i], ro);
      c.entry = (int)e;
      c.voidp = progs[i].types[e] == VT::kVoid;
      calls[i].push_back(c);
    }
    want[i] = FreshOutcomes(k, opt, progs[i], opt.fp_math_mode == FPMathMode::kFast, calls[i], nullptr);
    if (savable) arts[i] = WriteArtifact(k, opt, progs[i], opt.fp_math_mode == FPMathMode::kFast);
  }
  // an engine that is serving all the time
  Kind sk = ks[r.Below(6)];
  gen::Opts sgo = RandGen(r);
  sgo.depth = 1;
  Program sp = gen::MakeProgram(sk, r.Fork(50), sgo, sk == Kind::Batch || sk == Kind::Pipe ? 2 : 1, 9000011, sk == Kind::Pipe, false);
  Eng serving(sk, opt);
  CompileGood(serving, sp, *g_reg, "serving program");
  std::vector<Call> scalls;
  for (int i = 0; i < 3; ++i) { Rng cr = r.Fork(400 + i); scalls.push_back(RandCall(cr, sp, ro)); }
  auto swant = SoloOutcomes(serving, sp, scalls);

  auto eng = std::make_unique<Eng>(k, opt);
  uint64_t base_n = sim::MapLiveCount(), base_b = sim::MapLiveBytes();
  int cur = -1;
  bool lost = false;    // an unmap was refused: that memory stays
  auto rebase = [&] { base_n = sim::MapLiveCount(); base_b = sim::MapLiveBytes(); };
  auto serve = [&](size_t i, const std::string& where) {
    ExecContext ctx(opt.exec_ctx_arena_alloc_min_chunk_size);
    Outcome o = world::Exec(serving, scalls[i], sp, &ctx);
    sim::NoYield ny;
    o.mask = swant[i].mask;
    Check(swant[i], o, scalls[i], "other-engine-damaged", where, sp, true);
  };
  auto use = [&](const std::string& where, const char* cls) {
    for (size_t i = 0; i < calls[cur].size(); ++i) {
      sim::SetOp("execute %s (%s)", calls[cur][i].Str().c_str(), where.c_str());
      ExecContext ctx(opt.exec_ctx_arena_alloc_min_chunk_size);
      Outcome o = world::Exec(*eng, calls[cur][i], progs[cur], &ctx);
      o.mask = want[cur][i].mask;
      LogOutcome(o);
      Check(want[cur][i], o, calls[cur][i], cls, where, progs[cur], false);
    }
  };
  int nops = 3 + (int)r.Below(5);
  for (int n = 0; n < nops; ++n) {
    Rng er = r.Fork(9000 + n);
    if (!sim::KeepElem()) continue;
    int op = (int)er.Below(savable ? 10 : 6);        // 0-4 compile, 5 destroy, 6-9 load
    int i = (int)er.Below(np);
    bool conc = er.P(0.25);
    const char* name = op <= 4 ? "compile" : op == 5 ? "destroy and create" : "load";
    St s;
    auto doit = [&] {
      if (op <= 4) s = eng->Compile(progs[i], *g_reg);
      else if (op == 5) { eng.reset(); eng = std::make_unique<Eng>(k, opt); }
      else s = eng->Load(arts[i], *g_reg);
    };
    // how many requests does it make when nothing is refused?
    sim::MapCfg m;
    static const int kinds[] = {1, 1, 1, 2, 2, 3, 3, 7, 4};
    m.kinds = op == 5 ? (er.P(0.7) ? 4 : 7) : kinds[er.Below(9)];
    m.fail_from = ~0ull - 1000;
    sim::SetOp("count the map requests of %s (operation %d)", name, n);
    uint64_t total = strtoull(world::RunInClone([&] { sim::MapArm(m, 1); doit(); uint64_t c = sim::MapCalls(); sim::MapDisarm(); return std::to_string(c); }, nullptr).c_str(), nullptr, 10);
    m.enabled = true;
    int how = (int)er.Below(8);
    if (how == 7) { m.random = true; static const double ps[] = {0.1, 0.3, 0.6}; m.p = ps[er.Below(3)]; }
    m.fail_from = er.Below(total + 1);
    m.fail_len = how < 3 ? 1 : how < 5 ? 1 + er.Below(3) : total + 1000;
    std::string what = std::string(name) + " of program " + std::to_string(i) + ", kinds " + std::to_string(m.kinds) + ", " + (m.random ? "random" : std::to_string(m.fail_len) + " from " + std::to_string(m.fail_from)) + " of " + std::to_string(total);
    sim::SetOp("%s refused (operation %d%s)", what.c_str(), n, conc ? ", another engine executing" : "");
    uint64_t before_n = sim::MapLiveCount(), before_b = sim::MapLiveBytes();
    // what a refused protect or unmap request leaves behind is the JIT linker's (LLVM's), not this library's
    auto kept = [] { return sim::sh->faults[sim::F_MUNMAP_FAIL] + sim::sh->faults[sim::F_MPROTECT_FAIL]; };
    uint64_t kept0 = kept();
    uint64_t failed = 0;
    auto faulted = [&] {
      sim::MapArm(m, er.U64());
      doit();
      failed = sim::MapFailed();
      sim::MapDisarm();
    };
    if (conc) {
      std::vector<std::function<void()>> fns{faulted, [&] { for (int j = 0; j < 3; ++j) serve((size_t)((n + j) % 3), "while another engine was refused memory: " + what); }};
      Rng sr = er.Fork(8);
      sim::RunThreads(fns, sim::RandomSched(sr, true), er.Fork(7));
    } else faulted();
    bool unmap_refused = kept() != kept0;
    lost |= unmap_refused;
    what += ", " + std::to_string(failed) + " refused: " + (s.ok ? "OK" : s.msg);
    sim::sh->ops++;
    sim::LogStr(s.msg);
    sim::LogEvent(failed);
    Config(op * 64 + m.kinds * 8 + s.ok * 4 + (failed > 0) * 2 + conc);
    if (!s.ok && !failed) sim::Violate("failed-without-fault", what);
    if (!s.ok && s.msg.size() < 8) sim::Violate("no-diagnostic", what + ": {" + s.msg + "}");
    if (failed) sim::Hit(s.ok ? sim::PR_FAULT_SURVIVED : sim::PR_FAULT_REPORTED);
    if (op == 5) {
      cur = -1;
      if (!lost && (sim::MapLiveCount() != base_n || sim::MapLiveBytes() != base_b)) sim::Violate("mapping-leaked", what + ": " + std::to_string(sim::MapLiveBytes() - base_b) + " bytes stay mapped");
      if (unmap_refused) { rebase(); lost = false; }
    } else if (s.ok) {
      cur = i;
      use("after a successful " + what, "unusable-program");
    } else if (op <= 4 || cur < 0) {
      if (!lost && (sim::MapLiveCount() != base_n || sim::MapLiveBytes() != base_b))
        sim::Violate("mapping-leaked", what + ": " + std::to_string((int64_t)(sim::MapLiveBytes() - base_b)) + " bytes, " + std::to_string((int64_t)(sim::MapLiveCount() - base_n)) + " mappings stay");
      cur = -1;
      CheckEmpty(*eng, er, progs[0], ro, what);
    } else {             // refused load: the old program, completely, or none
      Call c = calls[cur][0];
      ExecContext ctx(64);
      sim::SetOp("which program is served after %s", what.c_str());
      Outcome o = world::Exec(*eng, c, progs[cur], &ctx);
      if (MarkSeen(o, progs[cur].mark)) {
        sim::Hit(sim::PR_OLD_KEPT);
        if (!lost && (sim::MapLiveCount() != before_n || sim::MapLiveBytes() != before_b)) sim::Violate("mapping-leaked", what + ": the mapped memory changed although the old program was kept");
        use("old program kept after " + what, "old-program-damaged");
      } else {
        if (o.ok || !o.trace.empty() || !o.stores.empty()) sim::Violate("half-replaced", what + ": neither the old program nor an error: " + o.Str());
        cur = -1;
        if (!lost && (sim::MapLiveCount() != base_n || sim::MapLiveBytes() != base_b)) sim::Violate("mapping-leaked", what + ": memory stays mapped");
      }
    }
    sim::SetOp("serving engine after %s", what.c_str());
    serve(er.Below(3), "after " + what);
    if (er.P(0.4)) {     // memory is available again
      int j = (int)er.Below(np);
      bool ld = savable && er.P(0.5);
      sim::SetOp("recovery %s after %s", ld ? "load" : "compile", what.c_str());
      St q = ld ? eng->Load(arts[j], *g_reg) : eng->Compile(progs[j], *g_reg);
      if (!q.ok) sim::Violate("no-recovery", "after " + what + ": " + q.msg);
      cur = j;
      use("recovered after " + what, "unusable-after-recovery");
    }
  }
  sim::SetOp("final recovery");
  int j = (int)r.Below(np);
  St q = eng->Compile(progs[j], *g_reg);
  if (!q.ok) sim::Violate("no-recovery", "at the end: " + q.msg);
  cur = j;
  use("at the end", "unusable-after-recovery");
  sim::SetOp("final destroy");
  eng.reset();
  if (!lost && (sim::MapLiveCount() != base_n || sim::MapLiveBytes() != base_b)) sim::Violate("mapping-leaked", "at the end: " + std::to_string((int64_t)(sim::MapLiveBytes() - base_b)) + " bytes stay mapped");
  for (size_t i = 0; i < scalls.size(); ++i) serve(i, "at the end");
}

// ------------------------------------------------------------------ a lifecycle: several engines, one script
struct Step { int op; uint64_t seed; };
struct Script {
  std::vector<Program> progs;
  std::vector<ExecEngineOption> opts;
  std::vector<std::string> arts;          // "" when the kind cannot be saved
  std::vector<Step> steps;
  world::RecOpts ro;
  int slots = 2;
  bool faults = false;
};
static Script MakeScript(Rng r, int max_steps, bool faults, int32_t base) {
  Script s;
  s.faults = faults;
  s.ro = RandRec(r, false);
  int np = 2 + (int)r.Below(2);
  for (int i = 0; i < np; ++i) {
    gen::Opts go = RandGen(r);
    go.depth = 1 + (int)r.Below(2);
    Kind k = RandKind(r);
    int n = k == Kind::Single || k == Kind::Expr ? 1 : Entries(r, go, 1 + (int)r.Below(3));
    if (i > 0 && s.progs[0].kind == k && r.P(0.6)) s.progs.push_back(gen::NearCopy(s.progs[0], r.Fork(i + 40), go, base + 11 + i * 10007));
    else s.progs.push_back(gen::MakeProgram(k, r.Fork(i + 1), go, n, base + 11 + i * 10007, k == Kind::Pipe || (k != Kind::Expr && r.P(0.3))));
    s.opts.push_back(RandOpt(r, r.P(0.7), r.P(0.4)));
    bool sv = k == Kind::Single || k == Kind::Batch;
    s.arts.push_back(sv && r.P(0.8) ? WriteArtifact(k, s.opts[i], s.progs[i], s.opts[i].fp_math_mode == FPMathMode::kFast) : "");
  }
  int n = 3 + (int)r.Below(max_steps);
  bool many = r.P(0.06);                      // a long life with many engines alive
  if (many) n += 20 + (int)r.Below(20);
  for (int i = 0; i < n; ++i) {
    Step st{(int)r.Below(100), r.U64()};
    if (sim::KeepElem()) s.steps.push_back(st);
  }
  s.slots = 1 + (int)r.Below(2);
  if (many) s.slots = 3 + (int)r.Below(10);
  return s;
}
struct Slot { std::unique_ptr<Eng> e; int prog = 0; int served = -1; std::string saved; };
// what every step did, in words that do not depend on where things are in memory
static void RunScript(const Script& s, bool own_registry, const std::function<void(size_t, const std::string&)>& emit, std::vector<Slot>* left = nullptr) {
  std::vector<Slot> slots(s.slots);
  Registry reg;
  auto R = [&]() -> const Registry& { return reg ? reg : *g_reg; };
  ExecContext ctx(64);
  for (size_t n = 0; n < s.steps.size(); ++n) {
    Rng er(s.steps[n].seed);
    int op = s.steps[n].op;
    Slot& t = slots[er.Below(slots.size())];
    if (!t.e || er.P(0.08)) {
      t.prog = (int)er.Below(s.progs.size());
      t.e = std::make_unique<Eng>(s.progs[t.prog].kind, s.opts[t.prog]);
      t.served = -1;
      t.saved.clear();
    }
    const Program& p = s.progs[t.prog];
    bool sv = p.kind == Kind::Single || p.kind == Kind::Batch;
    std::string line;
    sim::MapCfg m;
    bool refuse = s.faults && er.P(0.12);
    m.kinds = 1;   // what a refused protect request leaves behind is the JIT linker's
    m.fail_from = er.Below(8);
    m.fail_len = er.P(0.5) ? 1 : 1000;
    auto call = [&](const char* what, const std::function<St()>& f) {
      if (refuse) sim::MapArm(m, 1);
      St q = f();
      uint64_t failed = 0;
      if (refuse) { failed = sim::MapFailed(); sim::MapDisarm(); }
      sim::NoYield ny;
      line = std::string(what) + (q.ok ? " ok" : failed ? " refused" : " " + Words(q.msg));
      if (q.ok) t.served = t.prog; 
      return q.ok;
    };
    if (op < 25) {
      if (!call("compile", [&] { return t.e->Compile(p, R()); })) t.served = -1;
    } else if (op < 38) {
      std::string name;
      Program bad;
      { sim::NoYield ny; bad = BadProgram(p, er, &name); sim::Fired(sim::F_BAD_PROGRAM); }
      refuse = false;
      if ((p.kind == Kind::Expr || p.kind == Kind::Pipe) && er.P(0.4)) {
        { sim::NoYield ny; name = BadText(er); }
        call("bad text", [&] { return CompileText(*t.e, p, name, er); });
      } else {
        call("bad compile", [&] { return t.e->Compile(bad, R()); });
      }
      sim::NoYield ny;
      line = name + ": " + line;
      if (p.kind == Kind::Single || p.kind == Kind::Batch) t.served = -1;
    } else if (op < 45) {
      std::string out;
      St q = sv ? t.e->Save(&out) : St{false, "cannot be saved"};
      sim::NoYield ny;
      line = std::string("save ") + (q.ok ? "ok" : q.msg);
      if (q.ok) { t.saved = out; Art a = Art::Parse(out); if (!a.ok) line += " garbage"; else line += " types " + std::to_string(a.types.size()) + " fp " + std::to_string(a.fp) + " ext " + std::to_string(a.ext.size()); }
    } else if (op < 62 && sv) {
      std::string bytes = !t.saved.empty() && er.P(0.6) ? t.saved : s.arts[t.prog];
      std::string how = "load";
      Registry alt;
      if (bytes.empty()) { bytes = "garbage"; how = "load of garbage"; }
      else if (er.P(0.45)) {
        refuse = false;   // how far such a load gets may depend on a hash order
        switch (er.Below(4)) {
          case 0: bytes.resize(er.Below(bytes.size())); how = "load of truncated bytes"; sim::Fired(sim::F_TRUNCATE); break;
          case 1: { sim::NoYield ny; Art a = Art::Parse(bytes); a.types.push_back(a.types[0]); bytes = a.Build(); how = "load claiming one more entry"; sim::Fired(sim::F_BYTE_SET); break; }
          case 2: { sim::NoYield ny; alt = world::MakeRegistry(0, RootFunc(p, er.Below(p.entries.size()))); how = "load with a lacking registry"; sim::Fired(sim::F_MISSING_FUNC); break; }
          default: { sim::NoYield ny; Art a = Art::Parse(bytes); a.llvm += "x"; bytes = a.Build(); how = "load from a foreign host"; sim::Fired(sim::F_FOREIGN_HOST); }
        }
      }
      call(how.c_str(), [&] { return t.e->Load(bytes, alt ? alt : R()); });
      { sim::NoYield ny; std::fill(bytes.begin(), bytes.end(), (char)0xcc); }
      sim::Hit(line.find(" ok") != std::string::npos ? sim::PR_LOAD_OK : sim::PR_LOAD_REJECT);
    } else if (op < 92) {
      Call c;
      { sim::NoYield ny; c = ServeCall(er, p, s.ro); }
      std::unique_ptr<Rec> rec;
      { sim::NoYield ny; rec = world::MakeRec(c.rec_seed, p.tokens, c.ro); }
      std::unique_ptr<ExecContext> own_ctx;
      if (er.P(0.3)) own_ctx = std::make_unique<ExecContext>(s.opts[t.prog].exec_ctx_arena_alloc_min_chunk_size);
      std::string inner;
      if (er.P(0.12)) {
        // a function called by the program works with other engines
        rec->reenter_at = (uint32_t)er.Below(3);
        rec->reenter = [&] {
          size_t o = er.Below(slots.size() + 1), q = er.Below(s.progs.size());
          if (o < slots.size() && &slots[o] == &t) o = slots.size();
          Slot tmp;
          Slot& x = o < slots.size() ? slots[o] : tmp;
          if (x.e && er.P(0.3)) { x.e.reset(); inner = "; inside: destroy"; return; }
          if (!x.e) { x.prog = (int)q; x.e = std::make_unique<Eng>(s.progs[q].kind, s.opts[q]); x.served = -1; x.saved.clear(); }
          St st = x.e->Compile(s.progs[x.prog], R());
          if (st.ok) x.served = x.prog;
          Call ci;
          { sim::NoYield ny; ci = ServeCall(er, s.progs[x.prog], s.ro); }
          ExecContext cx(64);
          Outcome oi = world::Exec(*x.e, ci, s.progs[x.prog], &cx);
          sim::NoYield ny;
          inner = "; inside: compile " + std::string(st.ok ? "ok" : Words(st.msg)) + ", execute " + Line(oi);
        };
      }
      Outcome o = world::Exec(*t.e, c, p, own_ctx ? own_ctx.get() : &ctx, rec.get());
      sim::NoYield ny;
      line = "execute " + Line(o) + inner;
      sim::sh->execs++;
    } else if (op < 94) {
      std::string ir = t.e->IR();
      sim::NoYield ny;
      line = "ir " + std::string(ir.empty() ? "empty" : IrHas(ir, p.mark) ? "of the program" : "without the program");
      if (p.kind == Kind::Batch) line += " count " + std::to_string(t.e->Count());
    } else if (op < 96 && own_registry) {
      sim::NoYield ny;
      if (reg) reg.reset(); else reg = world::MakeRegistry((int)er.Below(2));
      line = "registry";
    } else {
      t.e.reset();
      line = "destroy";
    }
    sim::sh->ops++;
    sim::NoYield ny;
    emit(n, line);
  }
  if (left) {
    sim::NoYield ny;
    *left = std::move(slots);
    return;
  }
  // destroy in a random order
  Rng er(s.steps.empty() ? 1 : s.steps.back().seed);
  if (er.P(0.5)) for (auto it = slots.rbegin(); it != slots.rend(); ++it) it->e.reset();
}

// engines that another thread left behind
static void RunLeft(const Script& s, std::vector<Slot>& left, size_t n, const std::function<void(size_t, const std::string&)>& emit) {
  for (size_t i = 0; i < left.size(); ++i) {
    Slot& t = left[i];
    Rng er((s.steps.empty() ? 1 : s.steps.back().seed) + 31 * i);
    const Program& p = s.progs[t.prog];
    for (int k = 0; k < 3 && t.e; ++k) {
      std::string line;
      if (k == 1) {
        if (!er.P(0.4)) continue;
        St q = t.e->Compile(p, *g_reg);
        sim::NoYield ny;
        line = std::string("recompile ") + (q.ok ? "ok" : Words(q.msg));
      } else if (k == 0 || er.P(0.5)) {
        Call c;
        { sim::NoYield ny; c = ServeCall(er, p, s.ro); }
        ExecContext cx(64);
        Outcome o = world::Exec(*t.e, c, p, &cx);
        sim::NoYield ny;
        line = "taken over: execute " + Line(o);
      } else {
        t.e.reset();
        line = "destroy";
      }
      sim::NoYield ny;
      emit(n++, line);
    }
    t.e.reset();
  }
}

// ------------------------------------------------------------------ C13
void C13(Rng r) {
  Script s = MakeScript(r, sim::spec.thorough ? 16 : 9, r.P(0.5), 7310000);
  bool own_reg = r.P(0.5);
  bool conc = r.P(0.25);
  Script s2;
  if (conc) s2 = MakeScript(r.Fork(3), 4, false, 8310000);
  const int cycles = 5;
  uint64_t bytes[cycles], blocks[cycles], maps[cycles], mapn[cycles], gen[cycles];
  std::vector<uint64_t> first;
  first.reserve(64);
  for (int c = 0; c < cycles; ++c) {
    gen[c] = sim::HeapGen();
    sim::SetOp("lifecycle, cycle %d", c);
    auto emit = [&](size_t n, const std::string& line) {
      uint64_t h = std::hash<std::string>()(line);
      sim::LogEvent(h);
      if (c == 0) { first.push_back(h); sim::sh->state_hash = sim::Mix(sim::sh->state_hash ^ h); if (sim::spec.explain) sim::Explain("step %zu: %s\n", n, line.c_str()); }
      else if (first[n] != h) sim::Violate("cycles-differ", "the same lifecycle did something else in cycle " + std::to_string(c) + ": step " + std::to_string(n) + ": " + line);
    };
    if (!conc) RunScript(s, own_reg, emit);
    else {
      Rng sr = r.Fork(8);
      std::vector<std::function<void()>> fns{[&] { RunScript(s, own_reg, emit); }, [&] { RunScript(s2, false, [c](size_t n, const std::string& line) { if (sim::spec.explain && c == 0) sim::Explain("second thread, step %zu: %s\n", n, line.c_str()); }); }};
      sim::RunThreads(fns, sim::RandomSched(sr, true), r.Fork(7));
    }
    bytes[c] = sim::HeapLiveBytes();
    blocks[c] = sim::HeapLiveBlocks();
    maps[c] = sim::MapLiveBytes();
    mapn[c] = sim::MapLiveCount();
    sim::Hit(sim::PR_LEAK_CYCLES);
    if (world::OwnLive() != 0) sim::Violate("object-leaked", std::to_string(world::OwnLive()) + " objects handed to execution contexts were never destroyed");
  }
  auto grows = [&](const uint64_t* v) { return v[2] > v[1] && v[3] > v[2] && v[4] > v[3]; };
  std::string nums;
  for (int c = 0; c < cycles; ++c) nums += " " + std::to_string(bytes[c]) + "/" + std::to_string(blocks[c]);
  std::string mnums;
  for (int c = 0; c < cycles; ++c) mnums += " " + std::to_string(maps[c]);
  sim::LogEvent(blocks[4] - blocks[2]);
  if (grows(blocks) || grows(bytes)) sim::Violate("heap-leaked", "live heap (bytes/blocks) after each cycle:" + nums + "\nblocks of the last cycle still live:\n" + sim::HeapDescribeSince(gen[cycles - 1], 12));
  if (grows(maps) || grows(mapn)) sim::Violate("mapping-leaked", "mapped code memory after each cycle: " + std::to_string(maps[0]) + " " + std::to_string(maps[1]) + " " + std::to_string(maps[2]) + " " + std::to_string(maps[3]) + " " + std::to_string(maps[4]));
  if (maps[4] || mapn[4]) sim::Violate("mapping-leaked", std::to_string(maps[4]) + " bytes of code memory are mapped although no engine exists (after each cycle:" + mnums + ")");
  Config(s.steps.size() * 4 + conc);
}

// ------------------------------------------------------------------ C14
void C14(Rng r) {
  int nt = 2 + (int)r.Below(3);
  std::vector<Script> sc;
  for (int t = 0; t < nt; ++t) sc.push_back(MakeScript(r.Fork(100 + t), nt == 2 ? 6 : 4, false, 7310000 + t * 1000000));
  bool same = r.P(0.3);                       // everybody does the same, or nearly the same
  if (same) for (int t = 1; t < nt; ++t) {
    sc[t].progs.clear();
    bool near = r.P(0.5);
    for (auto& p : sc[0].progs) sc[t].progs.push_back(near ? gen::NearCopy(p, r.Fork(60 + t), gen::Opts()) : p.Copy());
    sc[t].opts = sc[0].opts; sc[t].arts = sc[0].arts;
    if (near) for (auto& a : sc[t].arts) a.clear();
    sc[t].steps = sc[0].steps; sc[t].ro = sc[0].ro; sc[t].slots = sc[0].slots;
  }
  bool own_reg = r.P(0.3);
  bool hand = r.P(0.35);                      // afterwards every thread takes over the engines of another
  std::vector<std::vector<std::string>> want(nt);
  for (int t = 0; t < nt; ++t) {
    sim::SetOp("script %d alone", t);
    std::string all = world::RunInClone([&] {
      std::string out;
      auto put = [&](size_t, const std::string& l) { uint32_t z = l.size(); out.append((char*)&z, 4); out += l; };
      std::vector<Slot> left;
      RunScript(sc[t], own_reg, put, hand ? &left : nullptr);
      RunLeft(sc[t], left, 0, put);
      return out;
    }, nullptr);
    for (size_t pos = 0; pos + 4 <= all.size();) {
      uint32_t z;
      memcpy(&z, &all[pos], 4);
      want[t].push_back(all.substr(pos + 4, z));
      pos += 4 + z;
    }
    if (want[t].size() < sc[t].steps.size()) sim::Violate("sim-internal", "script alone");
    if (sim::spec.explain) for (size_t n = 0; n < want[t].size(); ++n) sim::Explain("thread %d step %zu: %s\n", t, n, want[t][n].c_str());
  }
  std::vector<std::function<void()>> fns;
  std::vector<uint64_t> done(nt);
  std::vector<std::vector<Slot>> left(nt);
  auto check = [&](int t) {
    return [&, t](size_t n, const std::string& l) {
        sim::LogEvent(std::hash<std::string>()(l));
        done[t] = n + 1;
        if (n >= want[t].size() || l != want[t][n]) sim::Violate("engines-interfere", "thread " + std::to_string(t) + " of " + std::to_string(nt) + ", step " + std::to_string(n) + "\n  side by side: " + l.substr(0, 1500) + "\n  alone:        " + (n < want[t].size() ? want[t][n].substr(0, 1500) : "nothing"));
    };
  };
  for (int t = 0; t < nt; ++t) fns.push_back([&, t] { RunScript(sc[t], own_reg, check(t), hand ? &left[t] : nullptr); });
  sim::SetOp("%d threads with their own engines%s", nt, same ? " doing the same" : "");
  sim::RunThreads(fns, sim::RandomSched(r, true), r.Fork(7));
  if (hand) {
    fns.clear();
    for (int t = 0; t < nt; ++t) fns.push_back([&, t] { int o = (t + 1) % nt; RunLeft(sc[o], left[o], sc[o].steps.size(), check(o)); });
    Rng hr = r.Fork(9);
    sim::SetOp("%d threads with the engines other threads made", nt);
    sim::RunThreads(fns, sim::RandomSched(hr, true), r.Fork(10));
  }
  for (int t = 0; t < nt; ++t) {
    if (done[t] != want[t].size()) sim::Violate("sim-internal", "thread did not finish");
    for (auto& l : want[t]) sim::sh->state_hash = sim::Mix(sim::sh->state_hash ^ std::hash<std::string>()(l));
  }
  if (sim::MapLiveBytes()) sim::Violate("mapping-leaked", "code memory stays mapped after all engines are gone");
  if (world::OwnLive()) sim::Violate("object-leaked", "objects handed to execution contexts were never destroyed");
}
}  // namespace props
