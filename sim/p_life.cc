// C04: histories of compiles, loads, executions and failures of one engine against a model that knows which program the
// engine must be serving.
#include <algorithm>
#include <cstring>
#include <optional>
#include "art.h"
#include "life.h"
#include "props.h"

namespace props {
using gen::Ex;
using gen::EP;
using gen::K;

std::string RootFunc(const Program& p, size_t i) {
  const Ex& e = *p.entries[i];
  if (e.k == K::Call) return e.name;
  if (p.kind == Kind::Expr) return e.a.back()->name;
  return "st_i32";
}
static EP I32c(int32_t v) { auto e = std::make_unique<Ex>(K::Const, VT::kI32); e->cv = v; return e; }
static EP Callx(const std::string& n, VT t, EP a) { auto e = std::make_unique<Ex>(K::Call, t); e->name = n; if (a) e->a.push_back(std::move(a)); return e; }
static EP Storex(EP v) {
  auto c = std::make_unique<Ex>(K::Call, VT::kI32);
  c->name = "st_i32";
  c->a.push_back(std::make_unique<Ex>(K::Out, VT::kPtr));
  c->a.push_back(I32c(1));
  c->a.push_back(std::move(v));
  return c;
}
static EP BadExpr(int how, std::string* name) {
  switch (how) {
    case 0: *name = "undefined function"; return Callx("no_such_function", VT::kI32, I32c(3));
    case 1: { *name = "undefined variable"; auto e = std::make_unique<Ex>(K::Ref, VT::kI32); e->name = "undefined_variable"; return e; }
    case 2: { *name = "wrong argument types"; auto s = std::make_unique<Ex>(K::Const, VT::kString); s->cv = std::string("x"); return Callx("own", VT::kI32, std::move(s)); }
    case 3: *name = "invalid code from an intrinsic"; return Callx("bad_ir", VT::kI32, I32c(3));
    case 4: { *name = "unresolvable symbol"; auto a = std::make_unique<Ex>(K::Call, VT::kI32); a->name = "ld_i32"; a->a.push_back(std::make_unique<Ex>(K::Arg, VT::kPtr)); a->a.push_back(I32c(1)); return Callx("bad_link", VT::kI32, std::move(a)); }
    default: {
      *name = "type mismatch";
      auto e = std::make_unique<Ex>(K::If, VT::kI32);
      auto s = std::make_unique<Ex>(K::Const, VT::kString);
      s->cv = std::string("x");
      e->a.push_back(std::move(s)); e->a.push_back(I32c(1)); e->a.push_back(I32c(2));
      return e;
    }
  }
}
Program BadProgram(const Program& good, Rng& r, std::string* name) {
  Program p = good.Copy();
  size_t i = r.Below(p.entries.size());
  EP b = BadExpr((int)r.Below(6), name);
  if (p.kind == Kind::Expr || p.kind == Kind::Pipe || p.types[i] == VT::kVoid) {
    Ex& noop = *p.entries[i];
    if (noop.k != K::Noop) sim::Violate("sim-internal", "noop expected");
    size_t at = r.Below(noop.a.size() + 1);
    if (p.kind == Kind::Expr) {   // the result itself: definitions that are not used are dropped by the language
      noop.a.back() = std::move(b);
    } else {
      noop.a.insert(noop.a.begin() + at, Storex(std::move(b)));
      noop.vn.insert(noop.vn.begin() + at, "");
      noop.vc.insert(noop.vc.begin() + at, 0);
    }
  } else {
    p.entries[i] = std::move(b);
    p.types[i] = VT::kI32;
  }
  *name += " in entry " + std::to_string(i);
  return p;
}
// texts that are no program
std::string BadText(Rng& r) {
  static const char* bad[] = {"1 +", "let", ")", "x = ", "\"abc", "if (1", "1 2 3 $", "f(1,,2)", "", "// nothing", "99999999999999999999999;",
                              "x = 1.0e;", "v = 0.000000000000000000000000000000000000000000000000000001f32;", "a = [1, 2u8];", "when 1 { x = 1; } elif"};
  return bad[r.Below(sizeof bad / sizeof *bad)];
}
// Athena expression: t itself; pipelines: those of p and t among them
St CompileText(Eng& e, const Program& p, const std::string& t, Rng& r) {
  if (e.kind == Kind::Expr) return world::ToSt(e.e->Compile(t, *g_reg));
  std::vector<std::string> v;
  {
    sim::NoYield ny;
    for (auto& x : p.entries) v.push_back(gen::StmtText(*x));
    v.insert(v.begin() + r.Below(v.size() + 1), t);
  }
  return world::ToSt(e.p->Compile(v, *g_reg));
}
Call ServeCall(Rng& r, const Program& p, const world::RecOpts& ro) {
  Call c = RandCall(r, p, ro);
  if (p.kind == Kind::Single) c.voidp = p.types[0] == VT::kVoid;
  if (p.kind == Kind::Batch) {
    bool av = true;
    for (VT t : p.types) av &= t == VT::kVoid;
    c.voidp = c.entry == -1 ? av : p.types[c.entry] == VT::kVoid;
    if (c.entry == -1 && !av) {   // mixed batches: statement entries would not be identifiable
      c.entry = (int)r.Below(p.types.size());
      c.voidp = p.types[c.entry] == VT::kVoid;
    }
  }
  return c;
}
bool MarkSeen(const Outcome& o, int32_t mark) {
  for (int32_t t : o.trace) if (t == mark) return true;
  for (auto& s : o.stores) if (s.slot % 1000 == 999 && s.val.find(std::to_string(mark)) != std::string::npos) return true;
  return false;
}
bool IrHas(const std::string& ir, int32_t mark) {
  std::string n = std::to_string(mark);
  for (size_t p = ir.find(n); p != std::string::npos; p = ir.find(n, p + 1))
    if ((p == 0 || !isdigit((unsigned char)ir[p - 1])) && (p + n.size() >= ir.size() || !isdigit((unsigned char)ir[p + n.size()]))) return true;
  return false;
}
// what an engine that serves nothing must do with any call
void CheckEmpty(Eng& e, Rng& r, const Program& shape, const world::RecOpts& ro, const std::string& where) {
  Call c;
  c.ro = ro;
  c.rec_seed = r.U64();
  c.ctx = r.P(0.5);
  c.voidp = e.kind == Kind::Pipe || (e.kind != Kind::Expr && r.P(0.5));
  if (e.kind == Kind::Batch) c.entry = r.P(0.4) ? -1 : (int)r.Below(3);
  sim::SetOp("execute an engine that serves no program: %s (%s)", c.Str().c_str(), where.c_str());
  sim::Hit(sim::PR_EXEC_EMPTY);
  ExecContext ctx(e.opt.exec_ctx_arena_alloc_min_chunk_size);
  Outcome o = world::Exec(e, c, shape, &ctx);
  LogOutcome(o);
  if (!o.trace.empty() || !o.stores.empty()) sim::Violate("empty-engine-ran-code", where + ": " + c.Str() + " ran functions although the engine serves no program: " + o.Str());
  if (o.ok) sim::Violate("empty-engine-ok", where + ": " + c.Str() + " returned OK although the engine serves no program");
}

struct Pool {
  Kind kind;
  ExecEngineOption opt;
  std::vector<Program> progs;
  std::map<std::pair<int, int>, std::string> art;
  std::string Artifact(int i, int fp) {   // as another process would have written it
    auto key = std::make_pair(i, fp);
    auto it = art.find(key);
    if (it != art.end()) return it->second;
    std::string b = WriteArtifact(kind, opt, progs[i], fp);
    return art[key] = b;
  }
};
std::string WriteArtifact(Kind kind, ExecEngineOption o, const Program& p, int fp) {
  o.enable_save_compiled = true;
  o.fp_math_mode = fp ? FPMathMode::kFast : FPMathMode::kStrict;
  std::string prev = sim::sh->op;
  std::string b = world::RunInClone([&] {
    sim::SetOp("another process writes an artifact");
    Eng e(kind, o);
    St s = e.Compile(p, *g_reg);
    if (!s.ok) sim::Violate("valid-program-rejected", s.msg + "\n" + p.Source());
    std::string out;
    s = e.Save(&out);
    if (!s.ok) sim::Violate("save-failed", s.msg);
    return out;
  }, nullptr);
  sim::SetOp("%s", prev.c_str());
  return b;
}
std::vector<Outcome> FreshOutcomes(Kind kind, ExecEngineOption o, const Program& p, int fp, const std::vector<Call>& calls, const std::string* artifact) {
  o.fp_math_mode = fp ? FPMathMode::kFast : FPMathMode::kStrict;
  std::string prev = sim::sh->op;
  auto v = world::Deserialize(world::RunInClone([&] {
    sim::SetOp("fresh engine");
    Eng e(kind, o);
    St s = artifact ? e.Load(*artifact, *g_reg) : e.Compile(p, *g_reg);
    if (!s.ok) sim::Violate(artifact ? "load-failed" : "valid-program-rejected", "in a fresh engine: " + s.msg + "\n" + p.Source());
    std::vector<Outcome> w;
    for (auto& c : calls) w.push_back(world::Alone(e, c, p));
    return world::Serialize(w);
  }, nullptr));
  sim::SetOp("%s", prev.c_str());
  if (v.size() != calls.size()) sim::Violate("sim-internal", "fresh outcomes");
  return v;
}

void C04(Rng r) {
  static const Kind ks[] = {Kind::Single, Kind::Single, Kind::Single, Kind::Batch, Kind::Batch, Kind::Batch, Kind::Expr, Kind::Pipe};
  Pool pool;
  pool.kind = ks[r.Below(8)];
  Kind k = pool.kind;
  bool savable = k == Kind::Single || k == Kind::Batch;
  ExecEngineOption opt = RandOpt(r, r.P(0.7), r.P(0.5));
  pool.opt = opt;
  int np = 2 + (int)r.Below(3);
  for (int i = 0; i < np; ++i) {
    gen::Opts go = RandGen(r);
    go.depth = 1 + (int)r.Below(2);
    int n = k == Kind::Single || k == Kind::Expr ? 1 : Entries(r, go, 1 + (int)r.Below(4));
    if (i > 0 && r.P(0.35)) { pool.progs.push_back(gen::NearCopy(pool.progs[r.Below(i)], r.Fork(i + 40), go, 7310017 + i * 10007)); continue; }
    pool.progs.push_back(gen::MakeProgram(k, r.Fork(i + 1), go, n, 7310017 + i * 10007, k == Kind::Pipe || (k != Kind::Expr && r.P(0.3))));
  }
  world::RecOpts ro = RandRec(r, false);
  auto eng = std::make_unique<Eng>(k, opt);
  int own_fp = opt.fp_math_mode == FPMathMode::kFast;
  // model
  int cur = -1, cur_fp = own_fp;
  bool loaded = false, maybe_empty = false;
  auto collapse = [&](Rng& er, const std::string& where) {   // the last failure allows old-or-empty: find out which
    if (!maybe_empty) return;
    maybe_empty = false;
    Call c = ServeCall(er, pool.progs[cur], ro);
    ExecContext ctx(64);
    sim::SetOp("which program is served after %s", where.c_str());
    Outcome o = world::Exec(*eng, c, pool.progs[cur], &ctx);
    if (MarkSeen(o, pool.progs[cur].mark)) { sim::Hit(sim::PR_OLD_KEPT); return; }
    if (o.ok || !o.trace.empty() || !o.stores.empty()) sim::Violate("half-replaced", where + ": the engine neither serves its previous program nor reports an error: " + o.Str());
    cur = -1;
  };
  auto verify = [&](Rng& er, const std::string& where) {
    collapse(er, where);
    std::string ir = eng->IR();
    for (int i = 0; i < np; ++i) {
      bool has = IrHas(ir, pool.progs[i].mark);
      if (has && i != cur) sim::Violate("ir-of-other-program", where + ": GetIRCode shows program " + std::to_string(i) + " but the engine serves " + std::to_string(cur));
      if (i == cur && !loaded && opt.dump_ir && !has) sim::Violate("ir-missing", where + ": GetIRCode does not show the program being served");
    }
    if (cur < 0 && !ir.empty()) sim::Violate("ir-of-other-program", where + ": GetIRCode is not empty although the engine serves no program: " + ir.substr(0, 300));
    if (k == Kind::Batch) {
      size_t want = cur < 0 ? 0 : pool.progs[cur].entries.size();
      if (eng->Count() != want) sim::Violate("count-of-other-program", where + ": entry count is " + std::to_string(eng->Count()) + " instead of " + std::to_string(want));
      for (size_t i = 0; i < want; ++i)
        if (eng->b->GetReturnType(i) != pool.progs[cur].types[i]) sim::Violate("type-of-other-program", where + ": return type of entry " + std::to_string(i) + " is " + gen::TName(eng->b->GetReturnType(i)));
    }
  };
  auto execute = [&](Rng& er, const std::string& where) {
    collapse(er, where);
    if (cur < 0) { CheckEmpty(*eng, er, pool.progs[0], ro, where); return; }
    Call c = ServeCall(er, pool.progs[cur], ro);
    auto want = FreshOutcomes(k, opt, pool.progs[cur], cur_fp, {c}, nullptr);
    sim::SetOp("execute %s (%s)", c.Str().c_str(), where.c_str());
    ExecContext ctx(opt.exec_ctx_arena_alloc_min_chunk_size);
    Outcome o = world::Exec(*eng, c, pool.progs[cur], &ctx);
    o.mask = want[0].mask;
    LogOutcome(o);
    Check(want[0], o, c, "wrong-program", where + " (model: program " + std::to_string(cur) + ")", pool.progs[cur], false);
  };
  auto save = [&](Rng& er, const std::string& where) {
    collapse(er, where);
    if (!savable) return;
    sim::SetOp("save (%s)", where.c_str());
    std::string bytes;
    St s = eng->Save(&bytes);
    sim::sh->ops++;
    if (cur < 0) { if (s.ok) sim::Violate("saved-nothing", where + ": SaveCompiled succeeded although the engine serves no program"); return; }
    if (!opt.enable_save_compiled) { if (s.ok) sim::Violate("saved-nothing", where + ": SaveCompiled succeeded although saving was not enabled"); return; }
    if (!s.ok) { if (!loaded) sim::Violate("save-failed", where + ": " + s.msg); return; }
    sim::Hit(sim::PR_SAVE_OK);
    Art a = Art::Parse(bytes);
    if (!a.ok) sim::Violate("saved-garbage", where + ": the saved bytes do not parse");
    if (!loaded && a.fp != own_fp) sim::Violate("options-lost", where + ": the saved program was compiled with fp mode " + std::to_string(a.fp) + " but the engine's option is " + std::to_string(own_fp));
    Call c = ServeCall(er, pool.progs[cur], ro);
    auto want = FreshOutcomes(k, opt, pool.progs[cur], cur_fp, {c}, nullptr);
    auto got = FreshOutcomes(k, opt, pool.progs[cur], cur_fp, {c}, &bytes);
    Check(want[0], got[0], c, "saved-other-program", where + ": the saved bytes, loaded elsewhere", pool.progs[cur], false);
  };
  auto arm = [&](Rng& er) {
    sim::MapCfg m;
    m.kinds = 1;
    m.fail_from = er.Below(8);
    m.fail_len = er.P(0.5) ? 1 : ~0ull - 100;
    return m;
  };
  int nops = 5 + (int)r.Below(14);
  if (r.P(0.05)) nops += 20 + (int)r.Below(40);
  int done = 0;
  for (int n = 0; n < nops; ++n) {
    uint32_t idx = 0;
    Rng er = r.Fork(9000 + n);
    if (!sim::KeepElem(&idx)) continue;
    ++done;
    int op = (int)er.Below(100);
    std::string where = "after operation " + std::to_string(n);
    if (op < 26) {                                         // ---- compile a valid program
      int i = (int)er.Below(np);
      sim::SetOp("compile program %d (operation %d)", i, n);
      where += " (compile of program " + std::to_string(i) + ")";
      if (cur >= 0) sim::Hit(sim::PR_RECOMPILE);
      St s = eng->Compile(pool.progs[i], *g_reg);
      if (!s.ok) sim::Violate("valid-program-rejected", where + ": " + s.msg + "\n" + pool.progs[i].Source());
      sim::Hit(sim::PR_COMPILE_OK);
      cur = i; cur_fp = own_fp; loaded = false; maybe_empty = false;
      Config(i + 1);
    } else if (op < 50) {                                  // ---- compile an invalid program
      int i = (int)er.Below(np);
      std::string name;
      St s;
      bool parse_only = false;
      bool text = k == Kind::Expr || k == Kind::Pipe;
      if (text && er.P(0.3)) {
        std::string t = BadText(er);
        name = "syntax error";
        parse_only = true;
        sim::SetOp("compile %s (operation %d)", name.c_str(), n);
        s = CompileText(*eng, pool.progs[i], t, er);
      } else if ((k == Kind::Batch || k == Kind::Pipe) && er.P(0.15)) {
        name = "empty batch";
        sim::SetOp("compile %s (operation %d)", name.c_str(), n);
        if (k == Kind::Batch) s = world::ToSt(eng->b->Compile({}, *g_reg));
        else s = world::ToSt(eng->p->Compile({}, *g_reg));
      } else if (er.P(0.2)) {
        name = "missing function";
        Program q = pool.progs[i].Copy();
        std::string fn = RootFunc(q, er.Below(q.entries.size()));
        sim::SetOp("compile with a registry that lacks %s (operation %d)", fn.c_str(), n);
        sim::Fired(sim::F_MISSING_FUNC);
        Registry reg = world::MakeRegistry(1, fn);
        s = eng->Compile(q, reg);
      } else {
        Program q = BadProgram(pool.progs[i], er, &name);
        sim::SetOp("compile invalid program, %s (operation %d)", name.c_str(), n);
        if (name.find("symbol") != std::string::npos) sim::Hit(sim::PR_LINK_FAIL);
        parse_only = text && name.rfind("undefined variable", 0) == 0;   // found by the parser
        s = eng->Compile(q, *g_reg);
      }
      sim::Fired(sim::F_BAD_PROGRAM);
      where += " (failing compile: " + name + ")";
      if (s.ok) sim::Violate("invalid-program-accepted", where);
      if (s.msg.size() < 8) sim::Violate("no-diagnostic", where + ": {" + s.msg + "}");
      sim::Hit(sim::PR_COMPILE_FAIL);
      sim::LogStr(s.msg);
      if (parse_only && cur >= 0) maybe_empty = true;
      else { cur = -1; maybe_empty = false; }
      loaded = cur >= 0 && loaded;
      Config(100 + name[0]);
    } else if (op < 56) {                                  // ---- compile while memory is refused
      int i = (int)er.Below(np);
      sim::SetOp("compile program %d, map requests refused (operation %d)", i, n);
      sim::MapArm(arm(er), er.U64());
      St s = eng->Compile(pool.progs[i], *g_reg);
      uint64_t failed = sim::MapFailed();
      sim::MapDisarm();
      where += " (compile of program " + std::to_string(i) + " with " + std::to_string(failed) + " refused map requests: " + (s.ok ? "OK" : s.msg) + ")";
      if (!s.ok && !failed) sim::Violate("valid-program-rejected", where);
      maybe_empty = false;
      if (s.ok) { cur = i; cur_fp = own_fp; loaded = false; } else { cur = -1; loaded = false; }
      Config(s.ok ? 200 : 201);
    } else if (op < 76 && savable) {                       // ---- load
      int i = (int)er.Below(np), fp = (int)er.Below(2);
      std::string bytes = pool.Artifact(i, fp);
      int what = (int)er.Below(9);
      std::string name = "artifact of program " + std::to_string(i) + " fp " + std::to_string(fp);
      LoadCompiledOptions lo;
      bool late = false, good = false, faulted = false;
      Registry alt;
      if (what <= 3) { good = true; if (er.P(0.5)) alt = world::MakeRegistry(1); }
      else if (what == 4) { bytes.resize(er.Below(bytes.size())); name += " truncated"; sim::Fired(sim::F_TRUNCATE); }
      else if (what == 5) {
        Kind ok = k == Kind::Single ? Kind::Batch : Kind::Single;
        Program q;
        q.kind = ok;
        q.mark = pool.progs[i].mark;
        q.tokens = pool.progs[i].tokens;
        q.entries.push_back(gen::CloneEx(*pool.progs[i].entries[0]));
        q.types.push_back(pool.progs[i].types[0]);
        bytes = WriteArtifact(ok, opt, q, fp);
        name += " of the other engine kind";
        sim::Fired(sim::F_MISDIRECT);
        if (er.P(0.5)) { lo.check_llvm_version = lo.check_target_triple = lo.check_cpu_name = false; }
      } else if (what == 6) {
        Art a = Art::Parse(bytes);
        (er.P(0.5) ? a.llvm : a.cpu) += "x";
        bytes = a.Build();
        name += " of a foreign host";
        sim::Fired(sim::F_FOREIGN_HOST);
      } else if (what == 7) {
        std::string fn = RootFunc(pool.progs[i], er.Below(pool.progs[i].entries.size()));
        alt = world::MakeRegistry((int)er.Below(2), fn);
        late = true;
        name += ", registry lacks " + fn;
        sim::Fired(sim::F_MISSING_FUNC);
        sim::Hit(sim::PR_LINK_FAIL);
      } else {
        late = true;
        if (k == Kind::Batch && er.P(0.5)) {
          Art a = Art::Parse(bytes);
          a.types.push_back(a.types[0]);
          bytes = a.Build();
          name += " claiming one more entry";
          sim::Fired(sim::F_BYTE_SET);
        } else {
          faulted = true;
          name += ", map requests refused";
        }
      }
      sim::SetOp("load %s (operation %d)", name.c_str(), n);
      if (faulted) sim::MapArm(arm(er), er.U64());
      St s = eng->Load(bytes, alt ? alt : *g_reg, lo);
      uint64_t failed = sim::MapFailed();
      if (faulted) sim::MapDisarm();
      where += " (load of " + name + ": " + (s.ok ? "OK" : s.msg) + ")";
      sim::LogStr(s.msg);
      std::fill(bytes.begin(), bytes.end(), (char)0xcc);
      alt.reset();
      if (good && !s.ok) sim::Violate("load-failed", where);
      if (!good && s.ok && !faulted) sim::Violate("bad-artifact-accepted", where);
      if (faulted && !s.ok && !failed) sim::Violate("load-failed", where);
      if (s.ok) {
        sim::Hit(sim::PR_LOAD_OK);
        cur = i; cur_fp = fp; loaded = true; maybe_empty = false;
      } else {
        sim::Hit(sim::PR_LOAD_REJECT);
        if (late && cur >= 0) maybe_empty = true;
      }
      Config(300 + what * 2 + s.ok);
    } else if (op < 93) {                                  // ---- execute
      execute(er, "operation " + std::to_string(n));
    } else {                                               // ---- save
      save(er, "operation " + std::to_string(n));
      Config(400);
    }
    verify(er, where);
    if (er.P(0.6)) execute(er, where);
    sim::sh->ops++;
    if (er.P(0.05)) {                                      // a new engine under the same name
      eng.reset();
      eng = std::make_unique<Eng>(k, opt);
      cur = -1; loaded = false; maybe_empty = false;
      verify(er, "a new engine");
    }
  }
  // whatever happened before, a valid compile restores full service
  Rng er = r.Fork(77);
  int i = (int)er.Below(np);
  sim::SetOp("final compile of program %d", i);
  St s = eng->Compile(pool.progs[i], *g_reg);
  if (!s.ok) sim::Violate("service-not-restored", "a valid program was rejected at the end of the history: " + s.msg);
  cur = i; cur_fp = own_fp; loaded = false; maybe_empty = false;
  verify(er, "after the final compile");
  execute(er, "after the final compile");
  save(er, "after the final compile");
  Config(done);
}
}  // namespace props
