// C05: a saved program through a crash and a restart; C06: damaged, torn and foreign artifacts.
#include <algorithm>
#include <cstring>
#include "art.h"
#include "life.h"
#include "props.h"

namespace props {
// ------------------------------------------------------------------ wire format to the restarted process
struct W {
  std::string s;
  void I(int64_t v) { s.append((char*)&v, 8); }
  void D(double v) { s.append((char*)&v, 8); }
  void S(const std::string& x) { I((int64_t)x.size()); s += x; }
};
struct R {
  const std::string& s;
  size_t p = 0;
  int64_t I() { int64_t v = 0; if (p + 8 <= s.size()) memcpy(&v, s.data() + p, 8); p += 8; return v; }
  double D() { double v = 0; if (p + 8 <= s.size()) memcpy(&v, s.data() + p, 8); p += 8; return v; }
  std::string S() { size_t n = (size_t)I(); if (p + n > s.size()) return ""; std::string r = s.substr(p, n); p += n; return r; }
};
std::string Restarted(const std::string& payload) {
  R in{payload};
  Rng r((uint64_t)in.I());
  sim::HeapConfigure(sim::RandomHeap(r), r.U64());
  sim::MapPlacement(r.U64(), r.P(0.3));
  Program p;
  p.kind = (Kind)in.I();
  p.mark = (int32_t)in.I();
  for (int64_t n = in.I(); n > 0; --n) p.types.push_back((VT)in.I());
  for (int64_t n = in.I(); n > 0; --n) p.tokens.push_back((int32_t)in.I());
  ExecEngineOption o;
  o.exec_ctx_arena_alloc_min_chunk_size = in.I();
  o.fp_math_mode = (FPMathMode)in.I();
  o.dump_ir = in.I();
  o.enable_save_compiled = in.I();
  std::string bytes = in.S();
  std::vector<Call> calls;
  for (int64_t n = in.I(); n > 0; --n) {
    Call c;
    c.entry = (int)in.I(); c.ctx = in.I(); c.voidp = in.I(); c.rec_seed = (uint64_t)in.I();
    c.ro.arm_p = in.D(); c.ro.interp = in.I(); c.ro.big = in.I(); c.ro.max_list = (int)in.I(); c.ro.err_mode = (int)in.I();
    calls.push_back(c);
  }
  bool reuse = in.I();
  bool before = in.I();
  // a registry of this process: other addresses for every user function
  Registry reg = world::MakeRegistry(1);
  Eng e(p.kind, o);
  if (before) {   // the engine already served something else
    gen::Opts go;
    go.depth = 1;
    Program q = gen::MakeProgram(p.kind, r.Fork(3), go, 2, 990017, false, false);
    sim::SetOp("compile another program after the restart");
    CompileGood(e, q, reg);
  }
  sim::SetOp("load after the restart");
  St s = e.Load(bytes, reg);
  std::fill(bytes.begin(), bytes.end(), (char)0xcc);
  bytes.clear();
  bytes.shrink_to_fit();
  reg.reset();
  W out;
  out.I(s.ok);
  out.S(s.msg);
  if (!s.ok) return out.s;
  out.I((int64_t)e.Count());
  for (size_t i = 0; i < e.Count(); ++i) out.I(e.b ? (int64_t)e.b->GetReturnType(i) : (int64_t)p.types[0]);
  std::vector<Outcome> v;
  ExecContext ctx(o.exec_ctx_arena_alloc_min_chunk_size);
  for (auto& c : calls) {
    sim::SetOp("execute after the restart: %s", c.Str().c_str());
    v.push_back(reuse ? world::Exec(e, c, p, &ctx) : world::Alone(e, c, p));
  }
  out.S(world::Serialize(v));
  return out.s;
}

void C05(Rng r) {
  Kind k = r.P(0.5) ? Kind::Single : Kind::Batch;
  gen::Opts go = r.P(0.2) ? InterpGen(r) : RandGen(r);
  ExecEngineOption opt = RandOpt(r, true, r.P(0.3));
  int n = k == Kind::Single ? 1 : Entries(r, go, 1 + (int)r.Below(5));
  Program p = gen::MakeProgram(k, r.Fork(1), go, n, 7310017, r.P(0.3));
  auto eng = std::make_unique<Eng>(k, opt);
  if (r.P(0.3)) {   // the engine had another program before
    gen::Opts g2 = RandGen(r);
    g2.depth = 1;
    Program q = gen::MakeProgram(k, r.Fork(2), g2, 1 + (int)r.Below(3), 8310017, false, false);
    CompileGood(*eng, q, *g_reg, "earlier program");
    sim::Hit(sim::PR_RECOMPILE);
  }
  CompileGood(*eng, p, *g_reg);
  world::RecOpts ro = RandRec(r, go.interp);
  std::vector<Call> calls;
  int nc = 3 + (int)r.Below(6);
  for (int i = 0; i < nc; ++i) {
    Rng cr = r.Fork(100 + i);
    Call c = RandCall(cr, p, ro);
    if (sim::KeepElem()) calls.push_back(c);
  }
  auto want = SoloOutcomes(*eng, p, calls);
  std::string ir = eng->IR();
  // ---- save
  sim::SetOp("save");
  std::string bytes, again;
  St s = eng->Save(&bytes);
  if (!s.ok) sim::Violate("save-failed", s.msg + "\n" + p.Source());
  sim::Hit(sim::PR_SAVE_OK);
  bool disturb = r.P(0.5);
  if (disturb) {
    auto w2 = SoloOutcomes(*eng, p, calls);
    for (size_t i = 0; i < calls.size(); ++i) Check(want[i], w2[i], calls[i], "save-disturbs-engine", "after saving", p);
    if (eng->IR() != ir) sim::Violate("save-disturbs-engine", "GetIRCode changed by saving");
    s = eng->Save(&again);
    if (!s.ok) sim::Violate("save-failed", "second save: " + s.msg);
    if (again != bytes) sim::Violate("save-disturbs-engine", "saving the same program twice gives different bytes");
  }
  // ---- the disk: a file written through a temporary, fsync and rename; the process crashes somewhere on the way
  int proto = (int)r.Below(10);
  std::string disk = bytes;
  const char* what = "complete";
  if (proto == 0) { disk.resize(r.Below(disk.size())); what = "rename before the data: a prefix"; sim::Fired(sim::F_TORN); }
  else if (proto == 1) { disk.clear(); what = "nothing reached the disk"; sim::Fired(sim::F_LOST_SECTOR); }
  else if (proto == 2) { disk.resize(disk.size() - 1 - r.Below(std::min<size_t>(disk.size() - 1, 64))); what = "the last bytes are missing"; sim::Fired(sim::F_TORN); }
  else sim::Fired(sim::F_CRASH_RESTART);
  eng.reset();
  std::fill(bytes.begin(), bytes.end(), (char)0xee);
  // ---- restart
  W w;
  w.I((int64_t)r.U64());
  w.I((int)k);
  w.I(p.mark);
  w.I((int64_t)p.types.size());
  for (VT t : p.types) w.I((int64_t)t);
  w.I((int64_t)p.tokens.size());
  for (int32_t t : p.tokens) w.I(t);
  ExecEngineOption o2 = RandOpt(r, r.P(0.5), r.P(0.3));
  w.I(o2.exec_ctx_arena_alloc_min_chunk_size);
  w.I((int)o2.fp_math_mode);
  w.I(o2.dump_ir);
  w.I(o2.enable_save_compiled);
  w.S(disk);
  w.I((int64_t)calls.size());
  for (auto& c : calls) { w.I(c.entry); w.I(c.ctx); w.I(c.voidp); w.I((int64_t)c.rec_seed); w.D(c.ro.arm_p); w.I(c.ro.interp); w.I(c.ro.big); w.I(c.ro.max_list); w.I(c.ro.err_mode); }
  bool reuse = r.P(0.4), before = r.P(0.3);
  w.I(reuse);
  w.I(before);
  sim::SetOp("restart (disk: %s)", what);
  std::string crash;
  std::string ans = drv::CallRestarted(w.s, &crash);
  if (!crash.empty()) {
    if (crash.rfind("sim-internal", 0) == 0) sim::Violate("sim-internal", crash);
    sim::Violate("restarted-process-failed", crash + "\nprogram:\n" + p.Source());
  }
  R in{ans};
  bool ok = in.I();
  std::string msg = in.S();
  sim::LogStr(msg);
  Config(proto * 8 + (int)k * 2 + ok);
  if (proto <= 2) {
    if (ok) sim::Violate("torn-artifact-accepted", std::string("after the restart a damaged file (") + what + ", " + std::to_string(disk.size()) + " of " + std::to_string(bytes.size()) + " bytes) was loaded");
    sim::Hit(sim::PR_LOAD_REJECT);
    return;
  }
  if (!ok) sim::Violate("load-failed", "after the restart: " + msg + "\nprogram:\n" + p.Source());
  sim::Hit(sim::PR_LOAD_OK);
  size_t cnt = (size_t)in.I();
  if (cnt != p.entries.size()) sim::Violate("entry-count-lost", "after the restart the engine reports " + std::to_string(cnt) + " entries instead of " + std::to_string(p.entries.size()));
  for (size_t i = 0; i < cnt; ++i) {
    VT t = (VT)in.I();
    if (t != p.types[i]) sim::Violate("return-type-lost", "after the restart entry " + std::to_string(i) + " has return type " + gen::TName(t) + " instead of " + gen::TName(p.types[i]));
  }
  auto got = world::Deserialize(in.S());
  if (got.size() != calls.size()) sim::Violate("sim-internal", "answer of the restarted process");
  for (size_t i = 0; i < calls.size(); ++i) {
    got[i].mask = want[i].mask;
    LogOutcome(got[i]);
    Check(want[i], got[i], calls[i], "differs-after-restart", "after the restart", p);
  }
}

// ------------------------------------------------------------------ C06
void C06(Rng r) {
  Kind k = r.P(0.5) ? Kind::Single : Kind::Batch;
  gen::Opts go = RandGen(r);
  go.depth = 1 + (int)r.Below(2);
  ExecEngineOption opt = RandOpt(r, r.P(0.5));
  Program p = gen::MakeProgram(k, r.Fork(1), go, k == Kind::Single ? 1 : Entries(r, go, 1 + (int)r.Below(4)), 7310017, r.P(0.3));
  gen::Opts g0 = RandGen(r);
  g0.depth = 1;
  Program old = gen::MakeProgram(k, r.Fork(2), g0, k == Kind::Single ? 1 : 1 + (int)r.Below(3), 8310017, r.P(0.3));
  world::RecOpts ro = RandRec(r, false);
  int fp = (int)r.Below(2), own_fp = opt.fp_math_mode == FPMathMode::kFast;
  std::string good = WriteArtifact(k, opt, p, fp);
  Art g = Art::Parse(good);
  if (!g.ok) sim::Violate("saved-garbage", "the saved bytes do not follow the artifact format");
  Rng cr = r.Fork(4);
  Call pc = ServeCall(cr, p, ro), oc = ServeCall(cr, old, ro);
  Outcome pw = FreshOutcomes(k, opt, p, fp, {pc}, &good)[0];
  Eng e(k, opt);
  int start = (int)r.Below(4);   // what the engine serves while damaged artifacts arrive
  Outcome ow;
  const Program* cur = nullptr;
  if (start >= 1) {
    ow = FreshOutcomes(k, opt, old, own_fp, {oc}, nullptr)[0];
    if (start == 3) { std::string b = WriteArtifact(k, opt, old, own_fp); St s = e.Load(b, *g_reg); if (!s.ok) sim::Violate("load-failed", s.msg); }
    else CompileGood(e, old, *g_reg, "program in service");
    cur = &old;
  }
  auto serve = [&](const std::string& where) {
    sim::SetOp("execute %s", where.c_str());
    if (!cur) { Rng er = r.Fork(8); CheckEmpty(e, er, p, ro, where); if (k == Kind::Batch && e.Count() != 0) sim::Violate("rejected-load-visible", where + ": entry count is " + std::to_string(e.Count())); return; }
    ExecContext ctx(64);
    const Call& c = cur == &old ? oc : pc;
    Outcome w = cur == &old ? ow : pw;
    Outcome o = world::Exec(e, c, *cur, &ctx);
    o.mask = w.mask;
    LogOutcome(o);
    Check(w, o, c, "rejected-load-disturbs", where, *cur, false);
    sim::Hit(sim::PR_OLD_KEPT);
    if (k == Kind::Batch && e.Count() != cur->entries.size()) sim::Violate("rejected-load-visible", where + ": entry count is " + std::to_string(e.Count()));
  };
  auto put = [](std::string& b, size_t off, uint64_t v, int n) { for (int i = 0; i < n && off + i < b.size(); ++i) b[off + i] = (char)(v >> (8 * i)); };
  std::string other;
  int tries = 8 + (int)r.Below(20);
  for (int n = 0; n < tries; ++n) {
    Rng d = r.Fork(5000 + n);
    if (!sim::KeepElem()) continue;
    std::string b = good, name;
    LoadCompiledOptions lo;
    if (d.P(0.25)) lo.check_llvm_version = false;
    if (d.P(0.25)) lo.check_target_triple = false;
    if (d.P(0.25)) lo.check_cpu_name = false;
    static const uint64_t ext[] = {0, 1, 2, 0x7f, 0xff, 0x7fff, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x4000000, 0x7fffffff, 0x80000000ull, 0xfffffff0ull, 0xfffffffcull, 0xffffffffull};
    int how = (int)d.Below(16);
    switch (how) {
      case 0: {   // truncated anywhere, often at or near a field boundary
        static size_t Art::*const f[] = {&Art::o_version, &Art::o_llvm, &Art::o_triple, &Art::o_cpu, &Art::o_mode, &Art::o_fp, &Art::o_num, &Art::o_types, &Art::o_objsize, &Art::o_obj, &Art::o_ext, &Art::o_footer};
        size_t cut = d.Below(b.size());
        if (d.P(0.6)) { cut = g.*f[d.Below(12)] + d.Below(5); if (cut > 2) cut -= d.Below(3); }
        if (d.P(0.2)) cut = b.size() - 1 - d.Below(8);
        if (cut >= b.size()) cut = b.size() - 1;
        b.resize(cut);
        name = "truncated to " + std::to_string(cut) + " of " + std::to_string(good.size()) + " bytes";
        sim::Fired(sim::F_TRUNCATE);
        break;
      }
      case 1: {
        size_t m = 1 + d.Below(d.P(0.5) ? 8 : 5000);
        for (size_t i = 0; i < m; ++i) b.push_back((char)(d.P(0.3) ? 0 : d.U64()));
        name = "followed by " + std::to_string(m) + " more bytes";
        sim::Fired(sim::F_APPEND);
        break;
      }
      case 2: b += d.P(0.5) ? good : good.substr(0, d.Below(good.size())); name = "written twice"; sim::Fired(sim::F_DUPLICATE); break;
      case 3: case 4: {   // flipped bits in the framing
        int m = 1 + (int)d.Below(d.P(0.7) ? 1 : 6);
        for (int i = 0; i < m; ++i) {
          size_t span = g.o_obj + (b.size() - g.o_ext), at = d.Below(span);
          if (at >= g.o_obj) at = at - g.o_obj + g.o_ext;
          b[at] ^= (char)(1 << d.Below(8));
          name += (i ? "," : "bit flipped at ") + std::to_string(at);
        }
        sim::Fired(sim::F_BITFLIP);
        break;
      }
      case 5: case 6: {   // extreme length and count fields
        static size_t Art::*const f[] = {&Art::o_llvm, &Art::o_triple, &Art::o_cpu, &Art::o_num, &Art::o_ext, &Art::o_num, &Art::o_ext, &Art::o_version};
        size_t at = g.*f[d.Below(8)];
        uint64_t v = d.P(0.3) ? d.U64() >> d.Below(64) : d.P(0.5) ? ext[d.Below(16)] : b.size() + d.Below(9) - 4;
        put(b, at, v, 4);
        name = "32-bit field at " + std::to_string(at) + " set to " + std::to_string((uint32_t)v);
        sim::Fired(sim::F_BYTE_SET);
        break;
      }
      case 7: {
        uint64_t v;
        switch (d.Below(6)) {
          case 0: v = ~0ull - d.Below(g.o_obj + 40); break;            // wraps around when added to an offset
          case 1: v = (~0ull - g.o_obj + 1) + d.Below(b.size()); break;
          case 2: v = b.size() - g.o_obj + d.Below(20) - 10; break;
          case 3: v = 1ull << d.Below(64); break;
          case 4: v = g.obj.size() + (1ull << (32 + d.Below(32))); break;
          default: v = d.Below(g.obj.size());
        }
        put(b, g.o_objsize, v, 8);
        name = "object size set to " + std::to_string(v) + " instead of " + std::to_string(g.obj.size());
        sim::Fired(sim::F_BYTE_SET);
        break;
      }
      case 8: {   // mode, fp mode and type bytes out of range
        int w = (int)d.Below(3);
        uint8_t v = (uint8_t)d.U64();
        if (w == 0) b[g.o_mode] = (char)v;
        else if (w == 1) b[g.o_fp] = (char)v;
        else { static const uint8_t bad[] = {0, 24, 25, 26, 100, 127, 128, 200, 255}; b[g.o_types + d.Below(g.types.size())] = (char)(v = bad[d.Below(9)]); }
        name = std::string(w == 0 ? "mode" : w == 1 ? "fp mode" : "return type") + " byte set to " + std::to_string(v);
        sim::Fired(sim::F_BYTE_SET);
        break;
      }
      case 9: {   // the artifact of the other kind of engine
        if (other.empty()) {
          Program q;
          q.kind = k == Kind::Single ? Kind::Batch : Kind::Single;
          q.mark = p.mark;
          q.tokens = p.tokens;
          q.entries.push_back(gen::CloneEx(*p.entries[0]));
          q.types.push_back(p.types[0]);
          other = WriteArtifact(q.kind, opt, q, fp);
        }
        b = other;
        name = "artifact of the other engine kind";
        sim::Fired(sim::F_MISDIRECT);
        break;
      }
      case 10: case 11: {   // written by another host
        Art a = g;
        int m = 1 + (int)d.Below(7);
        auto foreign = [&](std::string& s) {
          switch (d.Below(7)) {
            case 0: s += "1"; break;
            case 1: if (!s.empty()) s.pop_back(); break;
            case 2: s = ""; break;
            case 3: if (!s.empty()) s[d.Below(s.size())] ^= 1; break;
            case 4: s.push_back('\0'); break;
            case 5: s = "generic"; break;
            default: s = s.substr(0, 2) + std::string(3000, 'x');
          }
        };
        if (m & 1) { foreign(a.llvm); name += " llvm"; }
        if (m & 2) { foreign(a.triple); name += " triple"; }
        if (m & 4) { foreign(a.cpu); name += " cpu"; }
        b = a.Build();
        name = "host strings changed:" + name;
        sim::Fired(sim::F_FOREIGN_HOST);
        if (d.P(0.5)) { lo.check_llvm_version = !(m & 1); lo.check_target_triple = !(m & 2); lo.check_cpu_name = !(m & 4); if (d.P(0.4)) { int off = (int)d.Below(3); (off == 0 ? lo.check_llvm_version : off == 1 ? lo.check_target_triple : lo.check_cpu_name) = true; } sim::Hit(sim::PR_WAIVER); }
        break;
      }
      case 12: case 13: {   // extensions of a future writer
        Art a = g;
        int m = 1 + (int)d.Below(d.P(0.8) ? 4 : 60);
        for (int i = 0; i < m; ++i) {
          uint32_t tag = (uint32_t)d.U64() >> d.Below(32);
          std::string pl;
          size_t len = d.P(0.3) ? 0 : d.Below(d.P(0.8) ? 40 : 3000);
          for (size_t j = 0; j < len; ++j) pl.push_back((char)d.U64());
          if (d.P(0.2)) pl += "JFCE";
          a.ext.emplace_back(tag, pl);
        }
        b = a.Build();
        name = std::to_string(m) + " extensions";
        if (how == 13) {
          Art x = Art::Parse(b);
          size_t at = x.o_ext + (d.P(0.3) ? 0 : 4 + 4 * d.Below(2));
          put(b, at, d.P(0.5) ? ext[d.Below(16)] : m + d.Below(3) + 1, 4);
          name += " with a wrong length or count";
          sim::Fired(sim::F_BYTE_SET);
        }
        sim::Hit(sim::PR_EXT_SKIPPED);
        break;
      }
      case 14: {   // the object's first sectors never reached the disk
        size_t m = d.P(0.3) ? g.obj.size() : std::min(g.obj.size(), (size_t)512 * (1 + d.Below(4)));
        bool rnd = d.P(0.4);
        for (size_t i = 0; i < m; ++i) b[g.o_obj + i] = (char)(rnd ? d.U64() : 0);
        name = "object starts with " + std::to_string(m) + " lost bytes";
        sim::Fired(sim::F_LOST_SECTOR);
        break;
      }
      default: {   // sections of the file exchanged or missing
        Art a = g;
        switch (d.Below(4)) {
          case 0: a.obj = ""; name = "empty object"; break;
          case 1: b = ""; name = "empty file"; break;
          case 2: a.types.clear(); name = "no entries"; break;
          default: a.types.push_back(a.types[0]); name = "one entry more than the object has";
        }
        if (name != "empty file") b = a.Build();
        sim::Fired(sim::F_BYTE_SET);
      }
    }
    // what must happen, judged by an independent reading of the format
    Art a = Art::Parse(b);
    bool expect_ok = a.ok && a.version == g.version && a.mode == g.mode && a.fp <= 1 && a.types == g.types && a.obj == g.obj &&
                     (!lo.check_llvm_version || a.llvm == g.llvm) && (!lo.check_target_triple || a.triple == g.triple) && (!lo.check_cpu_name || a.cpu == g.cpu);
    bool types_ok = true;
    for (uint8_t t : a.types) types_ok &= t >= (uint8_t)VT::kVoid && t <= (uint8_t)VT::kStringList;
    if (!expect_ok && a.ok && a.version == g.version && a.mode == g.mode && types_ok) {
      // indistinguishable from a valid artifact by its framing: only refuse what no reader could accept
      bool host = (lo.check_llvm_version && a.llvm != g.llvm) || (lo.check_target_triple && a.triple != g.triple) || (lo.check_cpu_name && a.cpu != g.cpu);
      bool obj_bad = a.obj.size() < 4 || a.obj.compare(0, 4, g.obj, 0, 4) != 0;
      if (!host && !obj_bad && a.fp <= 1 && !(a.types.size() > g.types.size() && a.obj == g.obj) && !a.types.empty()) continue;
    }
    std::string opts = std::string(lo.check_llvm_version ? "" : " llvm-waived") + (lo.check_target_triple ? "" : " triple-waived") + (lo.check_cpu_name ? "" : " cpu-waived");
    sim::SetOp("load #%d: %s%s", n, name.c_str(), opts.c_str());
    std::string where = "artifact " + name + opts;
    sim::HeapMark();
    uint64_t live0 = sim::HeapLiveBytes();
    uint64_t maps0 = sim::MapLiveCount();
    St s = e.Load(std::string_view(b.data(), b.size()), *g_reg, lo);
    sim::sh->ops++;
    sim::LogStr(s.ok ? "ok" : s.msg);
    Config(how * 2 + s.ok);
    uint64_t big = sim::HeapMaxRequest(), peak = sim::HeapPeakSince() - live0, lim = 16 * b.size() + (4u << 20);
    if (big > lim) sim::Violate("memory-out-of-proportion", where + ": loading " + std::to_string(b.size()) + " bytes requested a block of " + std::to_string(big) + " bytes");
    if (peak > 4 * lim) sim::Violate("memory-out-of-proportion", where + ": loading " + std::to_string(b.size()) + " bytes used " + std::to_string(peak) + " bytes");
    if (s.ok && !expect_ok) sim::Violate("bad-artifact-accepted", where + " was accepted");
    if (!s.ok && expect_ok) sim::Violate("good-artifact-refused", where + " was refused: " + s.msg);
    if (!s.ok && s.msg.size() < 8) sim::Violate("no-diagnostic", where + ": {" + s.msg + "}");
    std::fill(b.begin(), b.end(), (char)0xcc);
    if (s.ok) { cur = &p; sim::Hit(sim::PR_LOAD_OK); }
    else {
      sim::Hit(sim::PR_LOAD_REJECT);
      if (sim::MapLiveCount() != maps0) sim::Violate("rejected-load-leaks-code", where + ": " + std::to_string(sim::MapLiveCount()) + " code mappings after the rejected load, " + std::to_string(maps0) + " before");
    }
    if (s.ok || d.P(0.35)) serve("after load of " + name);
    if (s.ok && d.P(0.5)) {   // back to the old program
      if (start >= 1) { CompileGood(e, old, *g_reg, "program in service"); cur = &old; }
    }
  }
  serve("after all damaged artifacts");
  sim::SetOp("load the intact artifact");
  St s = e.Load(good, *g_reg);
  if (!s.ok) sim::Violate("good-artifact-refused", "the intact artifact was refused after damaged ones: " + s.msg);
  cur = &p;
  sim::Hit(sim::PR_LOAD_OK);
  serve("after the intact artifact");
}
}  // namespace props
