// C07: the execution arena against a block model, with refused memory.
#include <algorithm>
#include <cstring>
#include <list>
#include <stdexcept>
#include "arena.h"
#include "props.h"

namespace props {
using jitfusion::Arena;
namespace {
struct ArenaModel;
struct ObjLog { std::vector<uint32_t> live; uint32_t created = 0, destroyed = 0; std::string problem; };
template <int Extra, int Align> struct alignas(Align) Obj {
  uint64_t magic = 0x0b1ec7;
  uint32_t id;
  ObjLog* log;
  std::string text;          // owns heap memory
  std::vector<int> data;
  char pad[Extra];
  Obj(ObjLog* l, uint32_t i, bool fail, Arena* a, size_t scratch) : id(i), log(l), text(40 + i % 60, 'q'), data(i % 50, 7) {
    memset(pad, (int)(i & 0xff), Extra);
    if (scratch) { uint8_t* p = a->Allocate(scratch); if (p) memset(p, 0x5a, scratch); }   // a constructor that uses the arena too
    if (fail) throw std::runtime_error("constructor");
    log->live.push_back(id);
    log->created++;
  }
  ~Obj() {
    if (magic != 0x0b1ec7) { log->problem = "an object was destroyed twice or overwritten (id " + std::to_string(id) + ")"; return; }
    for (char c : pad) if (c != (char)(id & 0xff)) log->problem = "object " + std::to_string(id) + " was overwritten before its destruction";
    if (log->live.empty() || log->live.back() != id) log->problem = "object " + std::to_string(id) + " destroyed, but the newest live object is " + (log->live.empty() ? "none" : std::to_string(log->live.back()));
    else log->live.pop_back();
    log->destroyed++;
    magic = 0xdead;
  }
};
struct Plain { uint64_t a, b; uint32_t c; };
struct alignas(128) PlainWide { char x[200]; };
struct Block { uint8_t* p; size_t n; uint8_t seed; };

struct World {
  Rng r;
  std::unique_ptr<Arena> arena;
  std::vector<Block> blocks;
  ObjLog log;
  uint64_t gen0 = 0;
  size_t chunk = 0;
  uint32_t ids = 0;
  int tag;
  bool threaded;
  // armed refusal: after `skip` requests, refuse `left` of them
  int skip = 0, left = 0;
  uint64_t refused = 0;
  bool objects;              // many objects, few resets
  World(Rng rr, int t, bool th) : r(rr), tag(t), threaded(th) { objects = r.P(0.25); Make(); }
  void Make() {
    static const size_t c[] = {0, 1, 8, 17, 64, 100, 256, 1000, 4096, 4096, 65536};
    chunk = c[r.Below(11)];
    gen0 = sim::HeapGen();
    arena = std::make_unique<Arena>(chunk);
    if (r.P(0.1)) arena = std::make_unique<Arena>();
  }
  [[noreturn]] void Bad(const char* cls, const std::string& m) { sim::Violate(cls, "arena " + std::to_string(tag) + " (chunk size " + std::to_string(chunk) + "): " + m + "; op: " + sim::sh->op); }
  static uint8_t Pat(uint8_t s, size_t i) { return (uint8_t)(s + i * 131); }
  void CheckBlock(const Block& b) {
    for (size_t i = 0; i < b.n; ++i)
      if (b.p[i] != Pat(b.seed, i)) Bad("block-overwritten", "byte " + std::to_string(i) + " of a live block of " + std::to_string(b.n) + " bytes changed");
  }
  void CheckAll() { sim::NoYield ny; for (auto& b : blocks) CheckBlock(b); if (!log.problem.empty()) Bad("object-destruction", log.problem); }
  void Add(void* v, size_t n, size_t al, const char* what) {
    sim::NoYield ny;
    auto* p = (uint8_t*)v;
    if ((uintptr_t)p % al) Bad("misaligned", std::string(what) + " of " + std::to_string(n) + " bytes is not aligned to " + std::to_string(al));
    if (!sim::HeapInside(p, n, gen0)) Bad("outside-arena", std::string(what) + " of " + std::to_string(n) + " bytes does not lie in one block of memory the arena owns");
    for (auto& b : blocks)
      if (p < b.p + b.n && b.p < p + n) Bad("overlap", std::string(what) + " of " + std::to_string(n) + " bytes overlaps a live block of " + std::to_string(b.n) + " bytes");
    if (arena->avail_bytes() > arena->total_bytes()) Bad("accounting", "avail_bytes " + std::to_string(arena->avail_bytes()) + " exceeds total_bytes " + std::to_string(arena->total_bytes()));
  }
  template <class F> auto Faulty(F&& f) -> decltype(f()) {
    if (threaded || !left) return f();
    refused = 0;
    int from = skip, cnt = left;
    std::function<bool(size_t)> hook = [&](size_t) { if (from > 0) { --from; return false; } if (cnt > 0) { --cnt; ++refused; return true; } return false; };
    sim::any_alloc_hook = &hook;
    sim::repo_alloc_hook = &hook;
    sim::repo_alloc_faults = true;
    struct Off { ~Off() { sim::any_alloc_hook = nullptr; sim::repo_alloc_faults = false; sim::repo_alloc_hook = nullptr; } } off;
    return f();
  }
  void Arm(Rng& e) {
    left = 0;
    refused = 0;
    if (!threaded && e.P(0.2)) { skip = (int)e.Below(3); left = e.P(0.6) ? 1 : 50; }
  }
  size_t Size(Rng& e) {
    switch (e.Below(9)) {
      case 0: return 0;
      case 1: return arena->avail_bytes();
      case 2: return arena->avail_bytes() + 1 + e.Below(3);
      case 3: return arena->avail_bytes() > 3 ? arena->avail_bytes() - 1 - e.Below(2) : 1;
      case 4: return chunk + e.Below(3);
      case 5: return 1 + e.Below(e.P(0.1) ? 300000 : 9000);
      case 6: if (e.P(0.2)) return (size_t)1 << (31 + e.Below(20)); return 16;
      default: return 1 + e.Below(80);
    }
  }
  template <class T> void Object(Rng& e, bool scratch) {
    bool fail = e.P(0.1);
    uint32_t id = ++ids;
    uint32_t before = log.created;
    size_t sc = scratch ? 1 + e.Below(200) : 0;
    sim::SetOp("arena %d: create object %u (%zu bytes, align %zu)%s", tag, id, sizeof(T), alignof(T), fail ? ", constructor throws" : "");
    T* p = nullptr;
    try {
      p = Faulty([&] { return arena->Create<T>(&log, id, fail, arena.get(), sc); });
    } catch (const std::runtime_error&) {
      if (log.created != before) Bad("object-destruction", "an object whose constructor threw was registered");
      return;
    } catch (const std::bad_alloc&) {
      if (!refused) Bad("spurious-failure", "bad_alloc without refused memory");
      sim::NoYield ny;
      // an object that did get constructed must be destroyed now or later, but exactly once
      sim::Hit(sim::PR_ARENA_NULL);
      return;
    }
    if (!p) {
      if (!refused) Bad("spurious-failure", "Create returned null although no memory was refused");
      if (log.created != before) Bad("object-destruction", "Create returned null but constructed the object");
      sim::Hit(sim::PR_ARENA_NULL);
      return;
    }
    if (fail) Bad("object-destruction", "Create swallowed the constructor's exception");
    Add(p, sizeof(T), alignof(T), "object");
    sim::Hit(sim::PR_FINALIZER);
    sim::NoYield ny;
    blocks.push_back({(uint8_t*)p, 0, 0});
    // objects change (their strings may move); remember the pad bytes only
    blocks.back() = {(uint8_t*)p->pad, 0, 0};
    objs.push_back({(uint8_t*)p, sizeof(T), 0});
  }
  std::vector<Block> objs;
  void CheckObjOverlap(uint8_t* p, size_t n, const char* what) {
    sim::NoYield ny;
    for (auto& b : objs) if (p < b.p + b.n && b.p < p + n) Bad("overlap", std::string(what) + " overlaps a live object");
  }
  void Step(Rng e) {
    int op = (int)e.Below(100);
    if (objects && op < 93) op = e.P(0.02) ? 80 : 30 + (int)e.Below(50);
    Arm(e);
    if (op < 58) {
      static const size_t al[] = {1, 2, 4, 8, 8, 8, 8, 16, 32, 64, 128, 4096};
      size_t a = al[e.Below(12)], n = Size(e);
      if (e.P(0.4)) a = 8;
      if (a > 16) sim::Hit(sim::PR_BIG_ALIGN);
      bool dflt = a == 8 && e.P(0.5);
      sim::SetOp("arena %d: allocate %zu bytes, align %zu%s", tag, n, a, left ? ", memory refused" : "");
      size_t avail = arena->avail_bytes(), total = arena->total_bytes();
      uint8_t* p = nullptr;
      try {
        p = Faulty([&] { return dflt ? arena->Allocate(n) : arena->Allocate(n, a); });
      } catch (const std::bad_alloc&) {
        if (!refused) Bad("spurious-failure", "bad_alloc without refused memory");
        sim::Hit(sim::PR_ARENA_NULL);
        return;
      }
      sim::LogEvent(n * 8 + (p != nullptr));
      Config(n * 64 + a * 2 + (p != nullptr));
      if (n == 0) { if (p) Bad("zero-size", "a request of 0 bytes returned a pointer"); return; }
      if (!p) {
        if (!refused && n < (1ull << 30)) Bad("spurious-failure", "a request of " + std::to_string(n) + " bytes returned null although no memory was refused");
        if (arena->avail_bytes() != avail || arena->total_bytes() != total) Bad("accounting", "a refused request changed the accounting");
        sim::Hit(sim::PR_ARENA_NULL);
        return;
      }
      if (n >= (1ull << 31)) Bad("outside-arena", "an impossible request succeeded");
      if (arena->total_bytes() > total && total) sim::Hit(sim::PR_MULTI_CHUNK);
      Add(p, n, a, "block");
      CheckObjOverlap(p, n, "block");
      sim::NoYield ny;
      Block b{p, n, (uint8_t)e.U64()};
      for (size_t i = 0; i < n; ++i) p[i] = Pat(b.seed, i);
      blocks.push_back(b);
    } else if (op < 80) {
      switch (e.Below(6)) {
        case 0: Object<Obj<1, 8>>(e, false); break;
        case 1: Object<Obj<24, 16>>(e, false); break;
        case 2: Object<Obj<8, 64>>(e, false); break;
        case 3: Object<Obj<5000, 8>>(e, false); break;
        case 4: Object<Obj<8, 8>>(e, true); break;
        default: {
          sim::SetOp("arena %d: create a trivial object", tag);
          bool wide = e.P(0.5);
          void* p;
          size_t n = wide ? sizeof(PlainWide) : sizeof(Plain), a = wide ? alignof(PlainWide) : alignof(Plain);
          try { p = Faulty([&]() -> void* { if (wide) return arena->Create<PlainWide>(); return arena->Create<Plain>(Plain{1, 2, 3}); }); } catch (const std::bad_alloc&) { if (!refused) Bad("spurious-failure", "bad_alloc"); return; }
          if (!p) { if (!refused) Bad("spurious-failure", "Create returned null although no memory was refused"); return; }
          if (!wide && (((Plain*)p)->a != 1 || ((Plain*)p)->c != 3)) Bad("object-wrong", "constructor arguments were lost");
          Add(p, n, a, "trivial object");
          CheckObjOverlap((uint8_t*)p, n, "trivial object");
          sim::NoYield ny;
          Block b{(uint8_t*)p, n, (uint8_t)e.U64()};
          for (size_t i = 0; i < n; ++i) b.p[i] = Pat(b.seed, i);
          blocks.push_back(b);
        }
      }
      if (!log.problem.empty()) Bad("object-destruction", log.problem);
      Config(1000 + op);
    } else if (op < 90) {
      CheckAll();
      sim::SetOp("arena %d: reset", tag);
      size_t total = arena->total_bytes();
      arena->Reset();
      sim::Hit(sim::PR_ARENA_RESET);
      sim::NoYield ny;
      if (!log.problem.empty()) Bad("object-destruction", log.problem);
      if (!log.live.empty() || log.created != log.destroyed) Bad("object-destruction", std::to_string(log.created) + " objects were created but " + std::to_string(log.destroyed) + " destroyed when the arena was reset");
      blocks.clear();
      objs.clear();
      if (arena->total_bytes() > total) Bad("accounting", "resetting increased total_bytes");
      if (arena->avail_bytes() > arena->total_bytes()) Bad("accounting", "after a reset avail_bytes " + std::to_string(arena->avail_bytes()) + " exceeds total_bytes " + std::to_string(arena->total_bytes()));
      Config(2000);
    } else if (op < 94) {
      CheckAll();
      Destroy();
      Make();
      Config(3000);
    } else {
      CheckAll();
    }
  }
  void Destroy() {
    sim::SetOp("arena %d: destroy", tag);
    arena.reset();
    sim::NoYield ny;
    if (!log.problem.empty()) Bad("object-destruction", log.problem);
    if (!log.live.empty() || log.created != log.destroyed) Bad("object-destruction", std::to_string(log.created) + " objects were created but " + std::to_string(log.destroyed) + " destroyed when the arena was destroyed");
    blocks.clear();
    objs.clear();
  }
};
}  // namespace

void C07(Rng r) {
  bool threaded = r.P(0.3);
  int na = threaded ? 2 + (int)r.Below(2) : 1 + (int)r.Below(3);
  int cycles = 2;
  uint64_t live0 = 0;
  for (int cy = 0; cy < cycles; ++cy) {   // the same operations twice: the second time nothing may be left over
    uint64_t gen = sim::HeapGen();
    live0 = sim::HeapLiveBytes();
    uint64_t held0 = sim::repo_live_bytes, blocks0 = sim::repo_live_blocks;
    {
      std::vector<std::unique_ptr<World>> ws;
      // the byte counts against the blocks the arenas really hold
      auto counts = [&] {
        uint64_t held = sim::repo_live_bytes - held0, blocks = sim::repo_live_blocks - blocks0, said = 0;
        for (auto& w : ws) said += w->arena->total_bytes();
        if (blocks && said > held + 128 * blocks) sim::Violate("accounting", "the arenas report " + std::to_string(said) + " bytes taken from the system but hold " + std::to_string(held) + " in " + std::to_string(blocks) + " blocks; op: " + sim::sh->op);
      };
      for (int i = 0; i < na; ++i) ws.push_back(std::make_unique<World>(r.Fork(i + 1), i, threaded));
      int ops = 10 + (int)(r.Fork(3).Below(120));
      if (!threaded) {
        for (int n = 0; n < ops; ++n) {
          Rng e = r.Fork(1000 + n);
          if (!sim::KeepElem()) continue;
          ws[e.Below(na)]->Step(e.Fork(1));
          counts();
        }
      } else {
        std::vector<std::vector<Rng>> steps(na);
        for (int n = 0; n < ops; ++n) {
          Rng e = r.Fork(1000 + n);
          if (sim::KeepElem()) steps[n % na].push_back(e.Fork(1));
        }
        std::vector<std::function<void()>> fns;
        for (int i = 0; i < na; ++i) fns.push_back([&, i] { for (auto& s : steps[i]) ws[i]->Step(s); });
        Rng sr = r.Fork(5);
        sim::RunThreads(fns, sim::RandomSched(sr), sr.Fork(7));
        counts();
      }
      for (auto& w : ws) { w->CheckAll(); w->Destroy(); }
    }
    sim::sh->execs++;
    uint64_t live = sim::HeapLiveBytes();
    if (cy > 0 && live > live0) sim::Violate("arena-memory-not-returned", std::to_string(live - live0) + " bytes are still allocated after all arenas were destroyed: " + sim::HeapDescribeSince(gen, 8));
  }
  sim::Hit(sim::PR_LEAK_CYCLES);
}

// ------------------------------------------------------------------ C24
// Executions during which the system refuses memory to the execution arena.
namespace {
struct Refuse {
  uint64_t from, len;
  int thread;              // -1: whoever asks
  uint64_t seen = 0, refused = 0;
  std::function<bool(size_t)> hook;
  Refuse(uint64_t f, uint64_t l, int t = -1) : from(f), len(l), thread(t) {
    hook = [this](size_t) {
      if (thread >= 0 && sim::CurThread() != thread) return false;
      uint64_t k = seen++;
      if (k < from || k - from >= len) return false;
      ++refused;
      return true;
    };
    sim::repo_alloc_hook = &hook;
    sim::repo_alloc_faults = true;
  }
  ~Refuse() { sim::repo_alloc_faults = false; sim::repo_alloc_hook = nullptr; }
};
}  // namespace
void C24(Rng r) {
  Kind k = RandKind(r);
  gen::Opts go = RandGen(r);
  Program p = gen::MakeProgram(k, r.Fork(1), go, k == Kind::Single || k == Kind::Expr ? 1 : 1 + (int)r.Below(3), 100000, k == Kind::Pipe || r.P(0.15));
  ExecEngineOption opt = RandOpt(r, false);
  static const int64_t chunks[] = {1, 8, 16, 32, 64, 100, 256, 1024, 4096};
  opt.exec_ctx_arena_alloc_min_chunk_size = chunks[r.Below(r.P(0.8) ? 6 : 9)];
  Eng e(k, opt);
  CompileGood(e, p, *g_reg);
  world::RecOpts ro = RandRec(r, false);
  if (r.P(0.7)) ro.arm_p = 0;
  std::vector<Call> calls;
  int nc = 2 + (int)r.Below(5);
  for (int i = 0; i < nc; ++i) {
    Rng cr = r.Fork(100 + i);
    Call c = RandCall(cr, p, ro);
    c.ctx = cr.P(0.8);
    if (sim::KeepElem()) calls.push_back(c);
  }
  if (calls.empty()) return;
  auto want = SoloOutcomes(e, p, calls);
  // how many requests each call makes in a new context
  std::string cs = world::RunInClone([&] {
    std::string out;
    for (auto& c : calls) {
      ExecContext ctx(opt.exec_ctx_arena_alloc_min_chunk_size);
      uint64_t n0 = sim::repo_allocs;
      world::Exec(e, c, p, &ctx);
      out += std::to_string(sim::repo_allocs - n0) + " ";
    }
    return out;
  }, nullptr);
  std::vector<uint64_t> cnt;
  for (size_t pos = 0; pos < cs.size();) { size_t q = cs.find(' ', pos); cnt.push_back(strtoull(cs.c_str() + pos, nullptr, 10)); pos = q + 1; }
  auto judge = [&](size_t i, const Call& c, const Outcome& o, uint64_t refused, const char* where) {
    sim::NoYield ny;
    if (!refused) {
      Outcome q = o;
      if (c.entry == -1) q.mask = want[i].mask;
      Check(want[i], q, c, "failed-without-fault", where, p);
      return;
    }
    if (o.ok) sim::Violate("exhaustion-unreported", std::string(where) + c.Str() + ": " + std::to_string(refused) + " request(s) of the execution for memory were refused, but it returned OK with " + o.Str() + "\nprogram:\n" + p.Source());
    if (o.msg.empty()) sim::Violate("no-diagnostic", c.Str() + ": refused memory is reported without a text");
  };
  std::unique_ptr<ExecContext> kept;
  for (size_t i = 0; i < calls.size(); ++i) {
    Rng fr = r.Fork(400 + i);
    int rounds = 1 + (int)fr.Below(4);
    for (int k2 = 0; k2 < rounds; ++k2) {
      Call c = calls[i];
      bool reuse = kept && fr.P(0.4);
      if (!reuse) kept = std::make_unique<ExecContext>(opt.exec_ctx_arena_alloc_min_chunk_size);
      uint64_t from = fr.P(0.85) && cnt[i] ? fr.Below(cnt[i]) : fr.Below(cnt[i] + 2);
      uint64_t len = fr.P(0.5) ? 1 : fr.P(0.5) ? 1 + fr.Below(4) : 1000000;
      sim::SetOp("%s while requests %lu..%lu of %lu are refused", c.Str().c_str(), (unsigned long)from, (unsigned long)(from + len - 1), (unsigned long)cnt[i]);
      if (sim::spec.explain) sim::Explain("%s\n%s", sim::sh->op, k2 == 0 ? p.Source().c_str() : "");
      uint64_t refused = 0;
      Outcome o;
      {
        Refuse f(from, len);
        o = world::Exec(e, c, p, kept.get());
        refused = f.refused;
      }
      if (refused) sim::Hit(sim::PR_BUILTIN_ALLOC_FAIL);
      sim::LogEvent(refused * 2 + o.ok);
      judge(i, c, o, refused, "");
      Config(refused ? 3 + from : 1);
      // memory is back
      size_t j = fr.Below(calls.size());
      Call d = calls[j];
      sim::SetOp("%s after memory is available again", d.Str().c_str());
      bool same_ctx = fr.P(0.7);
      ExecContext nctx(opt.exec_ctx_arena_alloc_min_chunk_size);
      Outcome a = world::Exec(e, d, p, same_ctx ? kept.get() : &nctx);
      judge(j, d, a, 0, same_ctx ? "same context, after an execution that was refused memory: " : "new context, after an execution that was refused memory: ");
      LogOutcome(a);
    }
  }
  if (r.P(0.25)) {
    // one thread is refused memory while others execute
    int nt = 2 + (int)r.Below(2);
    std::vector<std::function<void()>> fns;
    uint64_t from = r.Below(4), len = r.P(0.5) ? 1 : 1000000;
    uint64_t total = 0, at = 0;
    Refuse f(from, len, 0);
    for (int t = 0; t < nt; ++t)
      fns.push_back([&, t] {
        for (int n = 0; n < 3; ++n) {
          size_t i = (size_t)(t + n) % calls.size();
          std::unique_ptr<ExecContext> ctx;
          { sim::NoYield ny; ctx = std::make_unique<ExecContext>(opt.exec_ctx_arena_alloc_min_chunk_size); }
          uint64_t before = f.refused;
          Outcome o = world::Exec(e, calls[i], p, ctx.get());
          judge(i, calls[i], o, t == 0 ? f.refused - before : 0, t == 0 ? "among other threads: " : "while another thread is refused memory: ");
          total += 1; at += o.ok;
        }
      });
    sim::SetOp("%d threads, one of them refused memory", nt);
    sim::RunThreads(fns, sim::RandomSched(r), r.Fork(7));
    sim::LogEvent(total * 100 + at);
    if (f.refused) sim::Hit(sim::PR_BUILTIN_ALLOC_FAIL);
  }
  if (world::OwnLive()) sim::Violate("object-leaked", "objects handed to execution contexts were never destroyed");
}
}  // namespace props
