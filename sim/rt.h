// Deterministic simulation runtime: seeded scheduler over real (parked) threads,
// simulated heap, code-memory mapping seam, lock/once/guard seams, shared result page.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------- PRNG (splitmix64 / xoshiro-ish); every choice in a run comes from one of these ----------
inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(Mix(seed)) {}
  uint64_t U64() { s += 0x9e3779b97f4a7c15ULL; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : U64() % n; }
  int64_t Range(int64_t a, int64_t b) { return a + static_cast<int64_t>(Below(static_cast<uint64_t>(b - a + 1))); }
  bool P(double p) { return static_cast<double>(U64() >> 11) * (1.0 / 9007199254740992.0) < p; }
  Rng Fork(uint64_t tag) { return Rng(Mix(s ^ Mix(tag))); }
};

// ---------- fault kinds and probes, counted when they FIRE ----------
enum Fault : int {
  F_PREEMPT, F_JIT_PREEMPT, F_CALLBACK_ERROR, F_BUILTIN_ERROR, F_MALLOC_FAIL, F_MMAP_FAIL, F_MPROTECT_FAIL, F_MUNMAP_FAIL,
  F_CRASH_RESTART, F_TRUNCATE, F_TORN, F_LOST_SECTOR, F_BITFLIP, F_BYTE_SET, F_APPEND, F_DUPLICATE, F_MISDIRECT,
  F_FOREIGN_HOST, F_BAD_PROGRAM, F_MISSING_FUNC, F_HEAP_LAYOUT, F_HEAP_GARBAGE, F_LIFETIME_KILL, F_MSYNC_FAIL, F_N
};
extern const char* const kFaultName[F_N];
enum Probe : int {
  PR_SWITCH_IN_BUILTIN, PR_LOCK_BLOCK, PR_ONCE_RACE, PR_MULTI_CHUNK, PR_FINALIZER, PR_ERR_EXEC, PR_OK_EXEC, PR_COMPILE_OK,
  PR_COMPILE_FAIL, PR_LOAD_OK, PR_LOAD_REJECT, PR_SAVE_OK, PR_UNSELECTED_ARMED, PR_SELECTED_ARMED, PR_MERGED_GROUP,
  PR_EXEC_EMPTY, PR_RECOMPILE, PR_NESTED_WHEN, PR_STORES, PR_BATCH_ALL, PR_VOIDPTR_CALL, PR_LEAK_CYCLES, PR_LINK_FAIL,
  PR_FAULT_SURVIVED, PR_FAULT_REPORTED, PR_WAIVER, PR_ARENA_NULL, PR_ARENA_RESET, PR_BIG_ALIGN, PR_EXT_SKIPPED,
  PR_OLD_KEPT, PR_CTX_REUSED, PR_STEPPED_EXEC, PR_STRICT_FP, PR_STR_RESULT, PR_LIST_RESULT, PR_LOOKUP_TABLE,
  PR_COLD_START, PR_BUILTIN_ALLOC_FAIL, PR_NEAR_COPY, PR_SAME_ERROR_TEXT, PR_REENTERED, PR_MUST_FAIL, PR_N
};
extern const char* const kProbeName[PR_N];

// Result page shared between the run's process and the driver.
struct Shared {
  int32_t done;       // 1 = run finished, 2 = violation recorded
  char cls[96];       // violation class
  char msg[6000];     // violation message
  char op[512];       // operation in progress (for crashes)
  uint64_t hash;      // event-log hash
  uint64_t events;
  uint64_t steps;     // logical steps (yield points passed)
  uint64_t switches;  // preemptive context switches
  uint64_t sched_hash;  // hash of (thread, site) at every switch
  uint64_t state_hash;  // hash of the configuration actually reached (ops, outcomes)
  uint64_t ops;
  uint64_t execs;
  uint64_t faults[F_N];
  uint64_t probes[PR_N];
  uint32_t elems;     // elements generated
  uint32_t preempts;  // preemption decisions offered
  uint64_t sim_ns;
  uint64_t peak_heap;
  uint64_t kf;        // bitmask of known-finding ids hit
  char explain[1 << 16];
  uint32_t explain_len;
};
extern Shared* sh;

struct Spec {  // a run is a pure function of this and the code
  std::string prop;
  uint64_t seed = 1;
  std::vector<uint32_t> drop;           // elements removed by the minimiser
  bool preempt_all = true;              // otherwise only the ordinals in keep_preempt
  std::vector<uint32_t> keep_preempt;
  int depth = -1;                       // generator depth override
  bool thorough = false;
  bool explain = false;
};
extern Spec spec;

// element bookkeeping for minimisation
bool KeepElem(uint32_t* idx_out = nullptr);
Rng ElemRng(uint32_t idx);

// ---------- logging / violations ----------
void LogEvent(uint64_t v);
void LogBytes(const void* p, size_t n);
void LogStr(const std::string& s);
void Explain(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void Violate(const std::string& cls, const std::string& msg);
extern int patience;   // the limits are multiplied by this
void ArmLimits(int cpu_s, int wall_s);   // SIGPROF / SIGALRM end the process
void SetOp(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void Fired(Fault f, uint64_t n = 1) { sh->faults[f] += n; }
inline void Hit(Probe p, uint64_t n = 1) { sh->probes[p] += n; }

// ---------- scheduler ----------
struct SchedCfg {
  int policy = 0;          // 0 uniform quanta, 1 geometric mixture, 2 few preemptions (PCT-like), 3 sites: only memory/alloc points
  uint32_t mean = 50;
  uint32_t pct_points = 3;
  uint64_t pct_len = 20000;
  bool late = false;       // a long run: the finely interleaved part may come later
  bool step_jit = false;   // single-step JIT code of chosen executions
};
SchedCfg RandomSched(Rng& r, bool late = false);
// Runs fns as simulated threads under the seeded scheduler until all finished.
void RunThreads(const std::vector<std::function<void()>>& fns, const SchedCfg& cfg, Rng sched_rng);
void Yield(int kind, uint64_t site);   // explicit yield point
int CurThread();                       // -1 outside the scheduler
struct NoYield { NoYield(); ~NoYield(); };
// A copy of n bytes that ends exactly at an unmapped page, as a mapped file whose length is a multiple of the page
// size does, and that disappears from the address space when the object is destroyed.
struct EdgeBytes {
  EdgeBytes(const char* d, size_t n);
  ~EdgeBytes();
  EdgeBytes(const EdgeBytes&) = delete;
  char* data; size_t size;
 private:
  char* base_; size_t len_;
};
void JitStepOn();
void JitStepOff();
struct JitStep { bool on; explicit JitStep(bool o) : on(o) { if (on) JitStepOn(); } ~JitStep() { if (on) JitStepOff(); } };
bool JitStepSupported();

// ---------- heap ----------
struct HeapCfg {
  int reuse = 0;        // 0 LIFO, 1 FIFO, 2 random, 3 never within the run
  int alloc_fill = 0;   // 0 zero,1 0xAA,2 random bytes,3 leave
  int free_fill = 1;    // 0 none, 1 0xDD, 2 random
  int gap = 0;          // random gaps between fresh blocks (max 16*gap bytes)
};
void HeapConfigure(const HeapCfg& c, uint64_t seed);
HeapCfg RandomHeap(Rng& r);
void HeapFence(size_t offset);
uint64_t HeapLiveBytes();
uint64_t HeapLiveBlocks();
uint64_t HeapPeakSince();   // peak live bytes since HeapMark
void HeapMark();
uint64_t HeapMaxRequest();  // largest single request since HeapMark
// description of blocks allocated after mark `gen` and still live (for leak reports)
uint64_t HeapGen();
std::string HeapDescribeSince(uint64_t gen, size_t limit);
// arena-allocation faults (direct malloc/calloc/realloc calls made by repository code)
extern bool repo_alloc_faults;           // armed?
extern std::function<bool(size_t)>* repo_alloc_hook;  // returns true => fail this request
extern std::function<bool(size_t)>* any_alloc_hook;   // consulted for every malloc/new of the process while set
bool HeapInside(const void* p, size_t n, uint64_t after_gen);   // inside one live block allocated after `after_gen`?
extern uint64_t repo_allocs;             // direct repo malloc calls seen
extern uint64_t repo_live_blocks, repo_live_bytes;

// ---------- code-memory seam ----------
struct MapCfg { bool enabled = false; uint64_t fail_from = ~0ull, fail_len = 0; int kinds = 7; bool random = false; double p = 0;
  int thread = -2; };   // -2: whoever arms it (set by MapArm); -1 would be outside the scheduler
void MapArm(const MapCfg& c, uint64_t seed);
void MapDisarm();
uint64_t MapCalls();
uint64_t MapLiveBytes();
uint64_t MapLiveCount();
void MapPlacement(uint64_t seed, bool far_apart);
bool InCodeRegion(uint64_t ip);
uint64_t MapFailed();  // failures injected since MapArm

// ---------- coverage ----------
extern uint8_t* edge_map;   // shared, 1 byte per edge
uint32_t EdgeCount();

void InitProcess();            // once in the parent
void BeginRun(const Spec& s);  // in the child, before the property body
}  // namespace sim
