#include "rt.h"
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <atomic>
#include <map>

namespace sim {

const char* const kFaultName[F_N] = {"thread_preemption", "jit_instruction_preemption", "callback_error", "builtin_error",
  "arena_malloc_failure", "mmap_failure", "mprotect_failure", "munmap_failure", "crash_restart", "truncated_write", "torn_write",
  "lost_sector", "bit_flip", "byte_set", "appended_data", "duplicated_data", "misdirected_artifact", "foreign_host_artifact",
  "invalid_program", "missing_function", "heap_layout_change", "heap_garbage", "compile_input_destroyed", "msync_failure"};
const char* const kProbeName[PR_N] = {"switch_inside_repository_code", "lock_contention", "one_time_init_race", "multi_chunk_arena",
  "finalizer_ran", "failing_execution", "successful_execution", "compile_ok", "compile_failed", "load_ok", "load_rejected",
  "save_ok", "unselected_branch_armed", "selected_branch_armed", "merged_pipeline_group", "execute_on_empty_engine",
  "recompile_same_engine", "nested_when", "stores", "batch_execute_all", "void_pointer_call", "leak_cycles", "link_failure",
  "memory_fault_survived", "memory_fault_reported", "host_check_waived", "arena_null_on_refusal", "arena_reset", "over_aligned",
  "extension_skipped", "old_program_kept", "context_reused", "instruction_stepped_execution", "strict_fp", "string_result",
  "list_result", "lookup_table", "cold_start", "builtin_alloc_refused", "near_copy_of_other_program", "same_or_tricky_error_text",
  "function_used_an_engine", "builtin_failure_predicted"};

Shared* sh = nullptr;
Spec spec;

// ------------------------------------------------------------------ raw syscalls (never interposed)
static inline long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void* rmmap(void* a, size_t n, int prot, int flags, int fd, long off) {
  return reinterpret_cast<void*>(rsys(SYS_mmap, (long)a, (long)n, prot, flags, fd, off));
}
static bool rerr(void* p) { return (unsigned long)p > (unsigned long)-4096; }

// ------------------------------------------------------------------ thread state
struct SThread {
  int id;
  pthread_t th;
  std::atomic<int> go;
  std::atomic<int> parked;
  int st;  // 0 idle,1 runnable,2 blocked,3 done
  const void* wait_obj;
  const std::function<void()>* fn;
  int noyield;
  int in_rt;
  bool stepping;
};
static constexpr int kMaxT = 8;
static SThread g_t[kMaxT];
static int g_nt = 0;          // created
static int g_active = 0;      // participating in this RunThreads
static std::atomic<int> g_main_go;
static bool g_sched = false;
static SchedCfg g_cfg;
static uint64_t g_sched_seed = 0;
static uint64_t g_quantum = 0;
static uint64_t g_step_limit = 1000000000;
static uint32_t g_hot_mod = 0, g_hot_k = 0;
static __thread SThread* t_self = nullptr;
static bool g_in_run = false;

static void fwait(std::atomic<int>* a) {
  while (a->load(std::memory_order_acquire) == 0) rsys(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, 0, 0);
  a->store(0, std::memory_order_release);
}
static void fwake(std::atomic<int>* a) {
  a->store(1, std::memory_order_release);
  rsys(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1);
}

struct RtGuard { RtGuard() { if (t_self) t_self->in_rt++; } ~RtGuard() { if (t_self) t_self->in_rt--; } };

// ------------------------------------------------------------------ logging
void LogEvent(uint64_t v) {
  if (!sh) return;
  sh->hash = Mix(sh->hash ^ v) + 0x1234567;
  sh->events++;
}
void LogBytes(const void* p, size_t n) {
  uint64_t h = 1469598103934665603ULL;
  auto* b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
  LogEvent(h ^ n);
}
void LogStr(const std::string& s) { LogBytes(s.data(), s.size()); }
void Explain(const char* fmt, ...) {
  if (!spec.explain || !sh) return;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  if (sh->explain_len + n + 1 >= sizeof sh->explain) return;
  memcpy(sh->explain + sh->explain_len, buf, n);
  sh->explain_len += n;
  sh->explain[sh->explain_len++] = '\n';
}
void Violate(const std::string& cls, const std::string& msg) {
  if (sh->done == 0) {
    snprintf(sh->cls, sizeof sh->cls, "%s", cls.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    sh->done = 2;
  }
  rsys(SYS_exit_group, 0);
  for (;;) {}
}
int patience = 1;
void ArmLimits(int cpu_s, int wall_s) {
  cpu_s *= patience;
  wall_s *= patience;
  struct itimerval it{};
  it.it_value.tv_sec = cpu_s;
  setitimer(ITIMER_PROF, &it, nullptr);
  it.it_value.tv_sec = wall_s;
  setitimer(ITIMER_REAL, &it, nullptr);
}
void SetOp(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(sh->op, sizeof sh->op, fmt, ap);
  va_end(ap);
  if (spec.explain) Explain("op: %s", sh->op);
}

static uint32_t g_elem = 0;
bool KeepElem(uint32_t* idx) {
  uint32_t i = g_elem++;
  sh->elems = g_elem;
  if (idx) *idx = i;
  for (uint32_t d : spec.drop)
    if (d == i) return false;
  return true;
}
Rng ElemRng(uint32_t idx) { return Rng(Mix(spec.seed * 0x9e37 + 77) ^ Mix(idx + 1000003ULL)); }

// ------------------------------------------------------------------ scheduler
static int PickNext(uint64_t r, bool exclude_self) {
  int cand[kMaxT], n = 0;
  for (int i = 0; i < g_active; ++i)
    if (g_t[i].st == 1 && !(exclude_self && t_self && t_self->id == i)) cand[n++] = i;
  if (n == 0) return -1;
  return cand[r % n];
}
// A long run can afford fine interleaving only in part of it: up to g_fine switches, from step g_fine_from on.
static uint64_t g_fine_from = 0;
static uint32_t g_fine = 0;
static constexpr uint64_t kCoarse = 60;
static bool Fine() {
  if (sh->steps < g_fine_from || g_fine == 0) return false;
  g_fine--;
  return true;
}
static uint64_t Quantum();
static uint64_t NewQuantum() { return Quantum() * (Fine() ? 1 : kCoarse); }
static uint64_t Quantum() {
  Rng r(g_sched_seed ^ Mix(sh->preempts + 0x51ed));
  switch (g_cfg.policy) {
    case 0: return 1 + r.Below(2 * g_cfg.mean);
    case 1: {
      static const uint32_t m[] = {1, 4, 30, 300, 3000};
      return 1 + r.Below(2 * m[r.Below(5)]);
    }
    case 2: return 1 + r.Below(g_cfg.pct_len);
    case 4: return 1 + r.Below(g_cfg.mean * 40);
    default: return 1 + r.Below(2 * g_cfg.mean);
  }
}
static void SwitchTo(int next) {
  SThread* me = t_self;
  if (next == me->id) return;
  fwake(&g_t[next].go);
  fwait(&me->go);
}
static void ReportDeadlock() {
  if (t_self) t_self->in_rt++;
  std::string m = "no runnable thread:";
  for (int i = 0; i < g_active; ++i) m += " T" + std::to_string(i) + "=" + std::to_string(g_t[i].st);
  Violate("deadlock", m);
}
// Called by the running thread which cannot continue (blocked/done): hand the token on.
static void HandOff() {
  int n = PickNext(Mix(g_sched_seed ^ sh->steps), true);
  if (n < 0) {
    bool all_done = true;
    for (int i = 0; i < g_active; ++i) all_done &= (g_t[i].st == 3);
    if (!all_done) ReportDeadlock();
    fwake(&g_main_go);
    return;
  }
  fwake(&g_t[n].go);
}
static void Block(const void* obj) {
  SThread* me = t_self;
  Hit(PR_LOCK_BLOCK);
  me->st = 2;
  me->wait_obj = obj;
  HandOff();
  fwait(&me->go);
}
static void WakeAll(const void* obj) {
  for (int i = 0; i < g_active; ++i)
    if (g_t[i].st == 2 && g_t[i].wait_obj == obj) { g_t[i].st = 1; g_t[i].wait_obj = nullptr; }
}
static void DoYield(int kind, uint64_t site) {
  SThread* me = t_self;
  if (me->noyield || me->in_rt || !g_sched) return;
  sh->steps++;
  if (sh->steps > g_step_limit) me->in_rt++, Violate("step-limit", "run exceeded the step limit: no progress");
  if (g_cfg.policy == 3 && kind == 0) return;
  bool hot = g_hot_mod && g_fine && (Mix(site) % g_hot_mod == g_hot_k);
  if (!hot) {
    if (g_quantum > 1) { --g_quantum; return; }
  }
  uint32_t ord = sh->preempts++;
  uint64_t r = Mix(g_sched_seed ^ Mix(ord * 2654435761ULL + 99));
  g_quantum = NewQuantum();
  if (!spec.preempt_all) {
    bool keep = false;
    for (uint32_t k : spec.keep_preempt) keep |= (k == ord);
    if (!keep) return;
  }
  int next = PickNext(r, true);
  if (next < 0) return;
  me->in_rt++;
  sh->switches++;
  Fired(kind == 6 ? F_JIT_PREEMPT : F_PREEMPT);
  if (kind <= 2) Hit(PR_SWITCH_IN_BUILTIN);
  sh->sched_hash = Mix(sh->sched_hash ^ Mix(site * 8 + kind) ^ (uint64_t)(me->id * 16 + next));
  LogEvent(0x5000 + me->id * 16 + next);
  if (spec.explain && sh->switches < 400)
    Explain("switch#%u step=%lu T%d->T%d kind=%d site=%lu", ord, (unsigned long)sh->steps, me->id, next, kind, (unsigned long)site);
  me->in_rt--;
  SwitchTo(next);
}
void Yield(int kind, uint64_t site) { if (t_self) DoYield(kind, site); }
int CurThread() { return t_self && g_sched ? t_self->id : -1; }
static constexpr uintptr_t kEdgeBase = 0x2c0000000000ULL;
static uintptr_t g_edge_next = kEdgeBase;
EdgeBytes::EdgeBytes(const char* d, size_t n) : size(n) {
  size_t body = (n + 4095) / 4096 * 4096;
  len_ = body + 4096;
  uintptr_t at = __atomic_fetch_add(&g_edge_next, len_, __ATOMIC_RELAXED);
  base_ = (char*)rmmap((void*)at, len_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  if (rerr(base_)) { fprintf(stderr, "artifact map failed\n"); _exit(93); }
  rsys(SYS_mprotect, (long)(base_ + body), 4096, PROT_NONE);
  data = base_ + body - n;
  memcpy(data, d, n);
}
EdgeBytes::~EdgeBytes() { rsys(SYS_munmap, (long)base_, (long)len_); }
NoYield::NoYield() { if (t_self) t_self->noyield++; }
NoYield::~NoYield() { if (t_self) t_self->noyield--; }

static void* ThreadMain(void* a) {
  auto* me = static_cast<SThread*>(a);
  stack_t ss{};
  ss.ss_sp = rmmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 65536;
  if (access("/tmp/JFSIM_BT", F_OK) == 0) sigaltstack(&ss, nullptr);
  fwake(&me->parked);
  for (;;) {
    fwait(&me->go);
    t_self = me;
    (*me->fn)();
    me->st = 3;
    t_self = nullptr;
    // hand the token on as "me" (t_self cleared so nothing yields any more)
    t_self = me; me->in_rt = 1;
    HandOff();
    me->in_rt = 0; t_self = nullptr;
  }
  return nullptr;
}
#ifdef SIM_B
static constexpr uintptr_t kStackBase = 0x280000000000ULL;
#else
static constexpr uintptr_t kStackBase = 0x180000000000ULL;
#endif
static constexpr size_t kStackSize = 16u << 20;

SchedCfg RandomSched(Rng& r, bool late) {
  SchedCfg c;
  c.late = late;
  static const int pol[] = {0, 1, 1, 2, 2, 3, 4, 4};
  c.policy = pol[r.Below(8)];
  static const uint32_t m[] = {2, 8, 40, 200, 1000};
  c.mean = m[r.Below(5)];
  static const uint64_t l[] = {50, 400, 3000, 20000};
  c.pct_len = l[r.Below(4)];
  return c;
}

void RunThreads(const std::vector<std::function<void()>>& fns, const SchedCfg& cfg, Rng rng) {
  if (fns.empty()) return;
  int n = (int)fns.size();
  if (n > kMaxT) n = kMaxT;
  while (g_nt < n) {
    SThread& t = g_t[g_nt];
    t.id = g_nt;
    t.go = 0; t.parked = 0; t.st = 0; t.noyield = 0; t.in_rt = 0; t.stepping = false;
    pthread_attr_t at;
    pthread_attr_init(&at);
    void* stk = rmmap((void*)(kStackBase + g_nt * (kStackSize + (1u << 20))), kStackSize, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (rerr(stk)) { fprintf(stderr, "stack map failed\n"); _exit(90); }
    pthread_attr_setstack(&at, stk, kStackSize);
    if (pthread_create(&t.th, &at, ThreadMain, &t) != 0) { fprintf(stderr, "pthread_create failed\n"); _exit(91); }
    fwait(&t.parked);
    g_nt++;
  }
  g_active = n;
  for (int i = 0; i < n; ++i) { g_t[i].fn = &fns[i]; g_t[i].st = 1; g_t[i].wait_obj = nullptr; g_t[i].noyield = 0; g_t[i].in_rt = 0; }
  g_cfg = cfg;
  g_sched_seed = rng.U64();
  g_hot_mod = 0;
  if (cfg.policy == 4) { g_hot_mod = 7 + (uint32_t)rng.Below(120); g_hot_k = (uint32_t)rng.Below(g_hot_mod); }
  g_fine = 12000;
  g_fine_from = cfg.late && cfg.policy != 2 && rng.P(0.5) ? sh->steps + (1ULL << (10 + rng.Below(12))) : 0;
  g_quantum = NewQuantum();
  g_sched = true;
  fwake(&g_t[rng.Below(n)].go);
  fwait(&g_main_go);
  g_sched = false;
}

// ------------------------------------------------------------------ single-stepping of JIT code
static bool g_step_supported = false;
static volatile int g_step_probe = 0;
// Calls that leave the JIT code, or enter the simulator, are stepped over: the return address is replaced by one that
// traps, and the trap flag is off until then.
struct StepOver { uint64_t ret[64]; uint64_t sp[64]; int n; uint64_t prev; };
static __thread StepOver t_so;
__asm__(".text\n.globl sim_step_back\nsim_step_back:\n int3\n ud2\n");
extern "C" char sim_step_back[];
extern "C" { void __sanitizer_cov_trace_pc_guard(uint32_t*); void __sanitizer_cov_load1(void*); void __sanitizer_cov_load2(void*);
void __sanitizer_cov_load4(void*); void __sanitizer_cov_load8(void*); void __sanitizer_cov_store1(void*); void __sanitizer_cov_store2(void*);
void __sanitizer_cov_store4(void*); void __sanitizer_cov_store8(void*); }
static bool StepsOver(uint64_t ip) {
  static const uint64_t f[] = {(uint64_t)(void*)&malloc, (uint64_t)(void*)&free, (uint64_t)(void*)&calloc, (uint64_t)(void*)&realloc,
    (uint64_t)&__sanitizer_cov_trace_pc_guard, (uint64_t)&__sanitizer_cov_load1, (uint64_t)&__sanitizer_cov_load2, (uint64_t)&__sanitizer_cov_load4,
    (uint64_t)&__sanitizer_cov_load8, (uint64_t)&__sanitizer_cov_store1, (uint64_t)&__sanitizer_cov_store2, (uint64_t)&__sanitizer_cov_store4, (uint64_t)&__sanitizer_cov_store8};
  for (uint64_t x : f) if (x == ip) return true;
  return false;
}
static void OnTrap(int, siginfo_t*, void* uc_) {
  auto* uc = static_cast<ucontext_t*>(uc_);
  auto& g = uc->uc_mcontext.gregs;
  uint64_t ip = (uint64_t)g[REG_RIP];
  g_step_probe++;
  StepOver& so = t_so;
  if (ip == (uint64_t)sim_step_back + 1) {   // back from a call that was stepped over
    if (so.n == 0) abort();
    ip = so.ret[--so.n];
    g[REG_RIP] = (long long)ip;
    g[REG_EFL] |= 0x100;
    so.prev = ip;
    if (t_self && InCodeRegion(ip)) DoYield(6, ip & 0xfff);
    return;
  }
  if (InCodeRegion(ip)) {
    so.prev = ip;
    if (t_self) DoYield(6, ip & 0xfff);
    return;
  }
  uint64_t* sp = (uint64_t*)g[REG_RSP];
  if (so.n < 64 && ((InCodeRegion(so.prev) && InCodeRegion(*sp)) || StepsOver(ip))) {
    so.ret[so.n++] = *sp;
    *sp = (uint64_t)sim_step_back;
    g[REG_EFL] &= ~0x100ll;
  }
  so.prev = ip;
}
void JitStepOn() {
  if (!g_step_supported) return;
  Hit(PR_STEPPED_EXEC);
  __asm__ volatile("pushfq\n orq $0x100,(%%rsp)\n popfq\n" ::: "memory", "cc");
}
void JitStepOff() {
  if (!g_step_supported) return;
  __asm__ volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq\n" ::: "memory", "cc");
}
bool JitStepSupported() { return g_step_supported; }

// ------------------------------------------------------------------ heap
#ifdef SIM_B   // the restarted process: everything lives elsewhere
static constexpr uintptr_t kHeapBase = 0x200000000000ULL;
#else
static constexpr uintptr_t kHeapBase = 0x100000000000ULL;
#endif
static constexpr size_t kHeapSize = 1536ULL << 20;
struct Hdr {
  uint64_t size;
  uint32_t magic;
  uint32_t cls;
  Hdr* next;  // live list / free list
  Hdr* prev;
  uint64_t gen;
  uint32_t flags;  // 1 repo direct allocation
  uint32_t back;   // bytes from real block start to header (aligned allocations)
  uint64_t pad[2];
};
static_assert(sizeof(Hdr) == 64, "hdr");
static constexpr uint32_t kLive = 0xA110CA7E, kFree = 0xF4EEF4EE;
static constexpr int kClasses = 160;
struct FreeList { Hdr* head; Hdr* tail; uint32_t n; };
static struct HeapState {
  uintptr_t cur, end, mapped;
  FreeList fl[kClasses];
  Hdr live;  // sentinel
  uint64_t live_bytes, live_blocks, gen, peak, max_req;
  HeapCfg cfg;
  Rng rng{1};
  bool init;
} H;

static size_t ClassSize(uint32_t c) {
  if (c < 64) return (c + 1) * 16;  // 16..1024
  uint32_t k = c - 64;              // quarter steps above 1024
  size_t base = 1024ULL << (k / 4);
  return base + base / 4 * (k % 4 + 1);
}
static uint32_t ClassOf(size_t n) {
  if (n <= 1024) return n == 0 ? 0 : (uint32_t)((n + 15) / 16 - 1);
  int lg = 63 - __builtin_clzll(n - 1);
  uint32_t c = 64 + (lg >= 10 ? (lg - 10) * 4 : 0);
  while (ClassSize(c) < n) c++;
  return c;
}
static void HeapInit() {
  void* p = rmmap((void*)kHeapBase, kHeapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (rerr(p)) { const char m[] = "sim heap map failed\n"; (void)!write(2, m, sizeof m - 1); _exit(92); }
  H.cur = kHeapBase; H.end = kHeapBase + kHeapSize;
  H.live.next = H.live.prev = &H.live;
  H.cfg.alloc_fill = 3; H.cfg.free_fill = 0;
  H.init = true;
}
static inline bool InHeap(const void* p) { return (uintptr_t)p >= kHeapBase && (uintptr_t)p < kHeapBase + kHeapSize; }

static void Fill(void* p, size_t n, int mode, uint64_t salt) {
  if (n > 8192) n = 8192;
  switch (mode) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xAA, n); break;
    case 2: {
      uint64_t x = Mix(salt);
      auto* b = (uint64_t*)p;
      for (size_t i = 0; i < n / 8; ++i) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = x; }
      for (size_t i = n & ~7ULL; i < n; ++i) ((char*)p)[i] = (char)(x >> 33);
    } break;
    case 4: memset(p, 0xDD, n); break;
    default: break;
  }
}
static constexpr uint8_t kCanary = 0xC5;

static void* HeapAlloc(size_t n, uint32_t flags) {
  if (!H.init) HeapInit();
  if (n > (1ULL << 30)) { if (n > H.max_req) H.max_req = n; return nullptr; }
  uint32_t c = ClassOf(n + 8);  // room for an 8-byte canary at least
  Hdr* h = nullptr;
  FreeList& f = H.fl[c];
  if (f.n && (H.cfg.reuse != 3 || H.cur - kHeapBase > kHeapSize / 2)) {   // even "never" ends before the address space does
    int mode = H.cfg.reuse;
    if (mode == 2) mode = (int)H.rng.Below(3);
    if (mode == 2) {  // skip a few
      Hdr* p = f.head; Hdr* pp = nullptr;
      uint32_t k = (uint32_t)H.rng.Below(f.n < 6 ? f.n : 6);
      while (k--) { pp = p; p = p->next; }
      h = p;
      if (pp) pp->next = p->next; else f.head = p->next;
      if (f.tail == p) f.tail = pp;
    } else {
      h = f.head; f.head = h->next; if (!f.head) f.tail = nullptr;
    }
    f.n--;
  } else {
    size_t cs = ClassSize(c);
    if (H.cfg.gap && n < 65536) H.cur += 16 * H.rng.Below(H.cfg.gap + 1);
    if (H.cur + sizeof(Hdr) + cs > H.end) {
      // a program that really holds this much has run away; otherwise the never-reused addresses ran out, which says nothing
      if (H.live_bytes > kHeapSize / 2) return nullptr;
      Violate("sim-limit", "the simulated heap ran out of fresh addresses");
    }
    h = (Hdr*)H.cur;
    H.cur += sizeof(Hdr) + cs;
    h->cls = c;
  }
  h->size = n; h->magic = kLive; h->flags = flags; h->back = 0; h->gen = ++H.gen;
  h->next = H.live.next; h->prev = &H.live; h->next->prev = h; H.live.next = h;
  H.live_bytes += n; H.live_blocks++;
  if (H.live_bytes > H.peak) H.peak = H.live_bytes;
  if (n > H.max_req) H.max_req = n;
  char* p = (char*)(h + 1);
  if (H.cfg.alloc_fill != 3) Fill(p, n, H.cfg.alloc_fill, H.gen);
  memset(p + n, kCanary, 8);
  if (flags & 1) { repo_live_blocks++; repo_live_bytes += n; }
  return p;
}
static Hdr* HdrOf(void* p) { return (Hdr*)p - 1; }
static void HeapBad(const char* what, void* p) {
  if (sh && g_in_run) {
    char b[200];
    snprintf(b, sizeof b, "%s (block of %lu bytes) during: %s", what, InHeap(p) ? (unsigned long)HdrOf(p)->size : 0ul, sh->op);
    Violate(std::string("heap-") + what, b);
  }
  abort();
}
static void HeapFree(void* p) {
  if (!p || !InHeap(p)) return;
  Hdr* h = HdrOf(p);
  if (h->magic == kFree) HeapBad("double-free", p);
  if (h->magic != kLive) HeapBad("invalid-free", p);
  char* d = (char*)p;
  for (int i = 0; i < 8; ++i)
    if ((uint8_t)d[h->size + i] != kCanary) HeapBad("overflow", p);
  h->next->prev = h->prev; h->prev->next = h->next;
  H.live_bytes -= h->size; H.live_blocks--;
  if (h->flags & 1) { repo_live_blocks--; repo_live_bytes -= h->size; }
  if (H.cfg.free_fill) Fill(d, h->size, H.cfg.free_fill == 1 ? 4 : 2, h->gen * 31);
  h->magic = kFree;
  if (h->back) {  // aligned block: recycle from the real start
    Hdr* r = (Hdr*)((char*)h - h->back);
    r->magic = kFree; r->cls = h->cls; r->size = 0;
    h = r;
  }
  FreeList& f = H.fl[h->cls];
  h->next = nullptr;
  bool lifo = H.cfg.reuse == 0 || (H.cfg.reuse == 2 && (h->gen & 1));
  if (lifo || !f.head) { h->next = f.head; f.head = h; if (!f.tail) f.tail = h; }
  else { f.tail->next = h; f.tail = h; }
  f.n++;
}
static void* HeapAligned(size_t al, size_t n) {
  if (al <= 16) return HeapAlloc(n, 0);
  char* p = (char*)HeapAlloc(n + al + sizeof(Hdr), 0);
  if (!p) return nullptr;
  uintptr_t q = ((uintptr_t)p + al - 1) & ~(al - 1);
  if (q == (uintptr_t)p) {
    Hdr* h = HdrOf(p);
    H.live_bytes -= h->size - n; h->size = n; memset(p + n, kCanary, 8);
    return p;
  }
  if (q - (uintptr_t)p < sizeof(Hdr)) q += (sizeof(Hdr) + al - 1) & ~(al - 1);
  if (q + n + 8 > (uintptr_t)p + n + al + sizeof(Hdr) + 8) { HeapFree(p); return HeapAligned(al, n + 2 * al); }
  Hdr* r = HdrOf(p);
  Hdr* h = HdrOf((void*)q);
  Hdr save = *r;
  *h = save;
  h->next->prev = h; h->prev->next = h;
  H.live_bytes -= h->size - n;
  h->size = n;
  h->back = (uint32_t)((char*)h - (char*)r);
  r->magic = kFree;
  memset((char*)q + n, kCanary, 8);
  return (void*)q;
}

bool repo_alloc_faults = false;
std::function<bool(size_t)>* repo_alloc_hook = nullptr;
uint64_t repo_allocs = 0, repo_live_blocks = 0, repo_live_bytes = 0;

void HeapConfigure(const HeapCfg& c, uint64_t seed) {
  H.cfg = c;
  H.rng = Rng(seed ^ 0x48ea9);
  if (c.reuse || c.gap) Fired(F_HEAP_LAYOUT);
  if (c.alloc_fill != 3 || c.free_fill) Fired(F_HEAP_GARBAGE);
}
HeapCfg RandomHeap(Rng& r) {
  HeapCfg c;
  c.reuse = (int)r.Below(4);
  c.alloc_fill = (int)r.Below(3);
  c.free_fill = 1 + (int)r.Below(2);
  c.gap = r.P(0.5) ? 0 : (int)r.Below(40);
  return c;
}
// Whatever was allocated before, later allocations start here: their addresses do not depend on it.
void HeapFence(size_t off) {
  RtGuard g;
  for (auto& f : H.fl) f = FreeList{nullptr, nullptr, 0};
  uintptr_t to = kHeapBase + off;
  if (H.cur > to) { fprintf(stderr, "heap fence passed\n"); _exit(93); }
  H.cur = to;
  if (H.gen < ((uint64_t)off << 8)) H.gen = (uint64_t)off << 8;
}
bool HeapInside(const void* p, size_t n, uint64_t after) {
  for (Hdr* h = H.live.next; h != &H.live; h = h->next) {
    const char* b = (const char*)(h + 1);
    if ((const char*)p >= b && (const char*)p + n <= b + h->size) return h->gen > after;
  }
  return false;
}
std::function<bool(size_t)>* any_alloc_hook = nullptr;
uint64_t HeapLiveBytes() { return H.live_bytes; }
uint64_t HeapLiveBlocks() { return H.live_blocks; }
void HeapMark() { H.peak = H.live_bytes; H.max_req = 0; }
uint64_t HeapPeakSince() { return H.peak; }
uint64_t HeapMaxRequest() { return H.max_req; }
uint64_t HeapGen() { return H.gen; }
std::string HeapDescribeSince(uint64_t gen, size_t limit) {
  std::string s;
  size_t n = 0;
  for (Hdr* h = H.live.next; h != &H.live; h = h->next) {
    if (h->gen <= gen) continue;
    if (n++ < limit) s += " [" + std::to_string(h->size) + "B" + ((h->flags & 1) ? ",arena" : "") + "]";
  }
  return std::to_string(n) + " blocks:" + s;
}

// ------------------------------------------------------------------ code-memory seam
#ifdef SIM_B
static constexpr uintptr_t kCodeBase = 0x240000000000ULL;
static constexpr uintptr_t kCodeEnd = 0x270000000000ULL;
#else
static constexpr uintptr_t kCodeBase = 0x140000000000ULL;
static constexpr uintptr_t kCodeEnd = 0x170000000000ULL;
#endif
static uintptr_t g_code_cur = kCodeBase;
static MapCfg g_map;
static uint64_t g_map_calls = 0, g_map_failed = 0, g_map_live = 0, g_map_count = 0;
static Rng g_map_rng(1), g_place_rng(1);
static bool g_far = false, g_place = false;
void MapArm(const MapCfg& c, uint64_t seed) { g_map = c; g_map.enabled = true; if (g_map.thread == -2) g_map.thread = CurThread(); g_map_calls = 0; g_map_failed = 0; g_map_rng = Rng(seed); }
void MapDisarm() { g_map.enabled = false; }
uint64_t MapCalls() { return g_map_calls; }
uint64_t MapFailed() { return g_map_failed; }
uint64_t MapLiveBytes() { return g_map_live; }
uint64_t MapLiveCount() { return g_map_count; }
void MapPlacement(uint64_t seed, bool far) { g_place_rng = Rng(seed); g_far = far; g_place = true; }
bool InCodeRegion(uint64_t ip) { return ip >= kCodeBase && ip < kCodeEnd; }
static bool MapShouldFail(int kind) {
  if (!g_map.enabled || !(g_map.kinds & kind) || (g_map.thread >= 0 && CurThread() != g_map.thread)) return false;
  uint64_t n = g_map_calls++;
  bool f = g_map.random ? g_map_rng.P(g_map.p) : (n >= g_map.fail_from && n - g_map.fail_from < g_map.fail_len);
  if (f) {
    g_map_failed++;
    Fired(kind == 1 ? F_MMAP_FAIL : kind == 2 ? F_MPROTECT_FAIL : F_MUNMAP_FAIL);
    LogEvent(0x3a90 + kind);
    if (spec.explain) Explain("fault: %s call #%lu refused", kind == 1 ? "mmap" : kind == 2 ? "mprotect" : "munmap", (unsigned long)n);
  }
  return f;
}

// ------------------------------------------------------------------ lock tables
struct LockEnt { const void* key; int owner; int depth; int readers; };
static constexpr int kLocks = 4096;
static LockEnt g_locks[kLocks];
static LockEnt* LockOf(const void* k) {
  uint64_t i = Mix((uint64_t)k) % kLocks;
  for (int n = 0; n < kLocks; ++n, i = (i + 1) % kLocks) {
    if (g_locks[i].key == k) return &g_locks[i];
    if (g_locks[i].key == nullptr) { g_locks[i].key = k; g_locks[i].owner = -1; g_locks[i].depth = 0; g_locks[i].readers = 0; return &g_locks[i]; }
  }
  Violate("sim-lock-table-full", "too many locks");
}
static inline bool Sched() { return t_self && g_sched; }
static int MutexLock(void* m, bool tr) {
  if (!Sched()) return 0;
  DoYield(4, 0x4001);
  LockEnt* e = LockOf(m);
  int kind = *(int*)((char*)m + 16) & 3;  // glibc pthread_mutex_t.__kind
  while (e->depth > 0) {
    if (e->owner == t_self->id) {
      if (kind == 1) { e->depth++; return 0; }
      if (tr) return EBUSY;
      if (kind == 2) return EDEADLK;
      ReportDeadlock();
    }
    if (tr) return EBUSY;
    Block(m);
    e = LockOf(m);
  }
  e->owner = t_self->id; e->depth = 1;
  return 0;
}
static int MutexUnlock(void* m) {
  if (!Sched()) return 0;
  LockEnt* e = LockOf(m);
  if (e->depth > 0 && --e->depth == 0) { e->owner = -1; WakeAll(m); }
  DoYield(4, 0x4002);
  return 0;
}
static int RwLock(void* m, bool wr, bool tr) {
  if (!Sched()) return 0;
  DoYield(4, 0x4003);
  LockEnt* e = LockOf(m);
  while (e->depth > 0 || (wr && e->readers > 0)) {
    if (tr) return EBUSY;
    if (e->depth > 0 && e->owner == t_self->id) return EDEADLK;
    Block(m);
    e = LockOf(m);
  }
  if (wr) { e->owner = t_self->id; e->depth = 1; } else e->readers++;
  return 0;
}
static int RwUnlock(void* m) {
  if (!Sched()) return 0;
  LockEnt* e = LockOf(m);
  if (e->depth > 0 && e->owner == t_self->id) { e->depth = 0; e->owner = -1; }
  else if (e->readers > 0) e->readers--;
  WakeAll(m);
  DoYield(4, 0x4004);
  return 0;
}

// ------------------------------------------------------------------ coverage
uint8_t* edge_map = nullptr;
static uint32_t g_edges = 0;
uint32_t EdgeCount() { return g_edges; }

static void* MapShared(size_t n) {
  void* p = rmmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (rerr(p)) { perror("mmap"); _exit(93); }
  return p;
}
void InitProcess() {
  struct sigaction sa{};
  sa.sa_sigaction = OnTrap;
  sa.sa_flags = SA_SIGINFO | SA_RESTART | SA_NODEFER;
  sigaction(SIGTRAP, &sa, nullptr);
  dlsym(RTLD_DEFAULT, "malloc");
  dlerror();
  dlopen(nullptr, RTLD_LAZY);
  dl_iterate_phdr([](struct dl_phdr_info*, size_t, void*) { return 1; }, nullptr);
  g_step_supported = true;
  g_step_probe = 0;
  sh = (Shared*)MapShared(sizeof(Shared));
  edge_map = (uint8_t*)MapShared(1 << 20);
  JitStepOn();
  __asm__ volatile("nop\nnop\nnop\n");
  JitStepOff();
  if (g_step_probe < 3) g_step_supported = false;
  sh->probes[PR_STEPPED_EXEC] = 0;
}
void BeginRun(const Spec& s) {
  spec = s;
  HeapFence(256u << 20);
  g_elem = 0;
  g_in_run = true;
  sh->hash = Mix(s.seed);
}
}  // namespace sim

// ================================================================== interposed symbols
using namespace sim;
extern "C" {
#define EXPORT __attribute__((visibility("default"), used))
EXPORT void* malloc(size_t n) {
  if (t_self) DoYield(3, 0x3001);
  RtGuard g;
  if (any_alloc_hook && (*any_alloc_hook)(n)) { Fired(F_MALLOC_FAIL); LogEvent(0x3a12); errno = ENOMEM; return nullptr; }
  void* p = HeapAlloc(n, 0); if (!p) errno = ENOMEM; return p; }
EXPORT void free(void* p) { if (t_self) DoYield(3, 0x3002); RtGuard g; HeapFree(p); }
EXPORT void* calloc(size_t a, size_t b) {
  if (t_self) DoYield(3, 0x3003);
  RtGuard g;
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = HeapAlloc(n, 0);
  if (p) memset(p, 0, n); else errno = ENOMEM;
  return p;
}
EXPORT void* realloc(void* o, size_t n) {
  if (!o) return malloc(n);
  if (n == 0) { free(o); return nullptr; }
  if (t_self) DoYield(3, 0x3004);
  RtGuard g;
  if (!InHeap(o)) { void* p = HeapAlloc(n, 0); return p; }
  Hdr* h = HdrOf(o);
  if (h->magic != kLive) HeapBad("invalid-free", o);
  void* p = HeapAlloc(n, h->flags);
  if (!p) { errno = ENOMEM; return nullptr; }
  memcpy(p, o, h->size < n ? h->size : n);
  HeapFree(o);
  return p;
}
EXPORT int posix_memalign(void** out, size_t al, size_t n) { RtGuard g; *out = HeapAligned(al, n); return *out ? 0 : ENOMEM; }
EXPORT void* aligned_alloc(size_t al, size_t n) { RtGuard g; return HeapAligned(al, n); }
EXPORT void* memalign(size_t al, size_t n) { RtGuard g; return HeapAligned(al, n); }
EXPORT void* valloc(size_t n) { RtGuard g; return HeapAligned(4096, n); }
EXPORT size_t malloc_usable_size(void* p) { return p && InHeap(p) ? HdrOf(p)->size : 0; }

// direct allocation calls made by repository objects (renamed with objcopy at build time)
static bool RepoFail(size_t n) {
  repo_allocs++;
  if (!repo_alloc_faults || !repo_alloc_hook) return false;
  bool f;
  { NoYield ny; f = (*repo_alloc_hook)(n); }
  if (f) { Fired(F_MALLOC_FAIL); LogEvent(0x3a11); if (spec.explain) Explain("fault: malloc(%lu) refused to repository code", (unsigned long)n); }
  return f;
}
EXPORT void* simrepo_malloc(size_t n) {
  if (t_self) DoYield(3, 0x3011);
  RtGuard g;
  if (RepoFail(n)) { errno = ENOMEM; return nullptr; }
  void* p = HeapAlloc(n, 1);
  if (!p) errno = ENOMEM;
  return p;
}
EXPORT void* simrepo_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = simrepo_malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
EXPORT void* simrepo_realloc(void* o, size_t n) {
  if (!o) return simrepo_malloc(n);
  { RtGuard g; if (n && RepoFail(n)) { errno = ENOMEM; return nullptr; } }
  return realloc(o, n);
}
EXPORT void* simrepo_aligned_alloc(size_t al, size_t n) { RtGuard g; if (RepoFail(n)) return nullptr; return HeapAligned(al, n); }
EXPORT int simrepo_posix_memalign(void** o, size_t al, size_t n) { RtGuard g; if (RepoFail(n)) return ENOMEM; *o = HeapAligned(al, n); return *o ? 0 : ENOMEM; }

// the dynamic loader allocates while it holds its own lock, which is invisible to the scheduler
static void* (*real_dlsym)(void*, const char*);
static char* (*real_dlerror)(void);
static void* (*real_dlopen)(const char*, int);
static int (*real_dl_iterate_phdr)(int (*)(struct dl_phdr_info*, size_t, void*), void*);
EXPORT void* dlsym(void* h, const char* name) {
  if (!real_dlsym) real_dlsym = (void* (*)(void*, const char*))dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34");
  if (t_self) DoYield(4, 0x6001);
  NoYield ny;
  return real_dlsym(h, name);
}
EXPORT char* dlerror(void) {
  if (!real_dlerror) real_dlerror = (char* (*)(void))dlvsym(RTLD_NEXT, "dlerror", "GLIBC_2.34");
  NoYield ny;
  return real_dlerror();
}
EXPORT void* dlopen(const char* n, int f) {
  if (!real_dlopen) real_dlopen = (void* (*)(const char*, int))dlvsym(RTLD_NEXT, "dlopen", "GLIBC_2.34");
  NoYield ny;
  return real_dlopen(n, f);
}
EXPORT int dl_iterate_phdr(int (*cb)(struct dl_phdr_info*, size_t, void*), void* d) {
  if (!real_dl_iterate_phdr) real_dl_iterate_phdr = (int (*)(int (*)(struct dl_phdr_info*, size_t, void*), void*))dlvsym(RTLD_NEXT, "dl_iterate_phdr", "GLIBC_2.2.5");
  NoYield ny;
  return real_dl_iterate_phdr(cb, d);
}

EXPORT void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (!g_in_run || fd != -1 || !(flags & MAP_ANONYMOUS)) {
    if (fd == -1 && (flags & MAP_ANONYMOUS) && !(flags & MAP_FIXED)) {
      // warm-up mappings also come from the deterministic region
      size_t m = (n + 4095) & ~4095ULL;
      void* p = rmmap((void*)g_code_cur, m, prot, flags | MAP_FIXED_NOREPLACE, -1, 0);
      if (!rerr(p)) { g_code_cur += m + 65536; g_map_live += m; g_map_count++; return p; }
    }
    void* p = rmmap(a, n, prot, flags, fd, off);
    if (rerr(p)) { errno = -(int)(long)p; return MAP_FAILED; }
    return p;
  }
  if (t_self) DoYield(4, 0x5001);
  if (MapShouldFail(1)) { errno = ENOMEM; return MAP_FAILED; }
  size_t m = (n + 4095) & ~4095ULL;
  if (g_place) g_code_cur += (g_far && g_code_cur + (1ULL << 40) < kCodeEnd ? (g_place_rng.Below(64) << 30) : 0) + 4096 * g_place_rng.Below(64);
  void* p = rmmap((void*)g_code_cur, m, prot, (flags & ~MAP_FIXED) | MAP_FIXED_NOREPLACE, -1, 0);
  if (rerr(p)) { errno = ENOMEM; return MAP_FAILED; }
  g_code_cur += m + 65536;
  g_map_live += m; g_map_count++;
  if (spec.explain) Explain("T%d maps %zu bytes at %p", CurThread(), m, p);
  return p;
}
EXPORT void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }
EXPORT int munmap(void* a, size_t n) {
  if (g_in_run && t_self) DoYield(4, 0x5002);
  if (g_in_run && InCodeRegion((uint64_t)a) && MapShouldFail(4)) { errno = ENOMEM; return -1; }
  long r = rsys(SYS_munmap, (long)a, (long)n);
  if (r < 0) { errno = -(int)r; return -1; }
  if (InCodeRegion((uint64_t)a)) {
    g_map_live -= (n + 4095) & ~4095ULL; g_map_count--;
    if (g_in_run && spec.explain) Explain("T%d unmaps %zu bytes at %p", CurThread(), (n + 4095) & ~4095ULL, a);
  }
  return 0;
}
EXPORT int mprotect(void* a, size_t n, int prot) {
  if (g_in_run && t_self) DoYield(4, 0x5003);
  if (g_in_run && InCodeRegion((uint64_t)a) && MapShouldFail(2)) { errno = ENOMEM; return -1; }
  long r = rsys(SYS_mprotect, (long)a, (long)n, prot);
  if (r < 0) { errno = -(int)r; return -1; }
  return 0;
}

EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { return MutexLock(m, false); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) { return MutexLock(m, true); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) { return MutexUnlock(m); }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return RwLock(m, false, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return RwLock(m, true, false); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return RwLock(m, false, true); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return RwLock(m, true, true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) { return RwUnlock(m); }
EXPORT int pthread_spin_lock(pthread_spinlock_t* m) { return MutexLock((void*)((char*)m), false); }
EXPORT int pthread_spin_unlock(pthread_spinlock_t* m) { return MutexUnlock((void*)((char*)m)); }
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!Sched()) return 0;
  MutexUnlock(m);
  Block(c);
  MutexLock(m, false);
  return 0;
}
EXPORT int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) {
  if (!Sched()) return ETIMEDOUT;
  MutexUnlock(m); DoYield(4, 0x4009); MutexLock(m, false);
  return ETIMEDOUT;
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_cond_timedwait(c, m, t); }
EXPORT int pthread_cond_signal(pthread_cond_t* c) { if (Sched()) WakeAll(c); return 0; }  // spurious wake-ups are legal
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { if (Sched()) WakeAll(c); return 0; }
EXPORT int sched_yield(void) { if (t_self) { g_quantum = 1; DoYield(4, 0x4010); } return 0; }
EXPORT int pthread_once(pthread_once_t* o, void (*f)(void)) {
  int* c = (int*)o;
  if (*c == 2) return 0;
  while (*c == 1) {
    if (!Sched()) break;
    Hit(PR_ONCE_RACE);
    Block(c);
  }
  if (*c == 2) return 0;
  *c = 1;
  if (Sched()) DoYield(4, 0x4020);
  f();
  *c = 2;
  if (Sched()) WakeAll(c);
  return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t* g) {
  auto* b = (volatile char*)g;
  if (b[0]) return 0;
  if (Sched()) DoYield(4, 0x4030);
  while (b[1]) {
    if (!Sched()) break;
    Hit(PR_ONCE_RACE);
    Block(g);
  }
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
EXPORT void __cxa_guard_release(uint64_t* g) { auto* b = (volatile char*)g; b[0] = 1; b[1] = 0; if (Sched()) { WakeAll(g); DoYield(4, 0x4031); } }
EXPORT void __cxa_guard_abort(uint64_t* g) { auto* b = (volatile char*)g; b[1] = 0; if (Sched()) WakeAll(g); }
// libstdc++ futures/atomics wait through syscall(SYS_futex, ...)
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && Sched()) {
    int op = (int)b & 0x7f;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
      Block((void*)a);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { WakeAll((void*)a); return 1; }
  }
  long r = rsys(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -(int)r; return -1; }
  return r;
}

EXPORT void __sanitizer_cov_trace_pc_guard_init(uint32_t* s, uint32_t* e) {
  if (s == e || *s) return;
  for (uint32_t* x = s; x < e; ++x) *x = ++g_edges;
}
EXPORT void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (edge_map) edge_map[*g & 0xfffff] = 1;
  if (t_self) DoYield(0, *g);
}
#define LS(k, nm, N) EXPORT void __sanitizer_cov_##nm##N(void*) { if (t_self) DoYield(k, 0x100000 + ((uint64_t)__builtin_return_address(0) & 0xffff)); }
LS(1, load, 1) LS(1, load, 2) LS(1, load, 4) LS(1, load, 8) LS(1, load, 16)
LS(2, store, 1) LS(2, store, 2) LS(2, store, 4) LS(2, store, 8) LS(2, store, 16)
}
