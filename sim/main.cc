#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <execinfo.h>
#include <signal.h>
#include <ucontext.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "driver.h"

using sim::Shared;
static constexpr int kMaxW = 16;
static constexpr uint32_t kMaxRuns = 2u << 20;
static constexpr uint32_t kMaxDrop = 1024, kMaxKeep = 16384;
static int kRunCpu = 40, kRunWall = 100;   // seconds; a loaded machine must not look like a hang

struct SpecPod {
  char prop[16];
  uint64_t seed;
  uint32_t ndrop, nkeep;
  uint8_t preempt_all, thorough, explain, cold;
  int32_t depth, patience;
  uint32_t drop[kMaxDrop];
  uint32_t keep[kMaxKeep];
};
struct RunRec { uint64_t hash, sched, state; uint8_t out; };  // out: 1 ok, 2 violation, 3 crash, 4 hang
struct Totals {
  uint64_t runs, cold_runs, ok, steps, switches, execs, ops, events, elems, sim_ns;
  uint64_t faults[sim::F_N], fault_runs[sim::F_N], probes[sim::PR_N], probe_runs[sim::PR_N];
  uint64_t kf, limit;
};
struct VioSlot { uint64_t idx; uint8_t cold; Shared s; };
struct Ctl {
  std::atomic<uint64_t> next[2];   // warm, cold
  std::atomic<int> stop;
  std::atomic<int> nvio;
  uint64_t max_runs, deadline_ns, base_seed;
  uint64_t fixed_lo;
  SpecPod spec;
  Totals t[kMaxW];
  int last_outcome[kMaxW];
  uint64_t max_ms[kMaxW];
};
static Ctl* C;
static RunRec* R;
static VioSlot* V;
static constexpr int kMaxVio = 8;
static Shared* g_sh[kMaxW];
static int g_cmd[kMaxW][2], g_rep[kMaxW][2];
static bool g_cold[kMaxW];
static int g_b_in = -1, g_b_out = -1;      // pipes to this worker's restarted-process server
static int g_bfd[kMaxW][2];
static pid_t g_pid[kMaxW];

static uint64_t Now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000ULL + t.tv_nsec; }
static void* SharedMap(size_t n) {
  void* p = (void*)::sim::InitProcess;  // silence unused warnings on some compilers
  (void)p;
  long r;
  register long r10 __asm__("r10") = MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE;
  register long r8 __asm__("r8") = -1;
  register long r9 __asm__("r9") = 0;
  __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_mmap), "D"(0L), "S"((long)n), "d"((long)(PROT_READ | PROT_WRITE)), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if ((unsigned long)r > (unsigned long)-4096) { perror("mmap"); _exit(93); }
  return (void*)r;
}
static bool ReadAll(int fd, void* p, size_t n) {
  auto* b = (char*)p;
  while (n) { ssize_t k = read(fd, b, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; b += k; n -= (size_t)k; }
  return true;
}
static bool WriteAll(int fd, const void* p, size_t n) {
  auto* b = (const char*)p;
  while (n) { ssize_t k = write(fd, b, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; b += k; n -= (size_t)k; }
  return true;
}

namespace drv {
std::string CallRestarted(const std::string& payload, std::string* crash) {
  uint32_t n = (uint32_t)payload.size();
  if (g_b_in < 0 || !WriteAll(g_b_in, &n, 4) || !WriteAll(g_b_in, payload.data(), n)) sim::Violate("sim-internal", "restarted process is gone");
  uint32_t m = 0;
  if (!ReadAll(g_b_out, &m, 4)) sim::Violate("sim-internal", "restarted process gave no answer");
  std::string r;
  bool bad = (m & 0x80000000u) != 0;
  r.resize(m & 0x7fffffffu);
  if (!r.empty() && !ReadAll(g_b_out, &r[0], r.size())) sim::Violate("sim-internal", "short answer");
  if (bad && r.rfind("sim-limit", 0) == 0) sim::Violate("sim-limit", r);
  if (bad) { *crash = r; return ""; }
  return r;
}
}  // namespace drv

// ------------------------------------------------------------------ zygote
static void ClearShared(Shared* s) { memset((void*)s, 0, offsetof(Shared, explain)); s->explain[0] = 0; s->explain_len = 0; }
// debugging aid: while the file /tmp/JFSIM_BT exists, a crashing run prints a backtrace
static void CrashTrace(int sg, siginfo_t* si, void* uc) {
  void* a[60];
  auto* u = (ucontext_t*)uc;
  fprintf(stderr, "signal %d, address %p, rip %llx, rsp %llx\n", sg, si->si_addr, (unsigned long long)u->uc_mcontext.gregs[REG_RIP], (unsigned long long)u->uc_mcontext.gregs[REG_RSP]);
  auto* sp = (uint64_t*)u->uc_mcontext.gregs[REG_RSP];
  for (int i = 64; i < 1200; ++i) if (sp[i] > 0x400000 && sp[i] < 0x4000000) fprintf(stderr, " %llx", (unsigned long long)sp[i]);
  fprintf(stderr, "\n");
  int n = backtrace(a, 60);
  backtrace_symbols_fd(a, n, 2);
  signal(sg, SIG_DFL);
  raise(sg);
}
static void RunChild(const SpecPod& sp) {
  if (access("/tmp/JFSIM_BT", F_OK) == 0) {
    static char alt[1 << 18];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = CrashTrace;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
  }
  sim::patience = sp.patience > 1 ? sp.patience : 1;
  sim::ArmLimits(kRunCpu, kRunWall);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  sim::Spec s;
  s.prop = sp.prop;
  s.seed = sp.seed;
  s.drop.assign(sp.drop, sp.drop + sp.ndrop);
  s.preempt_all = sp.preempt_all;
  s.keep_preempt.assign(sp.keep, sp.keep + sp.nkeep);
  s.depth = sp.depth;
  s.thorough = sp.thorough;
  s.explain = sp.explain;
  sim::BeginRun(s);
  props::Run(s.prop);
  sim::sh->done = 1;
  _exit(0);
}
// runs one child; returns outcome code
static int OneRun(int w, const SpecPod& sp) {
  ClearShared(g_sh[w]);
  pid_t p = fork();
  if (p < 0) { usleep(1000); return 0; }
  if (p == 0) RunChild(sp);
  int st = 0;
  struct rusage ru{};
  while (wait4(p, &st, 0, &ru) < 0 && errno == EINTR) {}
  uint64_t ms = (uint64_t)(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000 + (uint64_t)(ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000;
  if (ms > C->max_ms[w]) C->max_ms[w] = ms;
  Shared* s = g_sh[w];
  if (s->done == 2) return strcmp(s->cls, "sim-limit") == 0 ? 7 : 2;
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGALRM || sg == SIGPROF) { snprintf(s->cls, sizeof s->cls, "hang"); snprintf(s->msg, sizeof s->msg, "not done after %d s of %s time during: %s", sg == SIGALRM ? kRunWall : kRunCpu, sg == SIGALRM ? "wall-clock" : "processor", s->op); return 4; }
    if (sg == SIGKILL) { snprintf(s->cls, sizeof s->cls, "sim-internal"); snprintf(s->msg, sizeof s->msg, "run was killed from outside"); return 5; }
    snprintf(s->cls, sizeof s->cls, "crash:%s", sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGFPE ? "SIGFPE" : sg == SIGILL ? "SIGILL" : sg == SIGBUS ? "SIGBUS" : "signal");
    snprintf(s->msg, sizeof s->msg, "the process died with signal %d during: %s", sg, s->op);
    return 3;
  }
  if (s->done != 1) {
    snprintf(s->cls, sizeof s->cls, "process-exit");
    snprintf(s->msg, sizeof s->msg, "the process exited with code %d during: %s", WEXITSTATUS(st), s->op);
    return 3;
  }
  return 1;
}
static void Zygote(int w) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  for (int i = 0; i < kMaxW; ++i) if (i != w) { if (g_cmd[i][1] > 0) close(g_cmd[i][1]); }
  sim::sh = g_sh[w];
  g_b_in = g_bfd[w][0];
  g_b_out = g_bfd[w][1];
  static SpecPod sp;
  for (;;) {
    char c;
    if (!ReadAll(g_cmd[w][0], &c, 1) || c == 'Q') _exit(0);
    if (c == 'S') {
      sp = C->spec;
      C->last_outcome[w] = OneRun(w, sp);
    } else if (c == 'R') {
      Totals& t = C->t[w];
      while (!C->stop.load()) {
        uint64_t k = C->next[g_cold[w]].fetch_add(1);
        uint64_t idx = C->spec.cold ? k * 2 + g_cold[w] : k;   // spec.cold != 0: seeds alternate warm/cold
        if (idx >= C->max_runs || idx >= kMaxRuns) break;
        if (C->deadline_ns && Now() > C->deadline_ns) break;
        memcpy(&sp, &C->spec, offsetof(SpecPod, drop));
        sp.seed = sim::Mix(C->base_seed ^ sim::Mix(idx + 1));
        sp.ndrop = sp.nkeep = 0;
        sp.preempt_all = 1;
        sp.depth = -1;
        sp.explain = 0;
        int o = OneRun(w, sp);
        if (o == 0) continue;
        Shared* s = g_sh[w];
        RunRec& r = R[idx];
        r.hash = s->hash;
        r.sched = s->switches ? s->sched_hash : 0;
        r.state = s->state_hash;
        r.out = (uint8_t)o;
        t.runs++;
        t.cold_runs += g_cold[w];
        t.ok += o == 1;
        t.steps += s->steps; t.switches += s->switches; t.execs += s->execs; t.ops += s->ops; t.events += s->events; t.elems += s->elems; t.sim_ns += s->sim_ns;
        for (int i = 0; i < sim::F_N; ++i) { t.faults[i] += s->faults[i]; t.fault_runs[i] += s->faults[i] != 0; }
        for (int i = 0; i < sim::PR_N; ++i) { t.probes[i] += s->probes[i]; t.probe_runs[i] += s->probes[i] != 0; }
        t.kf |= s->kf;
        t.limit += o == 7;
        if (o != 1 && o != 7) {
          int v = C->nvio.fetch_add(1);
          if (v < kMaxVio) { V[v].idx = idx; V[v].cold = g_cold[w]; memcpy((void*)&V[v].s, (void*)s, sizeof(Shared)); }
          if (v + 1 >= 3) C->stop.store(1);
        }
      }
    }
    char done = 'D';
    WriteAll(g_rep[w][1], &done, 1);
  }
}

// ------------------------------------------------------------------ restarted-process server (second executable)
static int ServeB() {
  static char buf[16 << 20];
  sim::sh = g_sh[0];
  for (;;) {
    uint32_t n;
    if (!ReadAll(0, &n, 4)) return 0;
    if (n > sizeof buf || !ReadAll(0, buf, n)) return 1;
    ClearShared(sim::sh);
    pid_t p = fork();
    if (p == 0) {
      sim::ArmLimits(100, 300);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      sim::Spec s;
      sim::BeginRun(s);
      std::string r = props::Restarted(std::string(buf, n));
      uint32_t m = (uint32_t)r.size();
      sim::sh->done = 1;
      WriteAll(1, &m, 4);
      WriteAll(1, r.data(), m);
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (sim::sh->done != 1) {
      static char msg[8000];
      int k;
      if (sim::sh->done == 2) k = snprintf(msg, sizeof msg, "%s: %s", sim::sh->cls, sim::sh->msg);
      else if (WIFSIGNALED(st)) k = snprintf(msg, sizeof msg, "crash: restarted process died with signal %d during: %s", WTERMSIG(st), sim::sh->op);
      else k = snprintf(msg, sizeof msg, "crash: restarted process exited with %d during: %s", WEXITSTATUS(st), sim::sh->op);
      if (k >= (int)sizeof msg) k = sizeof msg - 1;
      uint32_t m = (uint32_t)k | 0x80000000u;
      WriteAll(1, &m, 4);
      WriteAll(1, msg, (size_t)k);
    }
  }
}

// ------------------------------------------------------------------ main process helpers
static int g_nw = 8;
static int RunSpec(int w, const SpecPod& sp) {
  C->spec = sp;
  char c = 'S';
  WriteAll(g_cmd[w][1], &c, 1);
  if (!ReadAll(g_rep[w][0], &c, 1)) { fprintf(stderr, "worker %d died\n", w); exit(2); }
  return C->last_outcome[w];
}
static std::string JsonEsc(const std::string& s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c;
  }
  return o;
}
static std::string Nums(const uint32_t* p, uint32_t n) { std::string s = "["; for (uint32_t i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(p[i]); return s + "]"; }
static int PickWorker(bool cold) { for (int i = 0; i < g_nw; ++i) if (g_cold[i] == cold) return i; return 0; }

struct Best { SpecPod sp; std::string cls, msg; uint64_t hash; };
static bool Same(int w, const SpecPod& sp, const std::string& cls, Shared** out = nullptr) {
  int o = RunSpec(w, sp);
  if (out) *out = g_sh[w];
  return o > 1 && cls == g_sh[w]->cls;
}
static void Minimise(int w, SpecPod& sp, const std::string& cls, uint64_t budget_ns) {
  uint64_t end = Now() + budget_ns;
  // fewer elements
  Same(w, sp, cls);
  uint32_t elems = g_sh[w]->elems;
  if (elems > kMaxDrop) elems = kMaxDrop;
  std::vector<uint32_t> kept;
  for (uint32_t i = 0; i < elems; ++i) kept.push_back(i);
  size_t chunk = std::max<size_t>(1, kept.size() / 2);
  while (Now() < end && !kept.empty()) {
    bool any = false;
    for (size_t i = 0; i < kept.size() && Now() < end;) {
      SpecPod t = sp;
      for (size_t k = i; k < std::min(kept.size(), i + chunk) && t.ndrop < kMaxDrop; ++k) t.drop[t.ndrop++] = kept[k];
      if (Same(w, t, cls)) { sp = t; kept.erase(kept.begin() + i, kept.begin() + std::min(kept.size(), i + chunk)); any = true; }
      else i += chunk;
    }
    if (chunk == 1 && !any) break;
    if (chunk > 1) chunk = (chunk + 1) / 2; else if (!any) break;
  }
  // smaller expressions
  for (int d : {0, 1, 2}) {
    if (Now() > end) break;
    SpecPod t = sp;
    t.depth = d;
    if (Same(w, t, cls)) { sp = t; break; }
  }
  // fewer preemptions
  Same(w, sp, cls);
  uint32_t n = g_sh[w]->preempts;
  if (n > 0 && n < kMaxKeep) {
    SpecPod t = sp;
    t.preempt_all = 0;
    t.nkeep = 0;
    if (Same(w, t, cls)) { sp = t; return; }
    std::vector<uint32_t> keep;
    for (uint32_t i = 0; i < n; ++i) keep.push_back(i);
    auto test = [&](const std::vector<uint32_t>& k) { t.nkeep = (uint32_t)k.size(); std::copy(k.begin(), k.end(), t.keep); return Same(w, t, cls); };
    if (!test(keep)) return;
    size_t ch = keep.size() / 2;
    while (ch >= 1 && Now() < end) {
      bool any = false;
      for (size_t i = 0; i < keep.size() && Now() < end;) {
        std::vector<uint32_t> k2(keep.begin(), keep.begin() + i);
        if (i + ch < keep.size()) k2.insert(k2.end(), keep.begin() + i + ch, keep.end());
        if (test(k2)) { keep = k2; any = true; } else i += ch;
      }
      if (ch == 1 && !any) break;
      ch = ch > 1 ? ch / 2 : 1;
      if (keep.empty()) break;
    }
    test(keep);
    sp = t;
    sp.nkeep = (uint32_t)keep.size();
    std::copy(keep.begin(), keep.end(), sp.keep);
  }
}
static bool WriteReplay(const std::string& path, const SpecPod& sp, const Shared* s, uint64_t orig_idx, uint32_t elems_before, uint32_t preempts_before) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) return false;
  fprintf(f, "{\n \"property\": \"%s\",\n \"seed\": \"%lu\",\n \"run_index\": %lu,\n \"class\": \"%s\",\n \"hash\": \"%016lx\",\n", sp.prop, (unsigned long)sp.seed, (unsigned long)orig_idx, JsonEsc(s->cls).c_str(), (unsigned long)s->hash);
  fprintf(f, " \"cold\": %d,\n \"thorough\": %d,\n \"depth\": %d,\n \"drop\": %s,\n \"preempt_all\": %d,\n \"keep_preempt\": %s,\n", sp.cold, sp.thorough, sp.depth, Nums(sp.drop, sp.ndrop).c_str(), sp.preempt_all, Nums(sp.keep, sp.nkeep).c_str());
  fprintf(f, " \"elements_before_minimisation\": %u,\n \"preemption_points_before_minimisation\": %u,\n", elems_before, preempts_before);
  fprintf(f, " \"message\": \"%s\",\n \"trace\": [\n", JsonEsc(s->msg).c_str());
  std::string ex(s->explain, s->explain_len), line;
  bool first = true;
  size_t p = 0;
  while (p < ex.size()) {
    size_t e = ex.find('\n', p);
    if (e == std::string::npos) e = ex.size();
    fprintf(f, "%s  \"%s\"", first ? "" : ",\n", JsonEsc(ex.substr(p, e - p)).c_str());
    first = false;
    p = e + 1;
  }
  fprintf(f, "\n ]\n}\n");
  fclose(f);
  return true;
}
static std::string FileText(const std::string& p) {
  std::string s;
  FILE* f = fopen(p.c_str(), "r");
  if (!f) return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
static std::string Field(const std::string& j, const std::string& k) {
  size_t p = j.find("\"" + k + "\":");
  if (p == std::string::npos) return "";
  p += k.size() + 3;
  while (j[p] == ' ') p++;
  if (j[p] == '"') { size_t e = p + 1; while (e < j.size() && j[e] != '"') { if (j[e] == '\\') e++; e++; } return j.substr(p + 1, e - p - 1); }
  if (j[p] == '[') return j.substr(p + 1, j.find(']', p) - p - 1);
  size_t e = j.find_first_of(",\n}", p);
  return j.substr(p, e - p);
}
static uint32_t ParseNums(const std::string& s, uint32_t* out, uint32_t max) {
  uint32_t n = 0;
  const char* p = s.c_str();
  while (*p && n < max) { char* e; unsigned long v = strtoul(p, &e, 10); if (e == p) break; out[n++] = (uint32_t)v; p = e; while (*p == ',' || *p == ' ') p++; }
  return n;
}

int main(int argc, char** argv) {
  std::string prop, replay, out_dir = ".", stats, bexe, hashes, sigs = "/verif/tools/sigs.txt";
  uint64_t seed = 1, runs = 0;
  double secs = 10;
  bool thorough = false, server = false, verbose = false, explain1 = false;
  int64_t single = -1;
  double min_secs = 30;
  std::vector<std::string> args;
  if (const char* packed = getenv("SIM_ARGS")) {
    for (const char* q = packed; *q && *q != '\x1e';) { const char* e = strchr(q, '\x1f'); args.emplace_back(q, e); q = e + 1; }
  } else {
    for (int i = 1; i < argc; ++i) args.push_back(argv[i]);
  }
  for (size_t i = 0; i < args.size(); ++i) {
    std::string a = args[i];
    auto val = [&]() -> std::string { return i + 1 < args.size() ? args[++i] : ""; };
    if (a == "--prop") prop = val(); else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(val().c_str(), nullptr, 10); else if (a == "--secs") secs = atof(val().c_str());
    else if (a == "--workers") g_nw = atoi(val().c_str()); else if (a == "--replay") replay = val();
    else if (a == "--out") out_dir = val(); else if (a == "--stats") stats = val(); else if (a == "--bexe") bexe = val();
    else if (a == "--thorough") thorough = true; else if (a == "--server") server = true; else if (a == "--sigs") sigs = val();
    else if (a == "--hashes") hashes = val(); else if (a == "--verbose") verbose = true; else if (a == "--one") { single = atoll(val().c_str()); }
    else if (a == "--explain") explain1 = true; else if (a == "--min-secs") min_secs = atof(val().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (g_nw > kMaxW) g_nw = kMaxW;
  // address-space randomisation off: one seed is one execution
  int per = personality(0xffffffff);
  if (!(per & ADDR_NO_RANDOMIZE)) {
    if (!getenv("SIM_REEXEC") && personality(per | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
      perror("execv");
      return 2;
    }
    fprintf(stderr, "note: address-space randomisation stays on\n");
  }
  if (!getenv("SIM_CLEAN")) {   // a fixed environment: its size shifts the stack
    std::string packed = "SIM_ARGS=";    // a fixed size, whatever the arguments are
    for (auto& a : args) packed += a + '\x1f';
    packed.resize(std::max<size_t>(4096, packed.size()), '\x1e');
    char* one[] = {(char*)"sim", nullptr};
    std::vector<char*> env{(char*)packed.c_str(), (char*)"SIM_CLEAN=1", (char*)"SIM_REEXEC=1", (char*)"PATH=/usr/bin:/bin", (char*)"LC_ALL=C", nullptr};
    if (server) env.insert(env.begin(), (char*)"SIM_PADDING=a restarted process has another environment, another stack and another image base ........................................................................................................");
    execve("/proc/self/exe", one, env.data());
    perror("execve");
    return 2;
  }
  std::string j;
  SpecPod sp{};
  uint64_t want_hash = 0;
  std::string want_cls;
  if (!replay.empty()) {
    j = FileText(replay);
    if (j.empty()) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    prop = Field(j, "property");
    sp.seed = strtoull(Field(j, "seed").c_str(), nullptr, 10);
    want_hash = strtoull(Field(j, "hash").c_str(), nullptr, 16);
    want_cls = Field(j, "class");
    sp.cold = (uint8_t)atoi(Field(j, "cold").c_str());
    sp.thorough = (uint8_t)atoi(Field(j, "thorough").c_str());
    sp.depth = atoi(Field(j, "depth").c_str());
    sp.ndrop = ParseNums(Field(j, "drop"), sp.drop, kMaxDrop);
    sp.preempt_all = (uint8_t)atoi(Field(j, "preempt_all").c_str());
    sp.nkeep = ParseNums(Field(j, "keep_preempt"), sp.keep, kMaxKeep);
    sp.explain = 1;
  }
  snprintf(sp.prop, sizeof sp.prop, "%s", prop.c_str());
  C = (Ctl*)SharedMap(sizeof(Ctl));
  R = (RunRec*)SharedMap(sizeof(RunRec) * (size_t)kMaxRuns);
  V = (VioSlot*)SharedMap(sizeof(VioSlot) * kMaxVio);
  for (int i = 0; i < kMaxW; ++i) g_sh[i] = (Shared*)SharedMap(sizeof(Shared));
  sim::InitProcess();
  sim::sh = g_sh[0];
  signal(SIGPIPE, SIG_IGN);

  // restarted-process servers first (they are separate executables)
  bool needs_b = !server && !bexe.empty() && prop == "C05";
  for (int i = 0; i < g_nw; ++i) { g_bfd[i][0] = g_bfd[i][1] = -1; }
  if (needs_b) {
    for (int i = 0; i < g_nw; ++i) {
      int a[2], b[2];
      if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); return 2; }
      pid_t p = fork();
      if (p == 0) {
        dup2(a[0], 0);
        dup2(b[1], 1);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl{256u << 20, 512u << 20};   // another stack limit moves every shared library
        setrlimit(RLIMIT_STACK, &rl);
        const char* av[] = {bexe.c_str(), "--server", "--sigs", sigs.c_str(), nullptr};
        char* env[] = {(char*)"PATH=/usr/bin:/bin", nullptr};
        execve(bexe.c_str(), (char**)av, env);
        _exit(127);
      }
      close(a[0]);
      close(b[1]);
      g_bfd[i][0] = a[1];
      g_bfd[i][1] = b[0];
    }
  }
  bool want_cold = !server && prop == "C14";
  sim::HeapFence(64u << 20);
  static world::Registry reg;
  reg = world::MakeRegistry(server ? 1 : 0);
  props::g_reg = &reg;
  gen::LoadSigs(sigs, *reg);
  if (gen::Sigs().size() < 500) { fprintf(stderr, "only %zu builtin signatures found\n", gen::Sigs().size()); }
  if (server) { props::Warm(); return ServeB(); }
  if (want_cold && g_nw < 2) g_nw = 2;
  for (int i = 0; i < g_nw; ++i) {
    if (pipe2(g_cmd[i], O_CLOEXEC) || pipe2(g_rep[i], O_CLOEXEC)) { perror("pipe"); return 2; }
    g_cold[i] = want_cold && (i & 1);
  }
  // Cold zygotes must not have warmed LLVM, so fork them first.
  for (int pass = 0; pass < 2; ++pass) {
    if (pass == 1) props::Warm();
    for (int i = 0; i < g_nw; ++i) {
      if ((int)g_cold[i] == pass) continue;
      g_pid[i] = fork();
      if (g_pid[i] == 0) Zygote(i);
    }
  }
  uint64_t start = Now();
  auto describe = [&](const Shared* s) { fprintf(stderr, "  class %s: %s\n", s->cls, s->msg); };

  if (!replay.empty()) {
    int w = PickWorker(sp.cold);
    int o = RunSpec(w, sp);
    Shared* s = g_sh[w];
    for (uint32_t p = 0; p < s->explain_len;) { const char* b = s->explain + p; const char* e = (const char*)memchr(b, '\n', s->explain_len - p); if (!e) break; printf("  %.*s\n", (int)(e - b), b); p += (uint32_t)(e - b) + 1; }
    if (o <= 1) { printf("REPLAY: no violation (outcome %d, hash %016lx, recorded %s)\n", o, (unsigned long)s->hash, want_cls.c_str()); return 0; }
    printf("REPLAY: %s\n%s\n", s->cls, s->msg);
    bool same = want_cls == s->cls && (want_hash == s->hash || want_cls == "hang");
    printf("REPLAY: %s (hash %016lx, recorded %016lx)\n", same ? "identical to the recorded violation" : "DIFFERS from the recorded violation", (unsigned long)s->hash, (unsigned long)want_hash);
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
    return same ? 1 : 4;
  }
  uint64_t base = sim::Mix(seed * 1000003 + 17);
  for (char c : prop) base = sim::Mix(base ^ (uint64_t)c);
  if (single >= 0) {
    sp.seed = sim::Mix(base ^ sim::Mix((uint64_t)single + 1));
    sp.preempt_all = 1;
    sp.depth = -1;
    sp.explain = explain1;
    sp.thorough = thorough;
    sp.cold = want_cold && (single & 1);
    int w = PickWorker(sp.cold);
    int o = RunSpec(w, sp);
    Shared* s = g_sh[w];
    fwrite(s->explain, 1, s->explain_len, stdout);
    printf("outcome %d hash %016lx steps %lu switches %lu execs %lu preempts %u elems %u\n", o, (unsigned long)s->hash, (unsigned long)s->steps, (unsigned long)s->switches, (unsigned long)s->execs, s->preempts, s->elems);
    if (o > 1) printf("%s: %s\n", s->cls, s->msg);
    return o > 1;
  }
  C->base_seed = base;
  C->max_runs = runs ? runs : kMaxRuns;
  C->deadline_ns = runs ? 0 : start + (uint64_t)(secs * 1e9);
  C->spec = sp;
  C->spec.thorough = thorough;
  C->spec.cold = want_cold;
  if (verbose) C->stop.store(0);
  for (int i = 0; i < g_nw; ++i) { char c = 'R'; WriteAll(g_cmd[i][1], &c, 1); }
  for (int i = 0; i < g_nw; ++i) { char c; if (!ReadAll(g_rep[i][0], &c, 1)) { fprintf(stderr, "worker %d died\n", i); return 2; } }
  double wall = (double)(Now() - start) / 1e9;

  // ---- totals
  Totals T{};
  for (int w = 0; w < g_nw; ++w) {
    Totals& t = C->t[w];
    T.runs += t.runs; T.cold_runs += t.cold_runs; T.ok += t.ok; T.steps += t.steps; T.switches += t.switches; T.execs += t.execs; T.ops += t.ops; T.events += t.events; T.elems += t.elems; T.kf |= t.kf; T.sim_ns += t.sim_ns; T.limit += t.limit;
    for (int i = 0; i < sim::F_N; ++i) { T.faults[i] += t.faults[i]; T.fault_runs[i] += t.fault_runs[i]; }
    for (int i = 0; i < sim::PR_N; ++i) { T.probes[i] += t.probes[i]; T.probe_runs[i] += t.probe_runs[i]; }
  }
  std::unordered_set<uint64_t> hs, ss, cs;
  uint64_t upto = 0;
  for (uint64_t i = 0; i < kMaxRuns && i < C->max_runs; ++i) {
    if (!R[i].out) { if (i > upto + 64) break; continue; }
    upto = i;
    if (R[i].state) cs.insert(R[i].state);
    hs.insert(R[i].hash);
    if (R[i].sched) ss.insert(R[i].sched);
  }
  if (!hashes.empty()) {
    FILE* f = fopen(hashes.c_str(), "w");
    for (uint64_t i = 0; i <= upto; ++i) if (R[i].out) fprintf(f, "%lu %016lx %d\n", (unsigned long)i, (unsigned long)R[i].hash, R[i].out);
    fclose(f);
  }
  // ---- determinism sample: re-run some seeds in another worker and compare the event-log hash
  uint64_t det_n = 0, det_bad = 0;
  uint64_t det_first = 0;
  if (C->nvio.load() == 0) {
    uint64_t end = Now() + (uint64_t)(std::min(3.0, wall * 0.08) * 1e9);
    for (uint64_t k = 0; k < 64 && Now() < end; ++k) {
      uint64_t idx = sim::Mix(k + seed) % (upto + 1);
      if (R[idx].out != 1) continue;
      SpecPod t = sp;
      t.seed = sim::Mix(base ^ sim::Mix(idx + 1));
      t.preempt_all = 1; t.depth = -1; t.thorough = thorough; t.explain = 0;
      bool cold = want_cold && (idx & 1);
      t.cold = cold;
      int w = want_cold ? (int)((k % (g_nw / 2)) * 2 + cold) : (int)(k % g_nw);
      RunSpec(w, t);
      det_n++;
      if (g_sh[w]->hash != R[idx].hash) { det_bad++; det_first = idx; }
    }
  }
  uint64_t max_ms = 0;
  for (int w = 0; w < g_nw; ++w) max_ms = std::max(max_ms, C->max_ms[w]);
  // ---- violations
  int rc = 0;
  std::string vio_json = "null";
  int nv = std::min(C->nvio.load(), kMaxVio);
  std::sort(V, V + nv, [](const VioSlot& a, const VioSlot& b) { return a.idx < b.idx; });
  bool confirmed = false;
  for (int v = 0; v < nv && !confirmed; ++v) {
    std::string cls = V[v].s.cls;
    fprintf(stderr, "run %lu (seed index) reported %s: %s\n", (unsigned long)V[v].idx, cls.c_str(), V[v].s.msg);
    SpecPod t = sp;
    t.seed = sim::Mix(base ^ sim::Mix(V[v].idx + 1));
    t.preempt_all = 1; t.depth = -1; t.thorough = thorough; t.explain = 0; t.cold = V[v].cold;
    int w = PickWorker(V[v].cold);
    if (cls == "hang") {   // slow, or never done? given much more time it has to get there
      t.patience = 3;
      if (RunSpec(w, t) == 1) { fprintf(stderr, "  only slow: finished when given more time\n"); T.limit++; continue; }
      if (strcmp(g_sh[w]->cls, "hang") == 0) V[v].s.hash = g_sh[w]->hash;
      t.patience = 1;
    }
    if (!Same(w, t, cls) || (cls != "hang" && g_sh[w]->hash != V[v].s.hash)) { fprintf(stderr, "  did not replay identically (got outcome %d class %s)\n", C->last_outcome[w], g_sh[w]->cls); rc = 3; continue; }
    if (cls == "sim-internal") { fprintf(stderr, "  simulator error\n"); rc = 2; continue; }
    uint32_t e0 = g_sh[w]->elems, p0 = g_sh[w]->preempts;
    SpecPod m = t;
    if (cls != "hang") Minimise(w, m, cls, (uint64_t)(min_secs * 1e9));
    m.explain = 1;
    if (!Same(w, m, cls)) { m = t; m.explain = 1; if (!Same(w, m, cls)) { rc = 3; continue; } }
    std::string path = out_dir + "/replay-" + prop + ".json";
    WriteReplay(path, m, g_sh[w], V[v].idx, e0, p0);
    // replay in a fresh process must be identical
    pid_t p = fork();
    if (p == 0) {
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      std::vector<const char*> av{"sim", "--replay", path.c_str(), "--workers", want_cold ? "2" : "1", "--sigs", sigs.c_str()};
      if (!bexe.empty()) { av.push_back("--bexe"); av.push_back(bexe.c_str()); }
      av.push_back(nullptr);
      char* env[] = {(char*)"PATH=/usr/bin:/bin", nullptr};
      execve("/proc/self/exe", (char**)av.data(), env);
      _exit(127);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "  replay in a fresh process differs (%d)\n", WEXITSTATUS(st)); rc = 3; continue; }
    confirmed = true;
    rc = 1;
    printf("violation of %s, class %s, run %lu\n%s\n", prop.c_str(), g_sh[w]->cls, (unsigned long)V[v].idx, g_sh[w]->msg);
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
  }
  // ---- statistics
  if (!stats.empty()) {
    FILE* f = fopen(stats.c_str(), "w");
    fprintf(f, "{\n \"property\":\"%s\",\"seed\":%lu,\"runs\":%lu,\"cold_runs\":%lu,\"ok_runs\":%lu,\"wall_s\":%.2f,\"workers\":%d,\n", prop.c_str(), (unsigned long)seed, (unsigned long)T.runs, (unsigned long)T.cold_runs, (unsigned long)T.ok, wall, g_nw);
    fprintf(f, " \"sim_steps\":%lu,\"preemptive_switches\":%lu,\"executions\":%lu,\"operations\":%lu,\"events\":%lu,\"elements\":%lu,\n", (unsigned long)T.steps, (unsigned long)T.switches, (unsigned long)T.execs, (unsigned long)T.ops, (unsigned long)T.events, (unsigned long)T.elems);
    fprintf(f, " \"distinct_histories\":%zu,\"distinct_interleavings\":%zu,\"distinct_configurations\":%zu,\n", hs.size(), ss.size(), cs.size());
    fprintf(f, " \"determinism_rechecked\":%lu,\"determinism_mismatches\":%lu,\"det_first\":%lu,\"violations\":%d,\n \"runs_without_verdict\":%lu,\"longest_run_cpu_ms\":%lu,\n \"faults\":{", (unsigned long)det_n, (unsigned long)det_bad, (unsigned long)det_first, C->nvio.load(), (unsigned long)T.limit, (unsigned long)max_ms);
    bool first = true;
    for (int i = 0; i < sim::F_N; ++i) if (T.faults[i]) { fprintf(f, "%s\"%s\":{\"fired\":%lu,\"runs\":%lu}", first ? "" : ",", sim::kFaultName[i], (unsigned long)T.faults[i], (unsigned long)T.fault_runs[i]); first = false; }
    fprintf(f, "},\n \"probes\":{");
    first = true;
    for (int i = 0; i < sim::PR_N; ++i) if (T.probes[i]) { fprintf(f, "%s\"%s\":{\"hits\":%lu,\"runs\":%lu}", first ? "" : ",", sim::kProbeName[i], (unsigned long)T.probes[i], (unsigned long)T.probe_runs[i]); first = false; }
    uint64_t edges = 0;
    for (uint32_t i = 1; i <= sim::EdgeCount() && i < (1u << 20); ++i) edges += sim::edge_map[i];
    fprintf(f, "},\n \"edges_hit\":%lu,\"edges_total\":%u,\n \"rule\":\"%s\",\n \"samples\":[", (unsigned long)edges, sim::EdgeCount(), JsonEsc(props::Rule(prop)).c_str());
    // a few sample runs written out
    int shown = 0;
    if (rc != 3)
      for (uint64_t idx = 0; idx < 400 && shown < 3; ++idx) {
        if (!R[idx].out) continue;
        SpecPod t = sp;
        t.seed = sim::Mix(base ^ sim::Mix(idx + 1));
        t.preempt_all = 1; t.depth = -1; t.thorough = thorough; t.explain = 1;
        t.cold = want_cold && (idx & 1);
        int w = PickWorker(t.cold);
        RunSpec(w, t);
        std::string ex(g_sh[w]->explain, std::min<uint32_t>(g_sh[w]->explain_len, 2500));
        fprintf(f, "%s{\"run\":%lu,\"seed\":\"%lu\",\"history_hash\":\"%016lx\",\"log\":\"%s\"}", shown ? "," : "", (unsigned long)idx, (unsigned long)t.seed, (unsigned long)g_sh[w]->hash, JsonEsc(ex).c_str());
        shown++;
      }
    fprintf(f, "]\n}\n");
    fclose(f);
  }
  if (det_bad) fprintf(stderr, "WARNING: %lu of %lu re-run seeds had a different history (first index %lu)\n", (unsigned long)det_bad, (unsigned long)det_n, (unsigned long)det_first);
  printf("%s: %lu runs in %.1f s (%.0f/s), %lu executions, %lu switches, %zu distinct interleavings, %zu configurations, longest %.1f s, %lu without verdict; rc=%d\n", prop.c_str(), (unsigned long)T.runs, wall, (double)T.runs / wall, (unsigned long)T.execs, (unsigned long)T.switches, ss.size(), cs.size(), (double)max_ms / 1000, (unsigned long)T.limit, rc);
  for (int i = 0; i < g_nw; ++i) { char c = 'Q'; WriteAll(g_cmd[i][1], &c, 1); }
  return rc;
}
