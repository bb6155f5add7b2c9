// C10: independence from compile inputs and memory layout; C11: pipelines against an executable reading of the script;
// C12: conditionals run only what is selected.
#include <alloca.h>
#include <algorithm>
#include <cstring>
#include <set>
#include "life.h"
#include "props.h"

namespace props {
using gen::EP;
using gen::Ex;
using gen::K;

// ------------------------------------------------------------------ what a program must do, by the reference interpreter
struct Want {
  std::string val;
  std::vector<world::StoreRec> stores;
  std::vector<int32_t> trace, errs;
  std::vector<std::string> berrs;
};
// expressions: a variable stands for its definition
static EP Inline(const Ex& e, const std::map<std::string, const Ex*>& defs) {
  if (e.k == K::Ref) { auto it = defs.find(e.name); if (it != defs.end()) return Inline(*it->second, defs); }
  EP c = gen::CloneEx(e);
  for (size_t i = 0; i < e.a.size(); ++i) c->a[i] = Inline(*e.a[i], defs);
  return c;
}
static Want Oracle(const Program& p, size_t i, const Rec& rec, bool output) {
  sim::NoYield ny;
  Want w;
  gen::Interp in;
  in.rec = &rec;
  in.stores = &w.stores;
  in.output = output;
  const Ex& e = *p.entries[i];
  if (p.kind == Kind::Expr) {
    std::map<std::string, const Ex*> defs;
    std::vector<EP> keep;
    for (size_t s = 0; s + 1 < e.a.size(); ++s) {
      keep.push_back(Inline(*e.a[s], defs));
      defs[e.vn[s]] = keep.back().get();
    }
    EP x = Inline(*e.a.back(), defs);
    w.val = gen::ShowVal(in.Eval(*x));
  } else if (p.types[i] == VT::kVoid) {
    in.Stmts(e, true);
  } else {
    w.val = gen::ShowVal(in.Eval(e));
  }
  w.trace = std::move(in.trace);
  w.errs = std::move(in.errs);
  w.berrs = std::move(in.berrs);
  return w;
}
// Order of evaluation that the program prescribes: conditions before the alternatives, statements one after the other,
// arguments before the call.
static std::pair<int, int> OrderSpan(const Ex& e, const std::map<int32_t, int>& pos, std::string* bad) {
  std::pair<int, int> all{1 << 30, -1};
  bool seq = e.k == K::If || e.k == K::Switch || e.k == K::When || e.k == K::Noop ||
             (e.k == K::Bin && (e.op == (int)BinaryOPType::kAnd || e.op == (int)BinaryOPType::kOr));
  for (auto& c : e.a) {
    auto s = OrderSpan(*c, pos, bad);
    if (s.second < 0) continue;
    if (seq && s.first < all.second) *bad = "call at position " + std::to_string(s.first) + " of the log ran before the condition or statement in front of it (position " + std::to_string(all.second) + ")";
    all = {std::min(all.first, s.first), std::max(all.second, s.second)};
  }
  if (e.k == K::Call && !e.a.empty() && (e.name.rfind("chk_", 0) == 0 || e.name == "own") && e.a.back()->k == K::Const)
    if (auto* t = std::get_if<int32_t>(&e.a.back()->cv)) {
      auto it = pos.find(*t);
      if (it != pos.end()) {
        if (it->second < all.second) *bad = "a function ran before its arguments";
        all = {std::min(all.first, it->second), std::max(all.second, it->second)};
      }
    }
  return all;
}
static std::vector<std::string> Parts(std::string m) {
  while (m.rfind("Runtime Error: ", 0) == 0) m = m.substr(15);
  std::vector<std::string> v;
  size_t p = 0;
  while (p <= m.size()) {
    size_t e = m.find("; ", p), b = m.find("| ", p);
    size_t q = std::min(e, b);
    std::string x = m.substr(p, q == std::string::npos ? std::string::npos : q - p);
    while (!x.empty() && x.back() == ' ') x.pop_back();
    if (!x.empty()) v.push_back(x);
    if (q == std::string::npos) break;
    p = q + 2;
  }
  return v;
}
// `shared`: tokens that occur in several pipelines; grouping may evaluate such a call once for all of them
static void CompareWant(const std::vector<Want>& ws, const Outcome& o, const Call& c, const Program& p, size_t entry, const std::set<int32_t>& shared) {
  auto bad = [&](const char* cls, const std::string& m) {
    std::string w;
    for (auto& x : ws) {
      w += "\n  reading of the program: value " + x.val + " errors[";
      for (auto t : x.errs) w += std::to_string(t) + " ";
      for (auto& t : x.berrs) w += t + " ";
      w += "] calls[";
      for (auto t : x.trace) w += std::to_string(t) + " ";
      w += "] stores[";
      for (auto& s : x.stores) w += std::to_string(s.slot) + "=" + s.val + " ";
      w += "]";
    }
    sim::Violate(cls, c.Str() + ": " + m + w + "\n  got " + o.Str() + "\nprogram:\n" + p.Source());
  };
  bool expr = p.kind == Kind::Expr;
  std::map<int32_t, int> want_n, got_n;
  std::set<int32_t> werr;
  std::set<std::string> wb;
  size_t nb = 0;
  for (auto& w : ws) {
    for (auto t : w.trace) want_n[t]++;
    for (auto t : w.errs) werr.insert(t);
    for (auto& b : w.berrs) { wb.insert(b); nb++; }
  }
  for (auto t : o.trace) got_n[t]++;
  for (auto& [t, n] : want_n) if (!got_n.count(t)) bad("selected-not-run", "call " + std::to_string(t) + " was not made although the program selects it");
  for (auto& [t, n] : got_n) {
    auto it = want_n.find(t);
    if (it == want_n.end()) bad("unselected-run", "call " + std::to_string(t) + " was made although the program does not select it");
    if (n > it->second || (n < it->second && !expr && !shared.count(t))) bad("call-count", "call " + std::to_string(t) + " was made " + std::to_string(n) + " times instead of " + std::to_string(it->second));
  }
  // status and errors
  bool want_ok = werr.empty() && wb.empty();
  if (o.ok != want_ok) bad(want_ok ? "unselected-error" : "error-lost", want_ok ? "the execution failed although nothing that is selected fails: {" + o.msg + "}" : "the execution returned OK although a selected call fails");
  if (!o.ok) {
    auto parts = Parts(o.msg);
    std::set<int32_t> ge;
    size_t toks = 0;
    for (auto t : world::ErrorTokens(o.msg)) { ge.insert(t); toks++; }
    if (ge != werr) bad("errors-differ", "the error text does not name exactly the selected failing calls: {" + o.msg + "}");
    size_t others = parts.size() >= toks ? parts.size() - toks : 0;
    if (others < wb.size() || others > nb) bad("errors-differ", "the error text holds " + std::to_string(others) + " errors of built-in functions, the selected calls raise " + std::to_string(nb) + ": {" + o.msg + "}");
    if (!wb.empty()) sim::Fired(sim::F_BUILTIN_ERROR, others);
  } else if (!c.voidp && p.kind != Kind::Pipe && p.types[entry] != VT::kVoid) {
    if (o.vals.size() != 1 || o.vals[0] != ws[0].val) bad("value-differs", "the program returned " + (o.vals.empty() ? std::string("nothing") : o.vals[0]));
  }
  // stores
  if (p.kind == Kind::Pipe) {
    size_t total = 0;
    for (auto& w : ws) {
      total += w.stores.size();
      if (w.stores.empty()) continue;
      int pipe = w.stores[0].slot / 1000;
      std::vector<const world::StoreRec*> mine;
      for (auto& s : o.stores) if (s.slot / 1000 == pipe) mine.push_back(&s);
      bool same = mine.size() == w.stores.size();
      for (size_t i = 0; same && i < mine.size(); ++i) same = mine[i]->slot == w.stores[i].slot && mine[i]->val == w.stores[i].val;
      if (!same) bad("stores-differ", "the stores of pipeline " + std::to_string(pipe) + " are not those its statements describe");
    }
    if (o.stores.size() != total) bad("stores-differ", std::to_string(o.stores.size()) + " stores were made instead of " + std::to_string(total));
  } else {
    auto& w = ws[0].stores;
    bool same = w.size() == o.stores.size();
    for (size_t i = 0; same && i < w.size(); ++i) same = w[i].slot == o.stores[i].slot && w[i].val == o.stores[i].val;
    if (!same) bad("stores-differ", "the stores are not those the statements describe");
  }
  // order
  if (!expr) {
    std::map<int32_t, int> pos;
    for (size_t i = 0; i < o.trace.size(); ++i) if (!shared.count(o.trace[i])) pos[o.trace[i]] = (int)i;
    std::string why;
    if (p.kind == Kind::Pipe) for (auto& e : p.entries) OrderSpan(*e, pos, &why);
    else OrderSpan(*p.entries[entry], pos, &why);
    if (!why.empty()) bad("evaluation-order", why);
  }
}
static void Arm(Rec* rec, std::vector<int32_t> t) {
  std::sort(t.begin(), t.end());
  t.erase(std::unique(t.begin(), t.end()), t.end());
  rec->armed = std::move(t);
}
// arms failures where they matter: only in what is not selected, in exactly one selected call, or as generated
static void PlaceFailures(Rng& r, Rec* rec, const Program& p, const std::vector<size_t>& entries) {
  int how = (int)r.Below(5);
  if (how == 0) return;
  if (how == 1) { Arm(rec, {}); return; }
  std::vector<int32_t> save = rec->armed;
  Arm(rec, {});
  std::set<int32_t> sel;
  for (size_t i : entries) { Want w = Oracle(p, i, *rec, true); sel.insert(w.trace.begin(), w.trace.end()); }
  std::vector<int32_t> un, se;
  for (int32_t t : p.tokens) (sel.count(t) ? se : un).push_back(t);
  if (how <= 3) {
    if (!un.empty()) sim::Hit(sim::PR_UNSELECTED_ARMED);
    if (how == 3 && !se.empty()) { un.push_back(se[r.Below(se.size())]); sim::Hit(sim::PR_SELECTED_ARMED); }
    Arm(rec, un);
  } else if (!se.empty()) {
    std::vector<int32_t> a;
    int n = 1 + (int)r.Below(2);
    for (int i = 0; i < n; ++i) a.push_back(se[r.Below(se.size())]);
    sim::Hit(sim::PR_SELECTED_ARMED);
    Arm(rec, a);
  }
}

// runs jobs sequentially through one context, or split over threads
static void RunJobs(Rng& r, size_t n, bool conc, int64_t chunk, const std::function<Outcome(size_t, ExecContext*)>& job) {
  if (!conc) {
    ExecContext ctx(chunk);
    for (size_t i = 0; i < n; ++i) LogOutcome(job(i, &ctx));
    return;
  }
  int nt = 2 + (int)r.Below(3);
  std::vector<std::function<void()>> fns;
  std::vector<std::vector<Outcome>> out(nt);
  for (int t = 0; t < nt; ++t)
    fns.push_back([&, t] {
      std::unique_ptr<ExecContext> ctx;
      { sim::NoYield ny; ctx = std::make_unique<ExecContext>(chunk); }
      for (size_t i = 0; i < n; ++i) if ((i + t) % nt == 0 || (i + t) % nt == 1) out[t].push_back(job(i, ctx.get()));
    });
  sim::RunThreads(fns, sim::RandomSched(r), r.Fork(7));
  for (auto& v : out) for (auto& o : v) LogOutcome(o);
}

// ------------------------------------------------------------------ C12
void C12(Rng r) {
  static const Kind ks[] = {Kind::Single, Kind::Single, Kind::Single, Kind::Batch, Kind::Batch, Kind::Expr, Kind::Expr, Kind::Pipe};
  Kind k = ks[r.Below(8)];
  gen::Opts go = InterpGen(r);
  go.cond_bias = 2 + (int)r.Below(5);
  go.depth = 2 + (int)r.Below(sim::spec.thorough ? 4 : 3);
  go.fail_lists = r.P(0.5);
  static const double c[] = {0.2, 0.4, 0.6};
  go.chk = c[r.Below(3)];
  bool stm = k == Kind::Pipe || (k != Kind::Expr && r.P(0.4));
  int n = k == Kind::Batch ? Entries(r, go, 1 + (int)r.Below(4)) : k == Kind::Pipe ? 1 + (int)r.Below(2) : 1;
  Program p = gen::MakeProgram(k, r.Fork(1), go, n, 100000, stm);
  ExecEngineOption opt = RandOpt(r, false);
  Eng e(k, opt);
  CompileGood(e, p, *g_reg);
  world::RecOpts ro = RandRec(r, true);
  struct Job { Call c; std::unique_ptr<Rec> rec; size_t entry; std::vector<Want> want; };
  std::vector<Job> jobs;
  int nc = 6 + (int)r.Below(12);
  for (int i = 0; i < nc; ++i) {
    Rng cr = r.Fork(100 + i);
    if (!sim::KeepElem()) continue;
    Job j;
    j.c = RandCall(cr, p, ro);
    if (k == Kind::Batch) { j.c.entry = (int)cr.Below(p.entries.size()); j.c.voidp = p.types[j.c.entry] == VT::kVoid && cr.P(0.85); }
    j.entry = k == Kind::Batch ? (size_t)j.c.entry : 0;
    j.rec = world::MakeRec(j.c.rec_seed, p.tokens, ro);
    std::vector<size_t> es;
    if (k == Kind::Pipe) for (size_t q = 0; q < p.entries.size(); ++q) es.push_back(q); else es.push_back(j.entry);
    PlaceFailures(cr, j.rec.get(), p, es);
    for (size_t q : es) j.want.push_back(Oracle(p, q, *j.rec, j.c.voidp));
    jobs.push_back(std::move(j));
  }
  bool conc = r.P(0.25);
  sim::SetOp("conditionals, %s", conc ? "concurrent" : "sequential");
  RunJobs(r, jobs.size(), conc, opt.exec_ctx_arena_alloc_min_chunk_size, [&](size_t i, ExecContext* ctx) {
    Job& j = jobs[i];
    std::unique_ptr<Rec> rec;
    { sim::NoYield ny; rec = world::ShareRec(*j.rec); rec->armed = j.rec->armed; if (!conc) sim::SetOp("execute %s", j.c.Str().c_str()); }
    Outcome o = world::Exec(e, j.c, p, ctx, rec.get());
    sim::NoYield ny;
    CompareWant(j.want, o, j.c, p, j.entry, {});
    return o;
  });
  Config((int)k * 2 + conc);
}

// ------------------------------------------------------------------ C11
static void Closed(const Ex& e, bool* ok) {
  if (e.k == K::Ref || e.k == K::When || e.k == K::Noop || (e.k == K::Call && (e.name.rfind("st_", 0) == 0 || e.name == "own"))) *ok = false;
  for (auto& c : e.a) Closed(*c, ok);
}
static void SubExprs(const Ex& e, std::vector<const Ex*>* out) {
  bool ok = true;
  Closed(e, &ok);
  if (ok && e.k != K::Const && e.k != K::CList && e.k != K::Arg && e.k != K::Out && e.k != K::Ctx && e.t != VT::kVoid && e.t != VT::kPtr) out->push_back(&e);
  for (auto& c : e.a) SubExprs(*c, out);
}
static void Tokens(const Ex& e, std::set<int32_t>* out) {
  if (e.k == K::Call && !e.a.empty() && (e.name.rfind("chk_", 0) == 0 || e.name == "own") && e.a.back()->k == K::Const)
    if (auto* t = std::get_if<int32_t>(&e.a.back()->cv)) out->insert(*t);
  for (auto& c : e.a) Tokens(*c, out);
}
static Program Compose(const Program& p, const std::vector<int>& order) {
  Program b;
  b.kind = p.kind; b.mark = p.mark; b.tokens = p.tokens;
  for (int i : order) { b.entries.push_back(gen::CloneEx(*p.entries[i])); b.types.push_back(p.types[i]); }
  return b;
}
void C11(Rng r) {
  gen::Opts go = InterpGen(r);
  go.cond_bias = (int)r.Below(4);
  go.fail_lists = r.P(0.3);
  go.share_tokens = true;
  int n = Entries(r, go, 1 + (int)r.Below(6));
  Program p = gen::MakeProgram(Kind::Pipe, r.Fork(1), go, n, 100000, true);
  n = (int)p.entries.size();
  // pipelines that share sub-expressions
  int grafts = r.P(0.6) ? 1 + (int)r.Below(5) : 0;
  for (int g = 0; g < grafts && n > 1; ++g) {
    Rng gr = r.Fork(600 + g);
    if (!sim::KeepElem()) continue;
    size_t from = gr.Below(n), to = gr.Below(n);
    std::vector<const Ex*> subs;
    SubExprs(*p.entries[from], &subs);
    if (subs.empty()) continue;
    const Ex* s = subs[gr.Below(subs.size())];
    Ex& dst = *p.entries[to];
    int base = std::get<int32_t>(dst.a[0]->a[1]->cv) / 1000 * 1000;
    auto st = std::make_unique<Ex>(K::Call, VT::kI32);
    st->name = std::string("st_") + gen::TName(s->t);
    st->a.push_back(std::make_unique<Ex>(K::Out, VT::kPtr));
    auto slot = std::make_unique<Ex>(K::Const, VT::kI32);
    slot->cv = (int32_t)(base + 900 + g);
    st->a.push_back(std::move(slot));
    st->a.push_back(gen::CloneEx(*s));
    size_t at = 1 + gr.Below(dst.a.size());
    dst.a.insert(dst.a.begin() + at, std::move(st));
    dst.vn.insert(dst.vn.begin() + at, "");
    dst.vc.insert(dst.vc.begin() + at, 0);
    sim::Hit(sim::PR_MERGED_GROUP);
  }
  std::map<int32_t, int> uses;
  std::set<int32_t> shared;
  for (auto& e : p.entries) {
    // a call may also be shared inside one pipeline
    std::function<void(const Ex&)> walk = [&](const Ex& x) {
      if (x.k == K::Call && !x.a.empty() && (x.name.rfind("chk_", 0) == 0 || x.name == "own") && x.a.back()->k == K::Const)
        if (auto* t = std::get_if<int32_t>(&x.a.back()->cv)) if (++uses[*t] > 1) shared.insert(*t);
      for (auto& c : x.a) walk(*c);
    };
    walk(*e);
  }
  // several engines over the same pipelines: as written, in another order, a part of them
  struct Var { Program p; std::unique_ptr<Eng> e; };
  std::vector<Var> vs;
  ExecEngineOption opt = RandOpt(r, false);
  int nv = 1 + (int)r.Below(3);
  for (int v = 0; v < nv; ++v) {
    std::vector<int> order;
    for (int i = 0; i < n; ++i) order.push_back(i);
    if (v > 0) {
      for (int i = n - 1; i > 0; --i) std::swap(order[i], order[r.Below(i + 1)]);
      if (r.P(0.5)) order.resize(1 + r.Below(n));
    }
    Var x;
    x.p = Compose(p, order);
    x.e = std::make_unique<Eng>(Kind::Pipe, opt);
    CompileGood(*x.e, x.p, *g_reg);
    vs.push_back(std::move(x));
  }
  world::RecOpts ro = RandRec(r, true);
  struct Job { int v; Call c; std::unique_ptr<Rec> rec; std::vector<Want> want; };
  std::vector<Job> jobs;
  int nc = 4 + (int)r.Below(8);
  for (int i = 0; i < nc; ++i) {
    Rng cr = r.Fork(100 + i);
    if (!sim::KeepElem()) continue;
    Job j;
    j.v = (int)cr.Below(vs.size());
    const Program& q = vs[j.v].p;
    j.c = RandCall(cr, q, ro);
    j.rec = world::MakeRec(j.c.rec_seed, q.tokens, ro);
    std::vector<size_t> es;
    for (size_t x = 0; x < q.entries.size(); ++x) es.push_back(x);
    PlaceFailures(cr, j.rec.get(), q, es);
    for (size_t x : es) j.want.push_back(Oracle(q, x, *j.rec, true));
    jobs.push_back(std::move(j));
  }
  bool conc = r.P(0.35);
  sim::SetOp("pipelines, %s", conc ? "concurrent" : "sequential");
  RunJobs(r, jobs.size(), conc, opt.exec_ctx_arena_alloc_min_chunk_size, [&](size_t i, ExecContext* ctx) {
    Job& j = jobs[i];
    std::unique_ptr<Rec> rec;
    { sim::NoYield ny; rec = world::ShareRec(*j.rec); rec->armed = j.rec->armed; if (!conc) sim::SetOp("execute %s", j.c.Str().c_str()); }
    Outcome o = world::Exec(*vs[j.v].e, j.c, vs[j.v].p, ctx, rec.get());
    sim::NoYield ny;
    CompareWant(j.want, o, j.c, vs[j.v].p, 0, shared);
    return o;
  });
  Config(n * 8 + nv * 2 + conc);
}

// ------------------------------------------------------------------ C10
__attribute__((noinline)) static void ScribbleStack(uint64_t seed) {
  size_t n = 96 << 10;
  auto* p = (volatile uint64_t*)alloca(n);
  for (size_t i = 0; i < n / 8; ++i) p[i] = seed ? sim::Mix(seed + i / 3) : 0;
}
// allocates and releases memory so that what was freed before is reused and overwritten
static void Churn(Rng r, int rounds) {
  std::vector<std::pair<char*, size_t>> v;
  for (int i = 0; i < rounds; ++i) {
    size_t n = 1 + r.Below(r.P(0.2) ? 4000 : 160);
    char* p = new char[n];
    memset(p, (int)(0x41 + r.Below(60)), n);
    v.push_back({p, n});
    if (r.P(0.4)) { size_t k = r.Below(v.size()); delete[] v[k].first; v[k] = v.back(); v.pop_back(); }
  }
  for (auto& x : v) delete[] x.first;
}
void C10(Rng r) {
  Kind k = RandKind(r);
  gen::Opts go = r.P(0.25) ? InterpGen(r) : RandGen(r);
  int n = k == Kind::Single || k == Kind::Expr ? 1 : Entries(r, go, 1 + (int)r.Below(4));
  bool stm = k == Kind::Pipe || (k != Kind::Expr && r.P(0.3));
  Program p = gen::MakeProgram(k, r.Fork(1), go, n, 100000, stm);
  bool savable = k == Kind::Single || k == Kind::Batch;
  ExecEngineOption opt = RandOpt(r, savable && r.P(0.5), r.P(0.1));
  world::RecOpts ro = RandRec(r, go.interp);
  std::vector<Call> calls;
  int nc = 3 + (int)r.Below(5);
  for (int i = 0; i < nc; ++i) { Rng cr = r.Fork(100 + i); Call c = RandCall(cr, p, ro); if (sim::KeepElem()) calls.push_back(c); }
  if (calls.empty()) return;
  Eng ref(k, opt);
  CompileGood(ref, p, *g_reg, "reference program");
  auto want = SoloOutcomes(ref, p, calls);
  for (auto& o : want) LogOutcome(o);

  // ---- everything the compile used is destroyed, its memory overwritten and reused
  {
    sim::HeapCfg hc = sim::RandomHeap(r);
    hc.free_fill = 1 + (int)r.Below(2);
    hc.reuse = (int)r.Below(3);
    sim::HeapConfigure(hc, r.U64());
    sim::Fired(sim::F_LIFETIME_KILL);
    int how = (int)r.Below(savable && opt.enable_save_compiled ? 3 : 2);
    auto eng = std::make_unique<Eng>(k, opt);
    Registry reg = world::MakeRegistry((int)r.Below(2));
    if (r.P(0.3)) {   // something very similar was compiled before, by this engine or by another one
      Program q = gen::NearCopy(p, r.Fork(61), go);
      sim::SetOp("compile a near copy first");
      if (r.P(0.5)) CompileGood(*eng, q, reg, "near copy");
      else { Eng o2(k, opt); CompileGood(o2, q, reg, "near copy"); }
    }
    sim::SetOp("compile from inputs that will be destroyed");
    St s = eng->Compile(p, reg);     // trees and texts are temporaries of this call
    if (!s.ok) sim::Violate("valid-program-rejected", s.msg + "\n" + p.Source());
    if (how == 2) {
      auto bytes = std::make_unique<std::string>();
      s = eng->Save(bytes.get());
      if (!s.ok) sim::Violate("save-failed", s.msg);
      auto e2 = std::make_unique<Eng>(k, opt);
      s = e2->Load(*bytes, reg);
      if (!s.ok) sim::Violate("load-failed", s.msg);
      eng = std::move(e2);           // the writer is gone, too
      std::fill(bytes->begin(), bytes->end(), (char)0xdd);
      bytes.reset();
      sim::Hit(sim::PR_LOAD_OK);
    }
    reg.reset();
    sim::SetOp("reuse the freed memory");
    Churn(r.Fork(21), 400);
    ScribbleStack(r.U64());
    ExecContext ctx(opt.exec_ctx_arena_alloc_min_chunk_size);
    for (int round = 0; round < 2; ++round) {
      for (size_t i = 0; i < calls.size(); ++i) {
        sim::SetOp("execute after the compile inputs were destroyed: %s", calls[i].Str().c_str());
        Outcome o = world::Exec(*eng, calls[i], p, &ctx);
        o.mask = want[i].mask;
        Check(want[i], o, calls[i], "depends-on-compile-inputs", how == 2 ? "artifact, registry and writer destroyed" : "tree, text and registry destroyed", p, false);
      }
      Churn(r.Fork(22 + round), 200);
      // another engine takes over whatever was released
      if (round == 0 && r.P(0.5)) {
        Eng other(Kind::Single, opt);
        gen::Opts g2;
        g2.depth = 1;
        Program q = gen::MakeProgram(Kind::Single, r.Fork(31), g2, 1, 200000, false, false);
        other.Compile(q, *g_reg);
      }
    }
  }
  // ---- the same program compiled under other layouts and memory contents
  int nl = 2 + (int)r.Below(2);
  for (int l = 0; l < nl; ++l) {
    Rng lr = r.Fork(800 + l);
    if (!sim::KeepElem()) continue;
    sim::HeapCfg hc = sim::RandomHeap(lr);
    hc.alloc_fill = l == 0 ? 2 : 1 + (int)lr.Below(2);
    sim::Fired(sim::F_HEAP_LAYOUT);
    sim::Fired(sim::F_HEAP_GARBAGE);
    std::string prev = sim::sh->op;
    auto got = world::Deserialize(world::RunInClone([&] {
      sim::HeapConfigure(hc, lr.U64());
      sim::MapPlacement(lr.U64(), lr.P(0.5));
      Churn(lr.Fork(1), 50 + (int)lr.Below(800));
      Registry reg;
      if (lr.P(0.5)) reg = world::MakeRegistry((int)lr.Below(2));
      ScribbleStack(lr.U64());
      sim::SetOp("compile under another memory layout");
      Eng e(k, opt);
      St s = e.Compile(p, reg ? reg : *g_reg);
      if (!s.ok) sim::Violate("valid-program-rejected", "under another memory layout: " + s.msg + "\n" + p.Source());
      std::vector<Outcome> v;
      for (auto& c : calls) {
        sim::SetOp("execute under another memory layout: %s", c.Str().c_str());
        ScribbleStack(lr.U64());
        v.push_back(world::Alone(e, c, p));
      }
      return world::Serialize(v);
    }, nullptr));
    sim::SetOp("%s", prev.c_str());
    if (got.size() != calls.size()) sim::Violate("sim-internal", "layout clone");
    for (size_t i = 0; i < calls.size(); ++i) Check(want[i], got[i], calls[i], "depends-on-memory-layout", "compiled again under layout " + std::to_string(l), p, false);
  }
  Config((int)k);
}
}  // namespace props
