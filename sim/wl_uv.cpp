// S01: the thread binding on simulated libuv threads: every call forwarded as it is, programs that are correct under the
// contract of mutexes and conditions finish with the right results under every schedule.
#include "wcall.h"
#include <map>
#include "simuv.h"
#include "wat_threads.h"
#include <algorithm>
#include <set>
extern "C" {
#include <pwart_syslib.h>
}
using namespace sim;
namespace {
const int P_SCRIPT = probe_kind("scripted thread"), P_NEST = probe_kind("thread started by a thread"), P_DEEP = probe_kind("threads with deep stacks"), P_QUEUE = probe_kind("bounded queue"), P_PING = probe_kind("two threads taking turns"),
  P_TRY = probe_kind("trylock loop"), P_TWO = probe_kind("two threads run at once"), P_RETRY = probe_kind("refused thread started later"), P_REINIT = probe_kind("mutex or condition asked for again"), P_NOLIB = probe_kind("library not opened for lack of memory");
const int F_MEM = fault_kind("memory for a thread, lock or library refused");
const uint64_t G1 = 0x1122334455667788ull, G2 = 0x0102030405060708ull;
enum { COUNT, PRODUCE, CONSUME, TRYCOUNT, SCRIPT, DEEP, PING };
pwart_module_state mod;
pwart_wasm_memory *mem;
struct Th { int kind, n, k; uint64_t tok; int begun = 0, ended = 0; uint8_t *fp = nullptr; };
std::vector<Th *> all;
std::vector<uint64_t> ms, cs;                    // shared by the scripts
int budget;                                      // threads scripts may still start
std::vector<UvRec> &hist() { return simuv.hist[cur()]; }
std::map<int, bool> spawning;                    // fibers that start a thread: was memory refused to them
int mem_pct = 0;
bool refuse(Domain d, const char *, size_t) {
  auto it = spawning.find(cur());
  if (it == spawning.end() || (d != D_SYSLIB && d != D_PW) || (int)draw(FAULT, 100) < 100 - mem_pct) return false;
  fired(F_MEM); it->second = true;
  return true;
}
struct Caller {                                  // calls the module's thunks on a runtime stack of its own
  uint8_t *at;
  std::vector<uint64_t> run(const char *name, const std::vector<wc::V> &a, const char *res, const char *op, UvRec *out = nullptr) {
    hist().clear();
    set_context("%s", name);
    auto o = wc::call(wc::fn(mod, name), at + 16 * opd(4), a, res);
    if (o[0] != G1 || o.back() != G2) violation("operands", "%s lost operands of its caller", name);
    auto &h = hist();
    if (spawning.count(cur()) && spawning[cur()] && h.empty()) { if (out) *out = UvRec{op}; return o; }
    if (h.size() != 1 || strcmp(h[0].op, op)) violation("calls", "%s made %zu calls, the first %s", name, h.size(), h.empty() ? "none" : h[0].op);
    if (out) *out = h[0];
    return o;
  }
  void handle(const UvRec &r, uint64_t h, const char *name) { if ((uint64_t)r.h != h) violation("handle", "%s acted on another object", name); }
  // a new mutex or condition; null exactly if memory was refused or libuv failed, and then asked for again
  uint64_t init(const char *name, const char *op, const char *what) {
    for (int k = 0;; k++) {
      UvRec r;
      if (mem_pct && k < 5) spawning[cur()] = false;
      if (k >= 5) simuv.init_refuse_pct = 0;
      auto o = run(name, {}, "lrl", op, &r);
      bool nomem = spawning.count(cur()) && spawning[cur()];
      spawning.erase(cur());
      if (nomem || r.res) {
        if (o[1]) violation("handle", "a %s that could not be set up was handed out", what);
        logf("t%d no new %s", cur(), what);
        hit(P_REINIT);
        yield_point("retry");
        continue;
      }
      if (!o[1] || (uint64_t)r.out != o[1]) violation("handle", "a new %s is not the one initialised", what);
      logf("t%d new %s", cur(), what);
      return o[1];
    }
  }
  uint64_t minit() { return init("minit", "mutex_init", "mutex"); }
  uint64_t cinit() { return init("cinit", "cond_init", "condition"); }
  void simple(const char *name, const char *op, uint64_t h) { UvRec r; run(name, {wc::r(h)}, "ll", op, &r); handle(r, h, name); logf("t%d %s", cur(), name); }
  void wait(uint64_t c, uint64_t m) { UvRec r; logf("t%d wait", cur()); run("wait", {wc::r(c), wc::r(m)}, "ll", "cond_wait", &r); handle(r, c, "wait"); if ((uint64_t)r.h2 != m) violation("handle", "wait used another mutex"); logf("t%d woken", cur()); }
  bool trylock(uint64_t m) {
    UvRec r; auto o = run("trylock", {wc::r(m)}, "lil", "mutex_trylock", &r); handle(r, m, "trylock");
    logf("t%d trylock %d", cur(), r.res);
    if ((r.res == 0) != ((uint32_t)o[1] == 0)) violation("trylock", "trylock says %d but the lock was %s", (int)o[1], r.res ? "not taken" : "taken");
    if ((int)o[1] != r.res) violation("trylock", "trylock returned %d instead of %d", (int)o[1], r.res);
    return r.res == 0;
  }
  bool spawn(Th *t) {
    UvRec r;
    uint64_t refused = simuv.refused;
    if (mem_pct) spawning[cur()] = false;
    auto o = run("spawn", {wc::l(t->tok)}, "lrl", "thread_create", &r);
    bool nomem = spawning.count(cur()) && spawning[cur()];
    spawning.erase(cur());
    if (nomem) {
      simuv.refused++;
      logf("t%d start refused for lack of memory", cur());
      if (o[1] || !hist().empty()) violation("thread-refused", "a thread start without memory was not reported as refused");
      return false;
    }
    logf("t%d start kind %d n %d k %d: %s", cur(), t->kind, t->n, t->k, r.res ? "refused" : "started");
    (void)refused;
    if (r.res && o[1]) violation("thread-refused", "a refused thread start was reported as a started thread");
    if (!r.res && !o[1]) violation("thread-started", "a started thread was reported as refused");
    return !r.res;
  }
  void library() {
    static const char *N[] = {"libone.so", "/usr/lib/libtwo.so.6", "c.dll", "missing", ""};
    static const char *S[] = {"f", "some_symbol", "?gone", "x"};
    uint32_t off = 20000 + 64 * cur();
    const char *n = N[opd(5)]; strcpy((char *)mem->bytes + off, n);
    UvRec r;
    if (mem_pct) spawning[cur()] = false;
    auto o = run("dlopen", {wc::i(off)}, "lril", "dlopen", &r);
    bool nomem = spawning.count(cur()) && spawning[cur()];
    spawning.erase(cur());
    if (nomem) {
      logf("t%d library refused for lack of memory", cur());
      hit(P_NOLIB);
      if (o[1] || !(int)o[2]) violation("library", "a library was opened without memory for it");
      if (!opd(2)) return;
      hist().clear();                            // closing what was never opened does nothing
      o = wc::call(wc::fn(mod, "dlclose"), at, {wc::r((uint64_t)0)}, "ll");
      if (!hist().empty()) violation("library", "a library that was never opened was closed");
      return;
    }
    if (r.name != n) violation("library", "library '%s' was opened instead of '%s'", r.name.c_str(), n);
    if ((uint64_t)r.out != o[1] || (int)o[2] != r.res) violation("library", "opening a library reported something else than its outcome");
    uint64_t lib = o[1];
    logf("t%d open %s: %d", cur(), n, r.res);
    for (int i = opd(3); i > 0 && !r.res; i--) {
      const char *s = S[opd(4)]; strcpy((char *)mem->bytes + off, s);
      UvRec q;
      o = run("dlsym", {wc::r(lib), wc::i(off)}, "lril", "dlsym", &q);
      handle(q, lib, "dlsym");
      if (q.name != s) violation("library", "symbol '%s' was looked up instead of '%s'", q.name.c_str(), s);
      if ((uint64_t)q.out != o[1] || (int)o[2] != q.res) violation("library", "looking up a symbol reported something else than its outcome");
    }
    UvRec c; run("dlclose", {wc::r(lib)}, "ll", "dlclose", &c); handle(c, lib, "dlclose");
  }
};
Th *plan(int kind, int n, int k) {
  Th *t = new Th{kind, n, k, 0};
  t->tok = (uint64_t)(uint32_t)n | (uint64_t)kind << 32 | (uint64_t)(uint8_t)k << 40 | (uint64_t)all.size() << 48 | (uint64_t)opd(2) << 63;
  all.push_back(t);
  return t;
}
Th *by_token(uint64_t tok) { for (auto *t : all) if (t->tok == tok) return t; return nullptr; }
void start(Caller &c, Th *t) { while (!c.spawn(t)) { hit(P_RETRY); if (simuv.refused > 6) simuv.refuse_pct = mem_pct = 0; yield_point("retry"); } }
void h_begin(void *fp) {
  void *sp = fp;
  uint64_t tok = (uint64_t)pwart_rstack_get_i64(&sp);
  Th *t = by_token(tok);
  if (!t) violation("thread-argument", "a thread got the argument 0x%llx nobody passed", (unsigned long long)tok);
  if (t->begun++) violation("thread-twice", "a thread ran its entry function twice");
  if (std::find(simuv.threads.begin(), simuv.threads.end(), cur()) == simuv.threads.end()) violation("thread-place", "a thread entry runs in the thread that started it");
  t->fp = (uint8_t *)fp;
  if (!heap_range_live(fp, 16384)) violation("thread-stack", "a thread runs outside any allocated runtime stack");
  for (auto *o : all) if (o != t && o->fp && !o->ended) {
    hit(P_TWO);
    size_t d = o->fp < t->fp ? t->fp - o->fp : o->fp - t->fp;
    if (d < 16384) violation("thread-stack", "two threads run on one runtime stack");
  }
  logf("begin %d", t->kind);
}
void h_end(void *fp) {
  void *sp = fp;
  uint64_t tok = (uint64_t)pwart_rstack_get_i64(&sp);
  Th *t = by_token(tok);
  if (!t || !t->begun) violation("thread-argument", "a thread's argument changed to 0x%llx", (unsigned long long)tok);
  if (t->ended++) violation("thread-twice", "a thread ended twice");
  op_mark();
}
void h_yield(void *) { yield_point("program"); }
void h_bad(void *fp) { void *sp = fp; uint64_t a = pwart_rstack_get_i64(&sp); (void)a; violation("thread-stack", "locals of a thread changed while others ran"); }
void h_script(void *fp) {
  void *sp = fp;
  uint64_t tok = (uint64_t)pwart_rstack_get_i64(&sp);
  Th *t = by_token(tok);
  if (!t) violation("thread-argument", "a thread got the argument 0x%llx nobody passed", (unsigned long long)tok);
  hit(P_SCRIPT);
  Caller c{(uint8_t *)fp + 64};
  std::vector<size_t> held;
  auto max = [&] { size_t m = 0; for (size_t x : held) m = std::max(m, x + 1); return m; };
  auto has = [&](size_t i) { return std::find(held.begin(), held.end(), i) != held.end(); };
  for (int i = 0; i < t->n; i++) {
    op_mark();
    switch (opd(11)) {
      case 0: case 1: { size_t lo = max(); if (lo < ms.size()) { size_t m = lo + opd(ms.size() - lo); c.simple("lock", "mutex_lock", ms[m]); held.push_back(m); } break; }
      case 2: case 3: if (!held.empty()) { size_t k = opd(held.size()); size_t m = held[k]; held.erase(held.begin() + k); c.simple("unlock", "mutex_unlock", ms[m]); } break;
      case 4: case 5: { size_t m = opd(ms.size()); if (!has(m) && c.trylock(ms[m])) held.push_back(m); break; }
      case 6: if (held.size() == 1 && !cs.empty()) c.wait(cs[opd(cs.size())], ms[held[0]]); break;
      case 7: if (!cs.empty()) c.simple("signal", "cond_signal", cs[opd(cs.size())]); break;
      case 8: switch (opd(4)) {
        case 0: { uint64_t m = c.minit(); c.simple("lock", "mutex_lock", m); if (c.trylock(m)) violation("trylock", "a held lock was taken again"); c.simple("unlock", "mutex_unlock", m); c.simple("mdestroy", "mutex_destroy", m); break; }
        case 1: { uint64_t x = c.cinit(); c.simple("signal", "cond_signal", x); c.simple("cdestroy", "cond_destroy", x); break; }
        case 2: { auto o = c.run("version", {}, "lil", "version"); if ((uint32_t)o[1] != UV_VERSION_HEX) violation("version", "version 0x%x", (uint32_t)o[1]); break; }
        default: c.library();
      } break;
      case 9: if (budget > 0) { budget--; hit(P_NEST); Th *n = plan(opd(2) ? SCRIPT : DEEP, 1 + opd(6), 0); if (!c.spawn(n)) { n->ended = n->begun = -1; } } break;
      default: yield_point("script");
    }
  }
  while (!held.empty()) { size_t m = held.back(); held.pop_back(); c.simple("unlock", "mutex_unlock", ms[m]); }
}
void run_s01() {
  simuv.refuse_pct = opd(3) == 2 ? 20 + opd(60) : 0;
  mem_pct = opd(4) == 3 ? 20 + opd(40) : 0;
  simuv.init_refuse_pct = opd(4) == 3 ? 20 + opd(40) : 0;
  heapcfg.refuse = refuse;
  simuv.spurious_pct = opd(3) == 2 ? 10 + opd(50) : 0;
  size_t base_pw = heap_live(D_PW), base_sy = heap_live(D_SYSLIB), base_jit = heap_live(D_SLJIT);
  uint64_t seq = heap_seq();
  wc::config();
  pwart_namespace ns = pwart_namespace_new();
  auto *uv = pwart_libuv_module_new();
  pwart_namespace_define_host_module(ns, "libuv", uv);
  static const char *names[] = {"begin", "end", "script", "yield", "bad"};
  static pwart_host_function_c fns[] = {h_begin, h_end, h_script, h_yield, h_bad};
  auto *env = pwart_namespace_new_host_module(names, fns, 5);
  pwart_namespace_define_host_module(ns, "env", env);
  mod = wc::load(ns, "prog", wat_threads, sizeof wat_threads);
  mem = pwart_get_export_memory(mod, "mem");
  Caller c{(uint8_t *)pwart_allocate_stack(16384)};
  uint8_t *stack = c.at;
  uint64_t m = c.minit(), nf = c.cinit(), ne = c.cinit();
  uint32_t cap = 1 + opd(4);
  { auto f = wc::fn(mod, "set"); wc::call(f, c.at, {wc::r(m), wc::r(nf), wc::r(ne), wc::i(cap)}, ""); }
  // what to run
  uint64_t count = 0, sum = 0; int items = 0, consumers = 0;
  std::vector<Th *> ts;
  uint32_t style = opd(5);
  budget = 0;
  if (style != 3 || opd(2)) for (int i = opd(4); i > 0; i--) { int n = opd(8); bool tr = opd(3) == 1; if (tr) hit(P_TRY); ts.push_back(plan(tr ? TRYCOUNT : COUNT, n, 0)); count += n; }
  if (style == 1 || style == 2) {
    hit(P_QUEUE);
    int np = 1 + opd(3);
    for (int i = 0; i < np; i++) { int n = 1 + opd(8); ts.push_back(plan(PRODUCE, n, i + 1)); items += n; for (int k = 0; k < n; k++) sum += (i + 1) * 1000 + k; }
    int left = items;
    for (int nc = 1 + opd(3); nc > 0; nc--) { int n = nc == 1 ? left : opd(left + 1); left -= n; ts.push_back(plan(CONSUME, n, consumers++)); }
  } else if (style == 4) { hit(P_PING); int n = 1 + opd(8); count += 2 * n; ts.push_back(plan(PING, n, 0)); ts.push_back(plan(PING, n, 1)); }
  if (style == 3 || opd(3) == 2) {
    for (int i = 1 + opd(3); i > 0; i--) ms.push_back(c.minit());
    for (int i = 1 + opd(2); i > 0; i--) cs.push_back(c.cinit());
    budget = opd(4);
    for (int i = 1 + opd(3); i > 0; i--) ts.push_back(plan(SCRIPT, 4 + opd(20), 0));
  }
  if (opd(3) == 2) { hit(P_DEEP); for (int i = 1 + opd(2); i > 0; i--) ts.push_back(plan(DEEP, 1 + opd(opd(3) == 2 ? 300 : 20), 0)); }
  if (ts.empty()) ts.push_back(plan(COUNT, 3, 0)), count += 3;
  for (size_t i = ts.size(); i > 1; i--) std::swap(ts[i - 1], ts[opd(i)]);
  on_deadlock([] {                                // scripts wait without anyone promising a signal: they may wake by themselves
    for (auto &x : simuv.conds) if (std::find(cs.begin(), cs.end(), (uint64_t)x.first) != cs.end() && !x.second->waiting.empty()) return simuv.woken(x.second->waiting[0]);
    return false;
  });
  static const uint32_t Q[] = {0, 5, 20, 100, 500};
  set_sched({Q[opd(5)], opd(4) == 1});
  for (auto *t : ts) { op_mark(); start(c, t); }
  for (size_t i = 0; i < simuv.threads.size(); i++) join(simuv.threads[i]);
  set_sched({0, false});
  for (auto *t : all) {
    if (t->begun < 0) continue;
    if (!t->begun) violation("thread-missing", "a started thread never ran its entry function");
    if (!t->ended) violation("thread-missing", "a thread ended before its entry function did");
  }
  uint64_t got; memcpy(&got, mem->bytes, 8);
  if (got != count) violation("result", "the threads counted to %llu instead of %llu under a mutex", (unsigned long long)got, (unsigned long long)count);
  uint64_t s = 0; for (int i = 0; i < consumers; i++) { memcpy(&got, mem->bytes + 4096 + 8 * i, 8); s += got; }
  if (s != sum) violation("result", "the consumers got %llu instead of %llu", (unsigned long long)s, (unsigned long long)sum);
  uint32_t left; memcpy(&left, mem->bytes + 8, 4);
  if (left) violation("result", "%u items are left in the queue", left);
  ms.push_back(m); cs.push_back(nf); cs.push_back(ne);
  for (uint64_t x : ms) c.simple("mdestroy", "mutex_destroy", x);
  for (uint64_t x : cs) c.simple("cdestroy", "cond_destroy", x);
  for (auto &x : simuv.mutexes) if (x.second->alive) violation("uv-left", "a mutex was not destroyed");
  for (auto &x : simuv.conds) if (x.second->alive) violation("uv-left", "a condition was not destroyed");
  pwart_free_stack(stack);
  if (char *e = pwart_namespace_delete(ns)) violation("delete", "deleting the namespace failed: %s", e);
  if (char *e = pwart_libuv_module_delete(uv)) violation("delete", "deleting the module failed: %s", e);
  pwart_namespace_delete_host_module(env);
  if (heap_live(D_PW) != base_pw || heap_live(D_SYSLIB) != base_sy || heap_live(D_SLJIT) != base_jit) violation("thread-leak", "%zu blocks are left after all threads ended: %s", heap_live(D_PW) - base_pw + heap_live(D_SYSLIB) - base_sy, heap_describe_live(seq).c_str());
}
Reg reg({"S01", run_s01, "exploration", "distinct event logs: thread starts, lock and condition operations of all threads in the order the schedule gave them",
  60000, 1500000, "the thread binding of pwart_syslib, compiled WebAssembly programs using it, compiler and runtime", "libuv (threads, mutexes, conditions, libraries on the simulated scheduler), heap and executable memory",
  {"programs respect the contract of libuv: no unlock of a lock they do not hold, no use after destroy", "threads are simulated on one core: sequentially consistent memory"}});
}
