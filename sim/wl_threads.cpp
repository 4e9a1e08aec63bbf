// T01: threads that load, run and free modules of their own at the same time, interleaved at single memory accesses.
#include "drv.h"
#include <cstring>
extern "C" void sljit_free_unused_memory_exec(void);
using namespace sim;
using namespace drv;
static const int F_JIT = fault_kind("code generator refused memory in one thread"), F_EXE = fault_kind("executable memory refused in one thread"), F_BAD = fault_kind("refused module in one thread");
static const int P_FIRST = probe_kind("builtins first used while another thread uses them"), P_IN = probe_kind("switch inside a load"), P_RUN = probe_kind("switch inside a removal"),
  P_CALLED = probe_kind("call while another thread loads"), P_FAIL = probe_kind("failed load while others work"), P_TRIM = probe_kind("executable memory trimmed while others work");
static const char *NAMES[] = {"version", "memory_alloc", "memory_free", "load_module", "unload_module", "import", "get_self_runtime_context", "native_index_size", "ref_from_index", "ref_copy_bytes",
  "ref_string_length", "ref_from_i64", "i64_from_ref", "host_definition", "fread", "fwrite", "fopen", "fclose", "stdio", "native_memory"};
struct Thread { Space *sp = nullptr; int id = 0, n = 0; std::vector<RMod *> own; uint64_t jit = 0, exe = 0; bool refused = false, loading = false; };
static std::map<int, Thread *> th;                  // by fiber
static bool (*engine_refuse)(Domain, const char *, size_t);
static Thread *me() { auto it = th.find(cur()); return it == th.end() ? nullptr : it->second; }
static bool refuse(Domain d, const char *f, size_t n) {
  Thread *t = me();
  if (t && t->jit && d == D_SLJIT && --t->jit == 0) { fired(F_JIT); t->refused = true; return true; }
  return engine_refuse(d, f, n);
}
static bool refuse_exec(size_t) { Thread *t = me(); if (t && t->exe && --t->exe == 0) { fired(F_EXE); t->refused = true; return true; } return false; }
static std::map<std::string, std::pair<int, void *>> first;
static int inbuiltins;
static bool touched;
static void builtins(Thread &t) {
  logf("t%d builtin symbols", t.id);
  set_context("asking for the builtin symbols");
  if (!touched && inbuiltins) hit(P_FIRST);
  inbuiltins++;
  int n = -1;
  auto *s = pwart_get_builtin_symbols(&n);
  inbuiltins--; touched = true;
  std::map<std::string, std::pair<int, void *>> got;
  for (int i = 0; i < n; i++) {
    if (!s[i].name) violation("builtin-symbols", "builtin symbol %d of %d has no name", i, n);
    if (got.count(s[i].name)) violation("builtin-symbols", "builtin symbol %s is there twice", s[i].name);
    got[s[i].name] = {s[i].kind, s[i].kind == PWART_KIND_MEMORY ? (void *)s[i].val.mem : (void *)s[i].val.fn};
  }
  for (auto *x : NAMES) if (!got.count(x) || !got[x].second) violation("builtin-symbols", "a thread gets no builtin symbol %s (%d symbols)", x, n);
  if (first.empty()) first = got;
  else if (first != got) violation("builtin-symbols", "two threads get different builtin symbols");
}
static std::vector<RMod *> callables(Thread &t) { std::vector<RMod *> v; for (auto *m : t.own) if (callable(m)) v.push_back(m); return v; }
static void check(Thread &t, const char *when) { for (auto *m : t.own) if (m->alive && m->st) compare_module(m, when); }
static void call(Thread &t, uint8_t *at) {
  auto v = callables(t);
  if (v.empty()) return;
  RMod *m = v[opd(v.size())];
  RFunc *f = pick_func(m);
  if (!f) return;
  if (fctx().inv.empty()) for (auto *x : t.own) reset_fuel(x);
  for (auto &o : th) if (o.second != &t && o.second->loading) { hit(P_CALLED); break; }
  auto a = draw_args(f->type, m);
  invoke(f, a, at);
}
static void thread_host(HostCall &h) {
  Thread *t = me();
  if (!t) return;
  auto v = callables(*t);
  if (v.empty()) return;
  if (opd(4) == 1) host_mutate(v[opd(v.size())]);
  if (opd(4) == 1 && (int)fctx().inv.size() < 3) call(*t, h.free_stack);
}
static void load_one(Thread &t) {
  if (t.n >= 4) return;
  std::string name = "t" + std::to_string(t.id) + "m" + std::to_string(t.n++);
  auto d = gen_module(t.sp->env(), 1 + opd(3));
  t.loading = true;
  uint64_t s0 = slot->switches;
  RMod *m = opd(2) ? drv::load(*t.sp, name, d) : load_by_compiler(*t.sp, name, d);
  if (slot->switches != s0) hit(P_IN);
  t.loading = false; touched = true;
  t.own.push_back(m);
}
// a module that must be refused: by what it contains, or by what the system refuses this thread
static void load_bad(Thread &t) {
  auto d = std::make_shared<ModDef>(*gen_module(Env(), 1 + opd(3)));   // on its own: when it loads after all, no other module changes
  uint32_t how = opd(3);
  if (how == 0) {
    auto s = std::make_shared<Stmt>(); s->k = Stmt::RAW;
    static const std::vector<uint8_t> R[] = {{0xfc, 0x0d, 0x00}, {0x08, 0x00}, {0x06, 0x40, 0x0b}, {0xfe, 0x03, 0x00}, {0x02, 0x00, 0x0b}};
    s->raw = R[opd(5)];
    auto &f = d->fn[opd(d->fn.size())];
    f.body.insert(f.body.begin() + opd(live_size(f.body) + 1), s);
    fired(F_BAD);
  } else if (how == 1) { Imp i; i.kind = opd(4); i.mod = opd(2) ? "nobody" : "pwart_builtin"; i.field = "nothing"; i.min = 1; d->imps.push_back(i); fired(F_BAD); }
  auto b = encode(*d);
  std::string res[2];
  for (int round = 0; round < 2; round++) {     // the second time, nothing else runs: the outcome is the same
    uint8_t *buf = (uint8_t *)guard_alloc(b.size());
    memcpy(buf, b.data(), b.size());
    set_context("compiling a module that must be refused");
    if (how == 2) { t.refused = false; if (round == 0) { if (opd(2)) t.jit = 1 + opd(60); else t.exe = 1; } }
    if (round) no_preempt = true;
    t.loading = true;
    auto c = pwart_new_module_compiler();
    pwart_set_symbol_resolver(c, pwart_namespace_resolver(t.sp->ns));
    char *err = pwart_compile(c, (char *)buf, (int)b.size());
    t.loading = false; touched = true;
    t.jit = t.exe = 0;
    if (how == 2 ? t.refused && !err : !err) violation("load-accepted", "a module that must be refused was loaded");
    if (how == 2 && err && !t.refused) violation("load-refused", "a valid module was refused: %s", err);
    if (err) { res[round] = err; hit(P_FAIL); }
    else { auto *st = pwart_get_module_state(c); pwart_free_module_state(st); }
    pwart_free_module_compiler(c);
    if (round) no_preempt = false;
    guard_free(buf);
    logf("t%d refused load: %s", t.id, err ? res[round].c_str() : "loaded");
    if (how == 2) return;
  }
  if (res[0] != res[1]) violation("load-error", "a module is refused with '%s' among threads and with '%s' alone", res[0].c_str(), res[1].c_str());
}
static void remove_one(Thread &t) {
  auto v = callables(t);
  std::vector<RMod *> c;
  for (auto *m : v) { bool used = false; for (auto *x : t.own) if (x != m && x->alive && x->deps.count(m)) used = true; if (!used) c.push_back(m); }
  if (c.empty()) return;
  RMod *m = c[opd(c.size())];
  bool in = find(*t.sp, m->name) == m;
  kill(m);
  uint64_t s0 = slot->switches;
  if (in) unload(*t.sp, m->name);
  else { logf("free %s", m->name.c_str()); set_context("freeing %s", m->name.c_str()); char *e = pwart_free_module_state(m->st); if (e) violation("remove", "freeing %s failed: %s", m->name.c_str(), e); }
  if (slot->switches != s0) hit(P_RUN);
}
static void body(Thread *tp) {
  Thread &t = *tp;
  new_stack(1 << 17);
  if (opd(3) == 0) builtins(t);
  t.sp = new_space();
  for (int i = 2 + opd(6); i > 0; i--) {
    op_mark();
    switch (opd(10)) {
      case 0: case 1: case 2: load_one(t); break;
      case 3: load_bad(t); break;
      case 4: remove_one(t); break;
      case 5: if (opd(3) == 0) builtins(t); else if (opd(2)) { sljit_free_unused_memory_exec(); hit(P_TRIM); } else load_one(t); break;
      default: call(t, nullptr);
    }
    check(t, "after an operation");
    if (opd(3) == 0) yield_point("between operations");
  }
  check(t, "before the end");
  for (auto *m : t.own) if (m->alive && find(*t.sp, m->name) != m) { kill(m); pwart_free_module_state(m->st); }
  std::vector<RMod *> in;
  for (auto *m : t.own) if (m->alive) in.push_back(m);
  for (auto *m : in) kill(m);
  delete_space(*t.sp);
  drop_stack();
}
static void run_t01() {
  swarm();
  cfg.refuse_pct = 0; cfg.stmts = 1 + opd(3); cfg.depth = 1 + opd(2); cfg.builtins = opd(3) != 2;
  reenter_den = 0;
  lazy_builtins = opd(4) != 3;
  begin(2 + opd(3), 2 + opd(3));
  on_host = thread_host;
  types.reserve(4096);
  engine_refuse = heapcfg.refuse;
  heapcfg.refuse = refuse; exec_refuse = refuse_exec;
  touched = !lazy_builtins;
  size_t base_pw = heap_live(D_PW), base_jit = heap_live(D_SLJIT);
  uint64_t seq = heap_seq();
  reset_fuel();
  static const uint32_t Q[] = {2, 7, 25, 90, 400, 2000};
  set_sched({Q[opd(6)], opd(3) == 1});
  std::vector<int> ids;
  int nt = 2 + opd(3);
  for (int i = 0; i < nt; i++) {
    Thread *t = new Thread; t->id = i;
    int id = spawn([t] { th[cur()] = t; body(t); }, "thread", 1 << 20);
    ids.push_back(id);
  }
  for (int i : ids) join(i);
  set_sched({0, false});
  op_mark();
  code_verify_all("at the end");
  if (code_live()) violation("code-left", "code of %zu modules is left after every thread freed its own", code_live());
  if (!lazy_builtins) {
    if (heap_live(D_PW) != base_pw) violation("heap-left", "%zu heap blocks are left after every thread freed its own: %s", heap_live(D_PW) - base_pw, heap_describe_live(seq).c_str());
    if (heap_live(D_SLJIT) != base_jit) violation("generator-left", "%zu blocks of the code generator are left after every thread freed its own", heap_live(D_SLJIT) - base_jit);
  }
  Thread last; last.id = nt; builtins(last);
}
static Reg reg_t01({"T01", run_t01, "exploration", "distinct event logs: loads, calls, removals and refused loads of all threads in the order the schedule gave them",
  30000, 700000, "pwart compiler, loader, namespace, builtins and runtime, sljit code generator and executable allocator, compiled with memory-access instrumentation; generated machine code run natively",
  "thread scheduler, mutexes, heap and executable memory; host functions", {"threads are simulated on one core: sequentially consistent memory; generated code itself is not preempted between its calls into the engine", "threads share no module, compiler or namespace"}});
