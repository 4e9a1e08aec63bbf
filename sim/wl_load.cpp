// L01: loads that must fail, in the middle of a history of modules that work.
#include "drv.h"
#include <cstring>
extern "C" void sljit_free_unused_memory_exec(void);
using namespace sim;
using namespace drv;
static const int F_IMP = fault_kind("import that cannot be resolved");
static const int F_HDR = fault_kind("not a version 1 module");
static const int F_FEAT = fault_kind("unsupported feature");
static const int F_SEG = fault_kind("segment that does not fit");
static const int F_LIM = fault_kind("limit of the engine exceeded");
static const int F_MEM = fault_kind("memory or table refused by the system");
static const int F_JIT = fault_kind("code generator refused memory");
static const int F_EXE = fault_kind("executable memory refused");
static const int P_RETRY = probe_kind("load succeeds once the cause is gone");
static const int P_UNTOUCHED = probe_kind("failed load under a name in use");
static const int P_INSIDE = probe_kind("failed load inside a running call");
static const int P_NOREF = probe_kind("refusal armed but not reached");

static Space *sp;
static int nloaded;
static std::vector<RMod *> loose;              // outside any namespace
static uint64_t nth_mem, nth_jit, nth_exe;   // 0: not armed; counts down
static int fk_hit;
static bool (*engine_refuse)(Domain, const char *, size_t);
static bool refuse(Domain d, const char *f, size_t n) {
  if (nth_mem && big_pw_alloc(d, n)) { if (--nth_mem == 0) { fired(F_MEM); fk_hit++; return true; } return false; }
  if (nth_jit && d == D_SLJIT) { if (--nth_jit == 0) { fired(F_JIT); fk_hit++; return true; } return false; }
  return engine_refuse(d, f, n);
}
static bool refuse_exec(size_t) { if (nth_exe && --nth_exe == 0) { fired(F_EXE); fk_hit++; return true; } return false; }

static S raw(std::vector<uint8_t> b) { auto s = std::make_shared<Stmt>(); s->k = Stmt::RAW; s->raw = b; return s; }
static std::vector<uint8_t> unsupported() {
  std::vector<uint8_t> b;
  auto rnd = [&](int n) { for (int i = 0; i < n; i++) b.push_back(opd(256)); };
  switch (opd(18)) {
    case 0: b = {0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 0x08, 0x00, 0x00}; break;      // memory.init
    case 1: b = {0xfc, 0x09, 0x00}; break;                                      // data.drop
    case 2: b = {0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 0x0c, 0x00, 0x00}; break;      // table.init
    case 3: b = {0xfc, 0x0d, 0x00}; break;                                      // elem.drop
    case 4: b = {0xfd, 0x0c}; rnd(16); b.push_back(0x1a); break;                 // v128.const
    case 5: b = {0x41, 0, 0xfd, 0x00, 0x04, 0x10, 0x1a}; break;                  // v128.load
    case 6: b = {0xfe, 0x03, 0x00}; break;                                      // atomic.fence
    case 7: b = {0x41, 0, 0x41, 1, 0xfe, 0x1e, 0x02, 0x00, 0x1a}; break;         // i32.atomic.rmw.add
    case 8: b = {0x08, 0x00}; break;                                            // throw
    case 9: b = {0x06, 0x40, 0x0b}; break;                                      // try
    case 10: b = {0xd2, 0x00, 0x14, 0x00}; break;                                // call_ref
    case 11: b = {0x02, 0x00, 0x0b}; break;                                     // block with a type index
    case 12: b = {0x03, 0x00, 0x0b}; break;                                     // loop with a type index
    case 13: b = {0x1f, 0x40, 0x00, 0x0b}; break;                                // try_table
    case 14: b = {0xfb, 0x01, 0x00, 0x1a}; break;                                // struct.new_default
    case 15: b = {0xd0, 0x70, 0xd4, 0x1a}; break;                                // ref.as_non_null
    case 16: b = {0x41, 0, 0x04, 0x00, 0x0b}; break;                              // if with a type index
    default: b = {0xfd, 0x0d}; b.insert(b.begin(), 0xfd); b.insert(b.begin() + 1, 0x0c); rnd(0); b = {0xfd, 0x0c}; rnd(16); { std::vector<uint8_t> c = b; b.insert(b.end(), c.begin(), c.end()); } b.push_back(0xfd); b.push_back(0x0d); rnd(16); b.push_back(0x1a); break; // i8x16.shuffle
  }
  return b;
}
struct Attempt { std::vector<uint8_t> bytes; bool must_fail; const char *what; std::shared_ptr<ModDef> good; };
// derives from a loadable module one that must be refused
static Attempt damage(std::shared_ptr<ModDef> d) {
  Attempt a; a.good = d; a.must_fail = true; a.what = "";
  auto c = std::make_shared<ModDef>(*d);
  switch (opd(10)) {
    case 0: case 1: {                          // import: no such module, no such field, wrong kind
      Imp i; i.kind = opd(4); i.type = 0; i.min = 1; i.gt = I32;
      auto e = sp->env();
      int how = opd(3);
      if (how == 2 && opd(3) == 2) { i.mod = "pwart_builtin"; bool mem = opd(2); i.kind = mem ? opd(2) : 1 + opd(3); i.field = mem ? "native_memory" : opd(2) ? "version" : "import"; }
      else if (how == 0 || e.mods.empty()) { i.mod = opd(2) ? "nobody" : "hos"; i.field = "f0"; }
      else {
        auto &x = e.mods[opd(e.mods.size())]; i.mod = x.first;
        if (how == 1) i.field = std::string(1, "ftmg"[i.kind]) + std::to_string(90 + opd(9));
        else { int k2 = (i.kind + 1 + opd(3)) % 4; i.field = std::string(1, "ftmg"[k2]) + "0"; }
      }
      // at the end, so that no other index moves
      c->imps.push_back(i);
      fired(F_IMP); a.what = "unresolved import";
      a.bytes = encode(*c); break;
    }
    case 2: {
      a.bytes = encode(*c);
      switch (opd(3)) { case 0: a.bytes[opd(4)] ^= 1 << opd(8); break; case 1: a.bytes[4 + opd(4)] ^= 1 << opd(8); break; default: a.bytes.resize(opd(8)); }
      fired(F_HDR); a.what = "header"; break;
    }
    case 3: case 4: case 5: {
      auto &f = c->fn[opd(c->fn.size())];
      if (c->sp_hi && opd(4) == 3) {              // a reference into a memory that is not known at load time, or not there
        std::vector<uint8_t> b;
        if (opd(2)) { b = {0x41, 0, 0x41, 1, 0x6a}; } else { b = {0x41, (uint8_t)(40 + opd(20))}; }
        b.insert(b.end(), {0x41, 0, 0x10, (uint8_t)c->bi[B_FROMIDX], 0x1a});
        f.body.insert(f.body.begin() + opd(live_size(f.body) + 1), raw(b)); fired(F_FEAT); a.what = "reference to no memory"; a.bytes = encode(*c); break;
      }
      auto u = unsupported();
      for (int i = opd(5) - 1; i > 0; i--) {      // inside blocks, some of them branched to
        std::vector<uint8_t> o;
        switch (opd(4)) { case 0: o = {0x03, 0x40}; break; case 1: o = {0x41, 1, 0x04, 0x40}; break; default: o = {0x02, 0x40}; }
        if (opd(3) == 2) o.insert(o.end(), {0x41, 0, 0x0d, 0});
        u.insert(u.begin(), o.begin(), o.end()); u.push_back(0x0b);
      }
      auto b = f.body;
      b.insert(b.begin() + opd(live_size(b) + 1), raw(u));
      f.body = b;
      fired(F_FEAT); a.what = "unsupported feature"; a.bytes = encode(*c); break;
    }
    case 6: {
      if (c->mems.empty()) { Data x; x.mem = 0; x.bytes = {1}; x.passive = true; c->datas.push_back(x); fired(F_FEAT); a.what = "passive data"; a.bytes = encode(*c); break; }
      if (opd(4) == 3) { Data x; x.bytes = {1, 2}; x.passive = true; c->datas.insert(c->datas.begin() + opd(c->datas.size() + 1), x); fired(F_FEAT); a.what = "passive data"; a.bytes = encode(*c); break; }
      Data x; x.mem = opd(c->mems.size());
      // beyond the current size of the real memory
      uint64_t n = (uint64_t)c->mems[x.mem].initial * 65536;
      if (c->mems[x.mem].imported) { n = 0; auto e = sp->env(); uint32_t k = 0; for (auto &i : c->imps) if (i.kind == 2) { if (k++ == x.mem) for (auto &q : e.mods) if (q.first == i.mod) for (size_t z = 0; z < q.second->mems.size(); z++) if (object_of(q.second, 2, i.field) == q.second->mems[z]->real) n = (uint64_t)q.second->mems[z]->pages * 65536; } }
      int len = 1 + opd(40);
      switch (opd(3)) { case 0: x.offset = n - opd(len); break; case 1: x.offset = n + opd(100000); break; default: x.offset = 0xffffffffu - opd(64); if (x.offset < n) x.offset = n; }
      for (int i = 0; i < len; i++) x.bytes.push_back(opd(256));
      c->datas.push_back(x);
      if (opd(2)) { Data y = x; y.offset = opd(1000); c->datas.push_back(y); }
      fired(F_SEG); a.what = "data segment"; a.bytes = encode(*c); break;
    }
    case 7: {
      if (c->tabs.empty()) { auto &f = c->fn[0]; for (int i = 0; i < 256; i++) f.locals.push_back(I32); fired(F_LIM); a.what = "locals"; a.bytes = encode(*c); break; }
      Elem e; e.table = opd(c->tabs.size()); uint32_t n = c->tabs[e.table].size; int len = 1 + opd(5);
      e.flags = e.table ? (opd(2) ? 2 : 6) : opd(4) * 2;
      e.offset = opd(3) ? n - opd(len) : opd(2) ? n + opd(1000) : 0xffffffff - opd(8);
      for (int i = 0; i < len; i++) e.f.push_back(opd(c->ftype.size()));
      c->elems.insert(c->elems.begin() + opd(c->elems.size() + 1), e);
      fired(F_SEG); a.what = "element segment"; a.bytes = encode(*c); break;
    }
    case 8: {
      fired(F_LIM);
      auto &f = c->fn[opd(c->fn.size())];
      if (opd(2)) { int n = 256 + opd(400); a.what = "locals"; for (int i = 0; i < n; i++) f.locals.push_back(opd(2) ? I32 : I64); }
      else { a.what = "operands"; std::vector<uint8_t> b; int n = 200 + opd(200); for (int i = 0; i < n; i++) { b.push_back(0x41); b.push_back(i & 63); } for (int i = 0; i < n; i++) b.push_back(0x1a); f.body.insert(f.body.begin() + live_size(f.body), raw(b)); }
      a.bytes = encode(*c); break;
    }
    default: {
      fired(F_LIM);
      if (opd(2)) { a.what = "export name"; c->extra_exports.push_back({std::string(257 + opd(400), 'e'), {0, 0}}); }
      else { a.what = "import name"; Imp i; i.kind = 0; i.type = 0; i.mod = std::string(opd(2) ? 501 : 250, 'i'); i.field = std::string(251 + opd(300), 'j'); c->imps.push_back(i); }
      a.bytes = encode(*c); break;
    }
  }
  return a;
}
struct Before { size_t live[NDOM], code; void *found; };
static Before snapshot(const std::string &name) { Before b; for (int i = 0; i < NDOM; i++) b.live[i] = heap_live((Domain)i); b.code = code_live(); auto *m = pwart_namespace_find_module(sp->ns, keep(name)); b.found = m && m->type == PWART_MODULE_TYPE_WASM_MODULE ? m->val.wasm : m && m->type == PWART_MODULE_TYPE_HOST_MODULE ? (void *)m->val.host : nullptr; return b; }
static void unchanged(const Before &b, const std::string &name, uint64_t seq, const char *what) {
  for (int i = 0; i < NDOM; i++) if (heap_live((Domain)i) != b.live[i]) violation("failed-load-leak", "after a load failed (%s) %zu blocks are live instead of %zu: %s", what, heap_live((Domain)i), b.live[i], heap_describe_live(seq).c_str());
  if (code_live() != b.code) violation("failed-load-code", "after a load failed (%s) there are %zu pieces of code instead of %zu", what, code_live(), b.code);
  if (snapshot(name).found != b.found) violation("failed-load-name", "after a load failed (%s) the name %s finds something else", what, name.c_str());
  compare_state("after a failed load");
  code_verify_all("after a failed load");
}
// one attempt; returns the state if it loaded
static pwart_module_state attempt(const std::string &name, const std::vector<uint8_t> &bytes, char **err, bool by_compiler) {
  uint8_t *buf = (uint8_t *)guard_alloc(bytes.size() ? bytes.size() : 1);
  memcpy(buf, bytes.data(), bytes.size());
  pwart_module_state st = nullptr;
  *err = nullptr;
  set_context("loading %s", name.c_str());
  if (by_compiler) {
    auto c = pwart_new_module_compiler();
    pwart_set_symbol_resolver(c, pwart_namespace_resolver(sp->ns));
    *err = pwart_compile(c, (char *)buf, bytes.size());
    if (!*err) st = pwart_get_module_state(c);
    pwart_free_module_compiler(c);
  } else st = (pwart_module_state)pwart_namespace_define_wasm_module(sp->ns, keep(name), (char *)buf, bytes.size(), err);
  guard_free(buf);
  return st;
}
static void accept(const std::string &name, std::shared_ptr<ModDef> d, pwart_module_state st, bool by_compiler) { RMod *m = adopt_loaded(*sp, name, d, st, !by_compiler); nloaded++; if (by_compiler) loose.push_back(m); }
static void failing_load(bool inside) {
  if (inside) hit(P_INSIDE);
  bool by_compiler = opd(3) == 2;
  std::string name = "m" + std::to_string(nloaded);
  bool over = !inside && !by_compiler && nloaded > 1 && opd(3) == 2;
  auto env = sp->env();
  RMod *old = nullptr;
  if (over) { name = "m" + std::to_string(opd(nloaded)); old = find(*sp, name); if (!old) over = false; }
  auto d = gen_module(env, 1 + opd(4));
  if (opd(3) == 2) { TabInfo t; t.size = 3000 + opd(3000); t.ftype = 0; t.callable = 0; t.hasmax = opd(2); t.max = t.size; d->tabs.push_back(t); }
  if (opd(2)) {                                // refusal of memory
    auto b = encode(*d);
    uint64_t seq = heap_seq();
    Before s = snapshot(name);
    fk_hit = 0;
    int k = nloaded ? opd(4) : 3;
    // counts of an ordinary load of this size: few big blocks, a few hundred generator blocks
    nth_mem = k == 0 ? 1 + opd(4) : 0; nth_jit = k == 1 || k == 2 ? 1 + opd(opd(3) ? 12 : 12 * (d->fn.size() + 1)) : 0; nth_exe = k == 3 ? 1 : 0;
    logf("load %s (%zu bytes), refusing %s number %llu", name.c_str(), b.size(), k == 0 ? "memory or table" : k == 3 ? "executable mapping" : "generator block", (unsigned long long)(nth_mem + nth_jit + nth_exe));
    char *err;
    auto st = attempt(name, b, &err, by_compiler);
    nth_mem = nth_jit = nth_exe = 0;
    if (!st) {
      if (!fk_hit) violation("load-refused", "a valid module was refused: %s", err ? err : "no message");
      if (!err) violation("no-message", "a load failed without a message");
      unchanged(s, name, seq, "refused memory");
      if (over) { hit(P_UNTOUCHED); return; }
      st = attempt(name, b, &err, by_compiler);
      if (!st) violation("retry", "the load fails again although memory is available: %s", err ? err : "no message");
      hit(P_RETRY);
    } else if (!fk_hit) hit(P_NOREF);
    accept(name, d, st, by_compiler);
    return;
  }
  Attempt a = damage(d);
  uint64_t seq = heap_seq();
  Before s = snapshot(name);
  logf("load %s (%zu bytes), to be refused: %s", name.c_str(), a.bytes.size(), a.what);
  char *err;
  auto st = attempt(name, a.bytes, &err, by_compiler);
  if (st) violation("bad-loaded", "a module that must be refused (%s) was loaded", a.what);
  if (!err) violation("no-message", "a load failed (%s) without a message", a.what);
  unchanged(s, name, seq, a.what);
  if (over) { hit(P_UNTOUCHED); return; }
  if (nloaded < 6 && opd(2)) {
    auto b = encode(*d);
    logf("load %s without the cause", name.c_str());
    st = attempt(name, b, &err, by_compiler);
    if (!st) violation("retry", "the load fails although the cause is gone: %s", err ? err : "no message");
    hit(P_RETRY);
    accept(name, d, st, by_compiler);
  }
}
static bool inside_ok;
static void host(HostCall &h) {
  if (inside_ok && opd(10) == 9) failing_load(true);
  std_host(h);
}
static void run() {
  swarm();
  cfg.stmts = 2 + opd(3); cfg.depth = 2; cfg.aliases = opd(2); cfg.builtins = opd(3) == 2;
  cfg.refuse_pct = 0;
  reenter_den = 4; max_depth = 3;
  begin(2 + opd(4), 1 + opd(3));
  engine_refuse = heapcfg.refuse;
  heapcfg.refuse = refuse; exec_refuse = refuse_exec;
  on_host = host;
  inside_ok = opd(2);
  nth_mem = nth_jit = nth_exe = 0;
  sp = new_space();
  if (opd(3) == 2) define_host(*sp, "ho", host_objects("ho", opd(3)));
  nloaded = 0;
  for (int i = opd(3); i > 0; i--) { load_new(*sp, "m" + std::to_string(nloaded), 1 + opd(3)); nloaded++; }
  for (int i = 0, n = 3 + opd(10); i < n; i++) {
    op_mark();
    if (opd(2)) failing_load(false);
    else { auto v = usable(); if (!v.empty()) invoke_one(v[opd(v.size())]); }
    compare_state("after an operation");
  }
  code_verify_all("at the end");
}
static Reg reg({"L01", run, "exploration", "distinct event logs: loads with their faults, calls and host calls", 20000, 500000,
  "pwart loader, compiler, namespace and runtime, sljit code generator, the generated machine code run natively", "host functions; heap and executable memory behind the simulator, which refuses chosen allocations",
  {"refused allocations are those for memories, tables, the code generator and executable memory, not the loader's small bookkeeping blocks", "bytes are intact after the header: no truncated or otherwise malformed sections"}});

// L02: whole lives of modules and namespaces, failed loads included; afterwards nothing may be left.
static const int P_LIB = probe_kind("host module made from a list"), P_CYC = probe_kind("second life in the same process");
static const int P_UNL_IN = probe_kind("module unloaded while others run");
static const int P_UNL_USED = probe_kind("module unloaded while others are bound to it");
static const int P_NSDEL = probe_kind("namespace deleted with modules in it");
static const int P_NSDEL_IN = probe_kind("namespace deleted while modules elsewhere run");
static const int P_REPLACED = probe_kind("module freed by a definition under its name");
static const int P_PLAIN = probe_kind("module loaded without a namespace");
static std::vector<Space *> spaces;
static void used(RMod *m) { for (auto *x : mods) if (x != m && x->alive && !x->broken && x->deps.count(m)) { hit(P_UNL_USED); return; } }
// all that would become unusable by the end of m must be at rest
static bool at_rest(RMod *m) {
  if (m->active) return false;
  std::set<RMod *> gone = {m};
  for (bool more = true; more;) {
    more = false;
    for (auto *x : mods) if (x->alive && !gone.count(x)) for (auto *d : x->deps) if (gone.count(d) || !d->alive) { if (x->active) return false; gone.insert(x); more = true; break; }
  }
  return true;
}
// host modules the engine makes from lists of names; the host deletes them itself once no namespace holds them
struct Lib { pwart_host_module *m; std::vector<const char *> names; std::vector<void *> syms; Space *in; std::string name; };
static std::vector<Lib *> libs;
static void lib_fn(void *) {}
static void lib_drop(size_t i) { pwart_namespace_delete_host_module(libs[i]->m); delete libs[i]; libs.erase(libs.begin() + i); }
static void libs_out(Space *s) { for (auto *l : libs) if (l->in == s) l->in = nullptr; }
static void drop_something(bool inside) {
  sp = spaces[opd(spaces.size())];
  uint32_t k = opd(8);
  if (k < 5) {
    std::vector<std::string> v;
    for (auto &n : sp->names) if (n.second && n.second->alive && !n.second->host && at_rest(n.second)) v.push_back(n.first);
    if (v.empty()) return;
    auto n = v[opd(v.size())];
    used(find(*sp, n));
    if (inside) hit(P_UNL_IN);
    unload(*sp, n);
  } else if (k < 7) {
    std::vector<size_t> v;
    for (size_t i = 0; i < loose.size(); i++) if (at_rest(loose[i])) v.push_back(i);
    if (v.empty()) return;
    size_t i = v[opd(v.size())];
    used(loose[i]);
    if (inside) hit(P_UNL_IN);
    unload_free(loose[i]); loose.erase(loose.begin() + i);
  } else {
    bool any = false;
    for (auto &n : sp->names) if (n.second && n.second->alive && !n.second->host) { any = true; if (!at_rest(n.second)) return; }
    if (spaces.size() < 2) return;
    if (cfg.builtins & 2) for (auto *m : loose) if (m->home == pwart_namespace_resolver(sp->ns)) return;      // it would be left with a resolver that is gone
    if (any) hit(P_NSDEL);
    if (inside) hit(P_NSDEL_IN);
    libs_out(sp); delete_space(*sp);
    for (size_t i = 0; i < spaces.size(); i++) if (spaces[i] == sp) { spaces.erase(spaces.begin() + i); break; }
    sp = spaces[0];
  }
  code_verify_all("after a module ended");
  heap_check();
}
static void load_something() {
  sp = spaces[opd(spaces.size())];
  switch (opd(8)) {
    default: load_new(*sp, "m" + std::to_string(nloaded), 1 + opd(4)); nloaded++; break;
    case 4: case 5: if (nloaded < 14) { int b = cfg.builtins; cfg.builtins &= 1; auto d = gen_module(sp->env(), 1 + opd(3)); cfg.builtins = b; loose.push_back(load_by_compiler(*sp, "loose" + std::to_string(nloaded), d)); nloaded++; } break;
    case 6: {                                  // under a name in use
      std::vector<std::string> v;
      for (auto &n : sp->names) if (n.second && n.second->alive && !n.second->host && at_rest(n.second)) v.push_back(n.first);
      if (v.empty()) return;
      auto n = v[opd(v.size())];
      Env e = sp->env();
      for (size_t q = 0; q < e.mods.size();) if (e.mods[q].first == n) e.mods.erase(e.mods.begin() + q); else q++;
      hit(P_REPLACED);
      load(*sp, n, gen_module(e, 1 + opd(3)));
      break;
    }
    case 7: {                                  // imports nothing at all, no namespace
      auto d = std::make_shared<ModDef>(); d->types = &w::types;
      for (int i = opd(2); i >= 0; i--) { MemInfo m; m.initial = opd(3); m.hasmax = opd(2); m.max = m.initial + opd(4); d->mems.push_back(m); }
      for (int i = opd(2); i > 0; i--) { TabInfo t; t.size = 4 + opd(8); t.hasmax = opd(2); t.max = t.size; d->tabs.push_back(t); }
      for (int i = opd(3); i >= 0; i--) {
        FuncDef f; f.type = type_index({{I32}, {I32}}); f.locals = {I32};
        auto e = std::make_shared<Expr>(); e->k = opd(2) || d->mems.empty() ? Expr::LGET : Expr::MSIZE; e->t = I32; e->a = e->k == Expr::LGET ? 0 : opd(d->mems.size());
        f.res = {e}; d->fn.push_back(f); d->ftype.push_back(f.type);
      }
      auto b = encode(*d);
      uint8_t *buf = (uint8_t *)guard_alloc(b.size());
      memcpy(buf, b.data(), b.size());
      char *err = nullptr;
      logf("load plain (%zu bytes)", b.size());
      set_context("loading a plain module");
      hit(P_PLAIN);
      auto st = (pwart_module_state)pwart_load_module((char *)buf, b.size(), opd(2) ? &err : nullptr);
      if (!st) violation("load-refused", "a valid module was refused: %s", err ? err : "no message");
      guard_free(buf);
      RMod *m = link("plain" + std::to_string(nloaded++), d, Env());
      bind_real(m, st);
      loose.push_back(m);
    }
  }
}
static void host_l02(HostCall &h) {
  uint32_t k = opd(16);
  if (k == 15 && nloaded < 14) failing_load(true);
  else if (k == 14) drop_something(true);
  else if (k == 13 && nloaded < 10) load_something();
  std_host(h);
}
static void lib_op() {
  hit(P_LIB);
  struct Calm { decltype(heapcfg.refuse) r = heapcfg.refuse; Calm() { heapcfg.refuse = nullptr; } ~Calm() { heapcfg.refuse = r; } } calm;
  uint32_t k = libs.empty() ? 0 : opd(4);
  if (k == 0 && libs.size() < 6) {
    auto *l = new Lib; static const char *N[] = {"a", "bb", "", "a"};
    for (int i = opd(5); i > 0; i--) { l->names.push_back(N[i - 1]); l->syms.push_back((char *)&lib_fn + i); }
    l->m = opd(2) ? pwart_namespace_new_host_module2(l->names.data(), l->syms.data(), l->names.size()) : pwart_namespace_new_host_module(l->names.data(), (pwart_host_function_c *)l->syms.data(), l->names.size());
    l->name = "lib" + std::to_string(opd(2)); l->in = sp;
    for (auto *o : libs) if (o->in == sp && o->name == l->name) { o->in = nullptr; logf("replace"); }
    libs.push_back(l);
    pwart_namespace_define_host_module(sp->ns, l->name.c_str(), l->m);
    logf("host module %s", l->name.c_str());
    return;
  }
  size_t i = opd(libs.size()); Lib *l = libs[i];
  if (k == 1 && !l->in) { logf("delete host module"); lib_drop(i); return; }
  if (k == 2 && l->in) { logf("remove host module %s", l->name.c_str()); pwart_namespace_remove_module(l->in->ns, l->name.c_str()); l->in = nullptr; if (opd(2)) lib_drop(i); return; }
  if (!l->in) return;
  for (size_t j = 0; j <= l->names.size(); j++) {
    const char *f = j < l->names.size() ? l->names[j] : "nothing"; void *want = nullptr;
    for (size_t q = 0; q < l->names.size() && !want; q++) if (!strcmp(l->names[q], f)) want = l->syms[q];
    struct pwart_symbol_resolve_request q; q.import_module = l->name.c_str(); q.import_field = f; q.kind = PWART_KIND_FUNCTION; q.result = nullptr;
    auto *r = pwart_namespace_resolver(l->in->ns); r->resolve(r, &q);
    if (q.result != want) violation("library", "%s.%s resolves to something else", l->name.c_str(), f);
  }
}
static void run_l02() {
  swarm();
  cfg.stmts = 2 + opd(3); cfg.depth = 2; cfg.aliases = opd(3) == 1; cfg.builtins = opd(3) == 2;
  cfg.refuse_pct = opd(3) == 2 ? 30 : 0;
  reenter_den = 4; max_depth = 3;
  setup_types(1 + opd(3)); setup_hosts(2 + opd(4)); setup_engine();
  engine_refuse = heapcfg.refuse;
  heapcfg.refuse = refuse; exec_refuse = refuse_exec;
  on_host = host_l02;
  nth_mem = nth_jit = nth_exe = 0;
  size_t base_pw = heap_live(D_PW), base_jit = heap_live(D_SLJIT);
  for (int cyc = 1 + (opd(3) == 2 ? 1 + opd(2) : 0); cyc > 0; cyc--) {
    uint64_t seq = heap_seq();
    spaces.clear(); loose.clear(); libs.clear(); nloaded = 0;
    new_stack(1 << 18);
    for (int i = opd(3); i >= 0; i--) spaces.push_back(new_space());
    sp = spaces[0];
    load_something();
    for (int i = 0, n = 3 + opd(14); i < n; i++) {
      op_mark();
      uint32_t k = opd(11);
      sp = spaces[opd(spaces.size())];
      if (k == 10) { lib_op(); if (opd(2)) lib_op(); }
      else if (k < 3) { if (nloaded < 12) load_something(); }
      else if (k < 5) drop_something(false);
      else if (k == 5) failing_load(false);
      else if (k == 6 && spaces.size() < 4) { logf("new namespace"); spaces.push_back(new_space()); }
      else { auto v = usable(); if (!v.empty()) invoke_one(v[opd(v.size())]); }
      compare_state("after an operation");
    }
    // the end: everything goes, in any order
    code_verify_all("before the end");
    while (!spaces.empty() || !loose.empty()) {
      op_mark();
      if (!loose.empty() && (spaces.empty() || opd(2))) { size_t i = opd(loose.size()); unload_free(loose[i]); loose.erase(loose.begin() + i); continue; }
      size_t i = opd(spaces.size());
      std::vector<std::string> v;
      for (auto &n : spaces[i]->names) if (n.second && n.second->alive && !n.second->host) v.push_back(n.first);
      if (!v.empty() && opd(3) == 1) { unload(*spaces[i], v[opd(v.size())]); continue; }
      libs_out(spaces[i]); delete_space(*spaces[i]); spaces.erase(spaces.begin() + i);
      code_verify_all("after a namespace ended");
    }
    while (!libs.empty()) lib_drop(opd(libs.size()));
    drop_stack();
    if (heap_live(D_PW) != base_pw) violation("heap-left", "%zu heap blocks are left after everything was unloaded: %s", heap_live(D_PW) - base_pw, heap_describe_live(seq).c_str());
    if (heap_live(D_SLJIT) != base_jit) violation("generator-left", "%zu heap blocks of the code generator are left after everything was unloaded: %s", heap_live(D_SLJIT) - base_jit, heap_describe_live(seq).c_str());
    if (code_live()) violation("code-left", "%zu pieces of generated code are left after everything was unloaded", code_live());
    sljit_free_unused_memory_exec();
    if (exec_live_bytes()) violation("exec-left", "%zu bytes of executable memory are left after everything was unloaded", exec_live_bytes());
    heap_check();
    if (cyc > 1) { hit(P_CYC); logf("second life"); }
  }
}
static Reg reg2({"L02", run_l02, "exploration", "distinct event logs: loads, failed loads with their faults, calls, unloads, namespace deletions", 16000, 400000,
  "pwart loader, compiler, namespace and runtime, sljit code generator and executable allocator, the generated machine code run natively", "host functions; heap and executable memory behind the simulator, which accounts for every block, poisons what is released and refuses chosen allocations",
  {"refused allocations are those for memories, tables, the code generator and executable memory, not the loader's small bookkeeping blocks", "modules bound to objects of an unloaded module are only freed", "modules with frames in progress are not unloaded"}});

// L04: running code loads, looks up and unloads modules itself.
static const int P_BLOAD = probe_kind("code loads a module"), P_BSTART = probe_kind("code loads a module with a start function"), P_BFAIL = probe_kind("code's load fails"), P_BOVER = probe_kind("code loads over a name in use"),
  P_BUNL = probe_kind("code unloads a module"), P_BUNL0 = probe_kind("code unloads a name not in use"), P_BIMP = probe_kind("code looks a function up"), P_BIMP0 = probe_kind("code looks up what is not there"),
  P_BDEEP = probe_kind("builtin used at call depth 3 or more"), P_BSELFMEM = probe_kind("module loaded from bytes in a WebAssembly memory"), P_BNEST = probe_kind("builtin used inside a start function");
static const int P_ADOPT1 = probe_kind("compiled module defined afterwards"), P_ADOPT2 = probe_kind("module compiled for one namespace defined in another"), P_RETARGET = probe_kind("module outside namespaces given a resolver");
struct Pend {
  int kind; Space *s;
  std::string name;
  // load
  std::shared_ptr<ModDef> def; bool must_fail = false, over = false; const char *what = ""; Before before; uint64_t seq = 0; RMod *linked = nullptr; bool bound = false;
  void *old = nullptr;
  // lookup
  RFunc *want = nullptr;
  std::vector<void *> bufs;
};
static Space *space_of(RMod *m) { for (auto *s : spaces) if (m->home == pwart_namespace_resolver(s->ns)) return s; for (auto *s : spaces) for (auto &n : s->names) if (n.second == m) return s; return nullptr; }
static void disarm() { nth_mem = nth_jit = nth_exe = 0; }
static uint64_t expose(Inv *v, Pend *p, uint32_t at, const std::vector<uint8_t> &b) {
  if (v->site->b == 0) {
    RMem *x = v->hm->mems[v->site->c];
    memcpy(x->real->bytes + at, b.data(), b.size()); memcpy(&x->d[at], b.data(), b.size());
    return at;
  }
  void *q = guard_alloc(b.size() ? b.size() : 1);
  memcpy(q, b.data(), b.size());
  p->bufs.push_back(q);
  return (uint64_t)q;
}
static std::vector<uint8_t> cstr(const std::string &s) { std::vector<uint8_t> b(s.begin(), s.end()); b.push_back(0); return b; }
static std::string victim() {                    // a name whose module may end now
  std::vector<std::string> v;
  for (auto &n : sp->names) if (n.second && n.second->alive && !n.second->host && at_rest(n.second)) v.push_back(n.first);
  return v.empty() ? "" : v[opd(v.size())];
}
static void prep(Inv *v, std::vector<uint64_t> &res) {
  op_mark();
  auto *p = new Pend; v->pend = p;
  p->kind = v->site->a;
  p->s = sp = space_of(v->hm);
  if (!sp) harness_error("a module outside any namespace uses builtins");
  if (fctx().inv.size() >= 3) hit(P_BDEEP);
  for (auto *i : fctx().inv) if (i->start) { hit(P_BNEST); break; }
  set_context("%s uses a builtin", v->hm->name.c_str());
  std::vector<uint8_t> second;
  uint32_t len = opd(1000);
  switch (p->kind) {
    case SITE_LOAD: {
      p->name = "m" + std::to_string(nloaded);
      Env e = sp->env();
      bool full = nloaded >= 14;
      if (opd(4) == 3) { auto n = victim(); if (n != "") { p->name = n; p->over = true; } }
      if (p->over) for (size_t q = 0; q < e.mods.size();) { if (e.mods[q].first == p->name) e.mods.erase(e.mods.begin() + q); else q++; }
      cfg.starts = !p->over && opd(3) != 2;      // the start function of a module that replaces another could use what just ended
      auto d = gen_module(e, 1 + opd(3));
      cfg.starts = true;
      if (v->site->b == 0) { auto x = d->datas; d->datas.clear(); for (auto &y : x) if (!d->mems[y.mem].imported) d->datas.push_back(y); }
      p->def = d;
      disarm(); fk_hit = 0;
      if (full || opd(3) == 2) {
        if (!full && opd(2)) {
          int k = opd(3);
          d->start = -1;
          nth_mem = k == 0 ? 1 + opd(3) : 0; nth_jit = k == 1 ? 1 + opd(opd(3) ? 12 : 12 * (d->fn.size() + 1)) : 0; nth_exe = k == 2;
          p->what = "refused memory";
          second = encode(*d);
        } else { Attempt a = damage(d); second = a.bytes; p->must_fail = true; p->what = a.what; }
      } else second = encode(*d);
      RMem *x = v->site->b == 0 ? v->hm->mems[v->site->c] : nullptr;
      if (x && 0x2000 + second.size() > (size_t)x->pages * 65536) { disarm(); second = {0, 'a', 's', 'm', 2, 0, 0, 0}; p->must_fail = true; p->what = "header"; }
      len = second.size();
      p->before = snapshot(p->name); p->seq = heap_seq();
      p->old = p->before.found;
      logf("%s loads %s (%u bytes%s%s%s%s)", v->hm->name.c_str(), p->name.c_str(), len, d->start >= 0 ? ", start function" : "", p->must_fail ? ", to be refused: " : nth_mem ? ", refusing memory" : nth_jit ? ", refusing the generator" : nth_exe ? ", refusing executable memory" : "", p->must_fail ? p->what : "", x ? ", in a memory" : "");
      break;
    }
    case SITE_UNLOAD:
      p->name = opd(3) ? victim() : "";
      if (p->name == "") p->name = "m" + std::to_string(90 + opd(9));
      logf("%s unloads %s", v->hm->name.c_str(), p->name.c_str());
      if (find(*sp, p->name)) used(find(*sp, p->name));
      second = {0};
      break;
    default: {
      uint32_t ty = (uint32_t)(uintptr_t)v->site->target;
      std::vector<std::pair<std::string, std::pair<std::string, RFunc *>>> c;
      for (auto &n : sp->names) if (n.second && n.second->alive && !n.second->broken && !n.second->host)
        for (size_t i = 0; i < n.second->fn.size(); i++) if (!n.second->def->special(i) && n.second->def->ftype[i] == ty && !fn_gone(n.second->fn[i])) {
          c.push_back({n.first, {"f" + std::to_string(i), n.second->fn[i]}});
          for (auto &x : n.second->def->extra_exports) if (x.second.first == 0 && x.second.second == i) c.push_back({n.first, {x.first, n.second->fn[i]}});
        }
      for (uint32_t k = 1; k < nplain; k++) if (hosts[k].type == ty) c.push_back({"host", {"h" + std::to_string(k), &hosts[k].f}});
      std::string field = "f" + std::to_string(opd(4));
      uint32_t k = opd(5);
      if (k < 4 && !c.empty()) { auto &x = c[opd(c.size())]; p->name = x.first; field = x.second.first; p->want = x.second.second; }
      else if (k == 4 || sp->names.empty()) p->name = "m" + std::to_string(90 + opd(9));
      else { p->name = sp->names[opd(sp->names.size())].first; field = std::string(1, "mtgx"[opd(4)]) + "0"; }
      second = cstr(field);
      logf("%s looks up %s.%s", v->hm->name.c_str(), p->name.c_str(), field.c_str());
    }
  }
  uint64_t n1 = expose(v, p, 0x100, cstr(p->name)), n2 = expose(v, p, p->kind == SITE_LOAD ? 0x2000 : 0x180, second);
  if (v->site->b == 0) hit(P_BSELFMEM);
  if (p->kind == SITE_LOAD && !p->must_fail && p->def->start >= 0) {
    hit(P_BSTART);
    p->linked = link(p->name, p->def, sp->env());
    begin_start(p->linked->fn[p->def->start]);
  }
  res = {len, n1, n2};
}
static bool now_loaded(Pend *p, pwart_module_state *st) {
  auto *m = pwart_namespace_find_module(p->s->ns, keep(p->name));
  if (!m || m->type != PWART_MODULE_TYPE_WASM_MODULE) return false;
  *st = m->val.wasm;
  return true;
}
static void progress(Inv *v) {
  auto *p = (Pend *)v->pend;
  if (p->kind != SITE_LOAD || p->bound) return;
  disarm();
  pwart_module_state st;
  if (p->must_fail || !now_loaded(p, &st)) return;
  // over a name in use: loaded exactly if the code of the old module is gone or the state changed
  if (p->over && st == p->old && find(*p->s, p->name)->fn.size() && pwart_get_export_function(st, "f0") == (pwart_wasm_function)find(*p->s, p->name)->fn[0]->real && fk_hit) return;
  if (p->over) hit(P_BOVER);
  p->bound = true;
  if (!p->linked) p->linked = link(p->name, p->def, p->s->env());
  adopt_begun(*p->s, p->name, p->linked, st);
  if (!p->over) nloaded++;
  hit(P_BLOAD);
}
static void report(Inv *v, uint32_t isnull, uint64_t ref) {
  auto *p = (Pend *)v->pend;
  v->pend = nullptr;
  disarm();
  RFunc *got = nullptr;
  switch (p->kind) {
    case SITE_LOAD:
      if (!isnull && !*(volatile char *)ref) violation("no-message", "a failed load reports an empty message");
      if (isnull && p->must_fail) violation("bad-loaded", "loading a module that must be refused (%s) is reported as success", p->what);
      if (!isnull && p->bound) violation("load-reported", "loading %s worked but is reported as failed: %s", p->name.c_str(), (char *)ref);
      if (isnull && !p->bound) violation("load-reported", "loading %s is reported as success but the namespace does not find it", p->name.c_str());
      if (!isnull && !p->must_fail && !fk_hit) violation("load-refused", "a valid module was refused: %s", (char *)ref);
      if (!isnull) { hit(P_BFAIL); sp = p->s; unchanged(p->before, p->name, p->seq, p->what); logf("load of %s failed", p->name.c_str()); }
      break;
    case SITE_UNLOAD:
      if (!isnull) violation("remove", "removing %s failed: %s", p->name.c_str(), (char *)ref);
      if (pwart_namespace_find_module(p->s->ns, keep(p->name))) violation("unload-reported", "unloading %s is reported as success but the namespace still finds it", p->name.c_str());
      hit(find(*p->s, p->name) ? P_BUNL : P_BUNL0);
      if (find(*p->s, p->name)) forget(*p->s, p->name);
      break;
    default:
      if (isnull != !p->want || (!isnull && (void *)ref != p->want->real)) violation("import-builtin", "looking up a function of %s gives %s", p->name.c_str(), isnull ? "nothing" : p->want ? "another one" : "something although there is nothing");
      hit(isnull ? P_BIMP0 : P_BIMP);
      got = p->want;
  }
  for (auto *b : p->bufs) guard_free(b);
  v->hres = {isnull, p->kind == SITE_IMPORT ? (uint64_t)got : ref};
  delete p;
  compare_state("after a builtin");
  code_verify_all("after a builtin");
  heap_check();
}
static void host_l04(HostCall &h) {
  uint32_t k = opd(24);
  if (k == 23) { sp = spaces[opd(spaces.size())]; drop_something(true); }
  else if (k == 22 && nloaded < 12) { cfg.starts = false; load_something(); cfg.starts = true; }
  std_host(h);
}
static void run_l04() {
  swarm();
  cfg.stmts = 2 + opd(3); cfg.depth = 2; cfg.aliases = opd(3) == 1; cfg.refuse_pct = 0;
  cfg.builtins = 3; cfg.starts = false;
  reenter_den = 4; max_depth = 4;
  setup_types(1 + opd(3)); setup_hosts(2 + opd(4)); setup_engine();
  engine_refuse = heapcfg.refuse; heapcfg.refuse = refuse; exec_refuse = refuse_exec;
  on_host = host_l04; on_prep = prep; on_progress = progress; on_report = report;
  disarm();
  size_t base_pw = heap_live(D_PW), base_jit = heap_live(D_SLJIT);
  uint64_t seq = heap_seq();
  spaces.clear(); loose.clear(); nloaded = 0;
  new_stack(1 << 20);
  for (int i = opd(3) == 2; i >= 0; i--) spaces.push_back(new_space());
  for (auto *s : spaces) for (int i = opd(2); i >= 0; i--) { sp = s; load_new(*sp, "m" + std::to_string(nloaded), 2 + opd(3)); nloaded++; }
  for (int i = 0, n = 2 + opd(6); i < n; i++) {
    op_mark();
    sp = spaces[opd(spaces.size())];
    uint32_t k = opd(12);
    if (k == 0) drop_something(false);
    else if (k == 1 && nloaded < 8) load_something();
    else if (k == 2 && nloaded < 8) {     // compiled for another namespace or by a compiler of one's own, then defined: it belongs to the namespace it is in
      Space *from = spaces[opd(spaces.size())];
      std::string n = "m" + std::to_string(nloaded++);
      RMod *m = load_by_compiler(*from, n, gen_module(from->env(), 1 + opd(3)));
      hit(from == sp ? P_ADOPT1 : P_ADOPT2);
      if (opd(3) == 2) { hit(P_RETARGET); retarget(*sp, m); loose.push_back(m); } else define_state(*sp, n, m);
    }
    else { auto v = usable(); if (!v.empty()) invoke_one(v[opd(v.size())]); }
    compare_state("after an operation");
  }
  code_verify_all("before the end");
  for (auto *m : loose) unload_free(m);
  for (auto *s : spaces) delete_space(*s);
  drop_stack();
  if (heap_live(D_PW) != base_pw) violation("heap-left", "%zu heap blocks are left after everything was unloaded: %s", heap_live(D_PW) - base_pw, heap_describe_live(seq).c_str());
  if (heap_live(D_SLJIT) != base_jit) violation("generator-left", "%zu heap blocks of the code generator are left after everything was unloaded", heap_live(D_SLJIT) - base_jit);
  if (code_live()) violation("code-left", "%zu pieces of generated code are left after everything was unloaded", code_live());
}
static Reg reg4({"L04", run_l04, "exploration", "distinct event logs: calls, builtin uses with their faults, start functions, host calls", 16000, 400000,
  "pwart builtins, loader, compiler, namespace and runtime, sljit code generator, the generated machine code run natively", "host functions; heap and executable memory behind the simulator, which refuses chosen allocations",
  {"the code in progress is not unloaded, nor what it is bound to", "refused allocations are those for memories, tables, the code generator and executable memory"}});
