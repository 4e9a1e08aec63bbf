#include "drv.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
using namespace sim;
namespace drv {
static const int P_REENTER = probe_kind("host function re-enters");
static const int P_MUT = probe_kind("host changes shared state");
uint32_t reenter_den = 3;
int max_depth = 4;
static std::deque<std::string> kept;
const char *keep(const std::string &s) { kept.push_back(s); return kept.back().c_str(); }
Space *new_space() {
  Space *s = new Space;
  s->ns = pwart_namespace_new();
  if (!s->ns) violation("namespace", "no namespace was created");
  pwart_namespace_define_host_module(s->ns, "host", host_module());
  return s;
}
static void dump(const std::string &name, const std::vector<uint8_t> &b) {   // for debugging only
  const char *d = getenv("SIM_DUMP");
  if (!d) return;
  static int k; FILE *f = fopen((std::string(d) + "/" + std::to_string(k++) + "-" + name + ".wasm").c_str(), "wb");
  if (f) { fwrite(b.data(), 1, b.size(), f); fclose(f); }
}
static void set_name(Space &s, const std::string &name, RMod *m);
static void post(RMod *m, pwart_module_state st) {
  bind_real(m, st);
  code_verify_all("after a load");
  compare_module(m, "after its load");
}
RMod *load(Space &s, const std::string &name, std::shared_ptr<ModDef> d) {
  auto b = encode(*d);
  dump(name, b);
  char *err = nullptr;
  uint8_t *buf = (uint8_t *)guard_alloc(b.size());
  memcpy(buf, b.data(), b.size());
  logf("load %s (%zu bytes, %zu functions, %zu memories, %zu tables, %zu imports)", name.c_str(), b.size(), d->fn.size(), d->mems.size(), d->tabs.size(), d->imps.size());
  set_context("loading %s", name.c_str());
  auto st = (pwart_module_state)pwart_namespace_define_wasm_module(s.ns, keep(name), (const char *)buf, (int)b.size(), &err);
  if (!st) violation("load-refused", "a valid module was refused: %s", err ? err : "no message");
  memset(buf, 0xdb, b.size());
  guard_free(buf);
  RMod *m = link(name, d, s.env());
  set_name(s, name, m);
  post(m, st);
  return m;
}
Env Registry::env() {
  Env e;
  for (auto &n : names) if (n.second && n.second->alive && !n.second->broken) e.mods.push_back(n);
  if (behind) for (auto &n : behind->env().mods) { bool dup = false; for (auto &q : names) if (q.first == n.first && q.second) dup = true; if (!dup) e.mods.push_back(n); }
  return e;
}
static void resolve_registered(struct pwart_symbol_resolver *t, struct pwart_symbol_resolve_request *q) {
  Registry *r = (Registry *)t;
  q->result = nullptr;
  for (auto &n : r->names) if (n.second && n.first == q->import_module) {
    auto st = n.second->st; const char *f = q->import_field;
    switch (q->kind) {
      case PWART_KIND_FUNCTION: q->result = (void *)pwart_get_export_function(st, f); break;
      case PWART_KIND_TABLE: q->result = pwart_get_export_table(st, f); break;
      case PWART_KIND_MEMORY: q->result = pwart_get_export_memory(st, f); break;
      case PWART_KIND_GLOBAL: q->result = pwart_get_export_global(st, f); break;
    }
    return;
  }
  if (!strcmp(q->import_module, "host")) { host_module()->resolve(host_module(), q); return; }
  if (r->behind) { auto *b = pwart_namespace_resolver(r->behind->ns); b->resolve(b, q); }
}
Registry *new_registry(Space *behind) { auto *r = new Registry; r->base.resolve = resolve_registered; r->behind = behind; return r; }
static RMod *compile_with(struct pwart_symbol_resolver *res, const Env &env, const std::string &name, std::shared_ptr<ModDef> d) {
  auto b = encode(*d);
  dump(name, b);
  uint8_t *buf = (uint8_t *)guard_alloc(b.size());
  memcpy(buf, b.data(), b.size());
  logf("compile %s (%zu bytes, %zu functions, %zu imports)", name.c_str(), b.size(), d->fn.size(), d->imps.size());
  set_context("compiling %s", name.c_str());
  auto c = pwart_new_module_compiler();
  pwart_set_symbol_resolver(c, res);
  char *err = pwart_compile(c, (char *)buf, (int)b.size());
  if (err) violation("load-refused", "a valid module was refused: %s", err);
  auto st = pwart_get_module_state(c);
  pwart_free_module_compiler(c);
  memset(buf, 0xdb, b.size());
  guard_free(buf);
  RMod *m = link(name, d, env);
  m->home = res;
  post(m, st);
  return m;
}
RMod *load_by_compiler(Space &s, const std::string &name, std::shared_ptr<ModDef> d) { return compile_with(pwart_namespace_resolver(s.ns), s.env(), name, d); }
RMod *load_registered(Registry &r, const std::string &name, std::shared_ptr<ModDef> d) {
  RMod *m = compile_with(&r.base, r.env(), name, d);
  for (auto &n : r.names) if (n.first == name) { n.second = m; return m; }
  r.names.push_back({name, m});
  return m;
}
void check_lookups(Space &s, struct pwart_symbol_resolver *res, Registry *r) {
  std::vector<std::pair<std::string, RMod *>> all = s.names;
  if (r) for (auto &n : r->names) if (n.second) { bool f = false; for (auto &q : all) if (q.first == n.first) { q.second = n.second; f = true; } if (!f) all.push_back(n); }
  for (int i = 0; i < 4 && !all.empty(); i++) {
    auto &n = all[opd(all.size())];
    struct pwart_symbol_resolve_request q;
    int kind = opd(4);
    std::string field = std::string(1, "ftmg"[opd(5) ? kind : opd(4)]) + std::to_string(opd(opd(3) ? 4 : 14));
    if (n.second && !n.second->def->extra_exports.empty() && opd(3) == 1) field = n.second->def->extra_exports[opd(n.second->def->extra_exports.size())].first;
    static const int K[] = {PWART_KIND_FUNCTION, PWART_KIND_TABLE, PWART_KIND_MEMORY, PWART_KIND_GLOBAL};
    q.import_module = n.first.c_str(); q.import_field = field.c_str(); q.kind = K[kind]; q.result = &q;
    set_context("resolving %s.%s", n.first.c_str(), field.c_str());
    res->resolve(res, &q);
    void *want = n.second && n.second->alive ? object_of(n.second, kind, field) : nullptr;
    if (q.result != want) violation("resolve", "resolving %s.%s as %c gives %s", n.first.c_str(), field.c_str(), "ftmg"[kind], !q.result ? "nothing" : !want ? "something although there is nothing" : "another object");
  }
}
RMod *adopt_loaded(Space &s, const std::string &name, std::shared_ptr<ModDef> d, pwart_module_state st, bool in_namespace) {
  RMod *m = link(name, d, s.env());
  if (in_namespace) set_name(s, name, m);
  post(m, st);
  return m;
}
void adopt_begun(Space &s, const std::string &name, RMod *m, pwart_module_state st) {
  set_name(s, name, m);
  bind_real(m, st);
}
void forget(Space &s, const std::string &name) { set_name(s, name, nullptr); }
RMod *load_new(Space &s, const std::string &name, int nfn) { return load(s, name, gen_module(s.env(), nfn)); }
bool callable(RMod *m) { return m->alive && m->st && !m->broken; }
std::vector<RMod *> usable() { std::vector<RMod *> v; for (auto *m : mods) if (callable(m)) v.push_back(m); return v; }
RFunc *pick_func(RMod *m) {
  RFunc *f = m->fn[opd(m->fn.size())];
  if (f->host >= 0 || fn_gone(f) || !f->m->st) { for (auto *g : m->fn) if (g->m == m) return g; return nullptr; }
  return f;
}
bool can_unload(RMod *m) { return m->active == 0; }
RMod *find(Space &s, const std::string &name) { for (auto &n : s.names) if (n.first == name) return n.second; return nullptr; }
void define_state(Space &s, const std::string &name, RMod *m) {
  struct pwart_named_module q; q.name = keep(name); q.type = PWART_MODULE_TYPE_WASM_MODULE; q.val.wasm = m->st;
  logf("define %s as %s", m->name.c_str(), name.c_str());
  set_context("defining %s", name.c_str());
  char *e = pwart_namespace_define_module(s.ns, &q);
  if (e) violation("define", "defining %s failed: %s", name.c_str(), e);
  set_name(s, name, m);
}
void retarget(Space &s, RMod *m) {
  m->home = pwart_namespace_resolver(s.ns);
  logf("%s gets another resolver", m->name.c_str());
  char *e = pwart_set_state_symbol_resolver(m->st, m->home);
  if (e) violation("set-resolver", "%s", e);
}
static void set_name(Space &s, const std::string &name, RMod *m) {
  if (m && !m->host) m->home = pwart_namespace_resolver(s.ns);
  for (auto &n : s.names) if (n.first == name) { if (n.second && !n.second->host && n.second->alive) kill(n.second); n.second = m; return; }
  s.names.push_back({name, m});
}
void unload(Space &s, const std::string &name) {
  logf("remove %s", name.c_str());
  set_context("removing %s", name.c_str());
  char *e = pwart_namespace_remove_module(s.ns, keep(name));
  if (e) violation("remove", "removing %s failed: %s", name.c_str(), e);
  set_name(s, name, nullptr);
}
void unload_free(RMod *m) {
  logf("free %s", m->name.c_str());
  set_context("freeing %s", m->name.c_str());
  char *e = pwart_free_module_state(m->st);
  if (e) violation("remove", "freeing %s failed: %s", m->name.c_str(), e);
  kill(m);
}
void define_host(Space &s, const std::string &name, RMod *m) {
  logf("define host module %s (%zu functions, %zu memories, %zu tables, %zu globals)", name.c_str(), m->fn.size(), m->mems.size(), m->tabs.size(), m->globs.size());
  pwart_namespace_define_host_module(s.ns, keep(name), host_objects_module(m));
  set_name(s, name, m);
}
void delete_space(Space &s) {
  logf("delete namespace");
  set_context("deleting a namespace");
  char *e = pwart_namespace_delete(s.ns);
  if (e) violation("remove", "deleting the namespace failed: %s", e);
  std::vector<RMod *> gone;
  for (auto &n : s.names) if (n.second && !n.second->host && n.second->alive) gone.push_back(n.second);
  for (auto *m : gone) m->alive = false;
  for (auto *m : gone) kill(m);
  s.names.clear(); s.ns = nullptr;
}
void invoke_one(RMod *m, uint8_t *at) {
  RFunc *f = pick_func(m);
  if (!f) return;
  auto a = draw_args(f->type, m);
  if (fctx().inv.empty()) reset_fuel();
  invoke(f, a, at);
}
void std_host(HostCall &h) {
  if (opd(4) == 1) { auto v = usable(); if (!v.empty()) { hit(P_MUT); host_mutate(v[opd(v.size())]); } }
  if (reenter_den && opd(reenter_den) == 1 && (int)fctx().inv.size() < max_depth) {
    auto v = usable();
    if (v.empty()) return;
    hit(P_REENTER);
    invoke_one(v[opd(v.size())], h.free_stack);
  }
}
void swarm() {
  cfg = Cfg();
  cfg.align = opd(4) == 1;
  cfg.extend = opd(4) != 2;
  cfg.zeroinit = opd(5) != 2;
  cfg.floats = opd(3) != 2;
  cfg.refs = opd(4) != 3;
  cfg.tail = opd(3) != 2;
  cfg.multi = opd(3) != 2;
  cfg.multimem = opd(3) != 2;
  cfg.maxparam = 3 + opd(5);
  cfg.maxres = 2 + opd(3);
  cfg.stmts = 3 + opd(4);
  cfg.depth = 2 + opd(3);
  cfg.cap = 8 + opd(40);
  cfg.fuel = 6 + opd(12);
  cfg.refuse_pct = opd(3) == 1 ? 30 : 0;
  cfg.w_call = 1 + opd(5);
  cfg.w_mem = 1 + opd(4);
  cfg.w_grow = opd(3);
  cfg.growth = cfg.w_grow > 0;
  cfg.w_tab = opd(4);
  cfg.w_num = 1 + opd(4);
  cfg.w_host = 1 + opd(4);
}
void begin(int nhosts, int ntypes) {
  setup_types(ntypes);
  setup_hosts(nhosts);
  setup_engine();
  new_stack(1 << 18);
  on_host = std_host;
}
}
