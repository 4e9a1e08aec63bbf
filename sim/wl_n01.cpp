// N01: a namespace as a map from names to modules, with paired notifications, against an explicit map.
#include "drv.h"
#include <cstring>
#include <map>
using namespace sim;
using namespace drv;
static const int P_NEST = probe_kind("operation inside a notification");
static const int P_REPL = probe_kind("name defined again");
static const int P_DELN = probe_kind("namespace deleted");
static const int P_FAIL = probe_kind("load failed, namespace unchanged");
static const int P_META = probe_kind("meta module asked");
static const int F_BAD = fault_kind("module with an unresolvable import or damaged bytes");
static const int F_JIT = fault_kind("code generator refused memory");

struct NS;
struct HM {                                 // a host module written by the host
  pwart_host_module base;
  int id;
  NS *ns = nullptr; std::string name;       // where it is, as far as it was told
  bool attached = false;
  bool expect_attach = false, expect_detach = false;
  NS *to = nullptr; std::string toname;
  int nested = 0;
  char sym[4];
};
struct Ent { HM *h = nullptr; pwart_host_module *lib = nullptr; void **libsyms = nullptr; const char **libnames = nullptr; pwart_module_state st = nullptr; int id = 0; };
struct NS { pwart_namespace ns; std::map<std::string, Ent> m; std::map<std::string, int> busy; bool deleting = false; int id; };
static std::vector<NS *> nss;
static std::vector<HM *> idle;               // detached host modules
static int ids, depth;
static void some_op(NS *only_not);

static const char *NAMES[] = {"a", "b", "ab", "", "a-long-name-with-a-common-prefix-0123456789-1", "a-long-name-with-a-common-prefix-0123456789-2", "pwart_namespace_met", "c"};
struct TmpName {                             // a name the caller owns only for the duration of a call
  char *p; size_t n;
  TmpName(const std::string &s) { n = s.size() + 1; p = (char *)guard_alloc(n); memcpy(p, s.c_str(), n); }
  ~TmpName() { memset(p, 0x5a, n); guard_free(p); }
};
static bool refuse_jit;
static bool refuse(Domain d, const char *, size_t) { if (refuse_jit && d == D_SLJIT) { fired(F_JIT); return true; } return false; }

static void h_resolve(pwart_host_module *b, pwart_symbol_resolve_request *q) {
  HM *h = (HM *)b;
  q->result = nullptr;
  std::string x = "x" + std::to_string(h->id);
  if ((q->import_field == x || !strcmp(q->import_field, "f")) && q->kind == PWART_KIND_FUNCTION) q->result = &h->sym[q->import_field[0] == 'f'];
}
static void check_find(NS *n, const std::string &name) {
  if (n->deleting || n->busy[name]) return;
  TmpName t(name);
  auto *r = pwart_namespace_find_module(n->ns, t.p);
  auto it = n->m.find(name);
  int null_type = PWART_MODULE_TYPE_NULL
  if (it == n->m.end()) {
    if (r && r->type != null_type) violation("find", "'%s' is found although it is not defined", name.c_str());
    return;
  }
  Ent &e = it->second;
  if (!r || r->type == null_type) violation("find", "'%s' is not found", name.c_str());
  if (!r->name || strcmp(r->name, name.c_str())) violation("find-name", "the module found for '%s' has another name", name.c_str());
  if (e.h ? r->type != PWART_MODULE_TYPE_HOST_MODULE || r->val.host != &e.h->base : e.lib ? r->type != PWART_MODULE_TYPE_HOST_MODULE || r->val.host != e.lib : r->type != PWART_MODULE_TYPE_WASM_MODULE || r->val.wasm != e.st)
    violation("find", "'%s' finds another module", name.c_str());
}
static void check_resolve(NS *n, const std::string &name) {
  if (n->deleting || n->busy[name]) return;
  auto it = n->m.find(name);
  std::string field = opd(2) ? "f" : "x" + std::to_string(it != n->m.end() && opd(3) ? it->second.id : opd(ids + 1));
  void *want = nullptr;
  if (it != n->m.end()) {
    Ent &e = it->second;
    bool mine = field == "f" || field == "x" + std::to_string(e.id);
    if (mine) want = e.h ? (void *)&e.h->sym[field[0] == 'f'] : e.lib ? e.libsyms[field[0] == 'f'] : (void *)pwart_get_export_function(e.st, field.c_str());
    if (mine && !want) violation("resolve", "module '%s' does not export %s", name.c_str(), field.c_str());
  }
  TmpName t(name), t2(field);
  struct pwart_symbol_resolve_request q; q.import_module = t.p; q.import_field = t2.p; q.kind = PWART_KIND_FUNCTION; q.result = &q;
  auto *r = pwart_namespace_resolver(n->ns);
  r->resolve(r, &q);
  if (q.result != want) violation("resolve", "'%s'.%s resolves to %s", name.c_str(), field.c_str(), !q.result ? "nothing" : want ? "something else" : "something although it is not there");
}
static void check_meta(NS *n) {
  if (n->deleting) return;
  hit(P_META);
  struct pwart_symbol_resolve_request q; q.import_module = "pwart_namespace_meta"; q.import_field = "this"; q.kind = PWART_KIND_GLOBAL; q.result = nullptr;
  auto *r = pwart_namespace_resolver(n->ns);
  r->resolve(r, &q);
  if (!q.result || (q.result != n->ns && *(void **)q.result != n->ns)) violation("meta", "the namespace's meta module does not give the namespace");
}
static void check_all(NS *n) { for (auto *s : NAMES) check_find(n, s); if (opd(8) == 7) check_meta(n); }

static void nested(HM *h) {
  if (depth >= 3) return;
  depth++;
  for (int i = h->nested; i > 0; i--) { hit(P_NEST); some_op(nullptr); }
  depth--;
}
static void on_attached(pwart_host_module *b) {
  HM *h = (HM *)b;
  logf("  attached %d", h->id);
  if (h->attached) violation("notify", "host module %d is told it is attached a second time", h->id);
  if (!h->expect_attach) violation("notify", "host module %d is told it is attached although it is not being defined", h->id);
  h->expect_attach = false; h->attached = true; h->ns = h->to; h->name = h->toname;
  if (h->base.namespace2 != h->ns->ns) violation("notify", "host module %d is attached without being given its namespace", h->id);
  nested(h);
}
static void on_detached(pwart_host_module *b) {
  HM *h = (HM *)b;
  logf("  detached %d", h->id);
  if (!h->attached) violation("notify", "host module %d is told it is removed although it is not attached", h->id);
  if (!h->expect_detach && !h->ns->deleting) violation("notify", "host module %d is told it is removed although it is defined", h->id);
  h->attached = h->expect_detach = false;
  NS *n = h->ns;
  auto it = n->m.find(h->name);
  if (it != n->m.end() && it->second.h == h) n->m.erase(it);
  nested(h);
  idle.push_back(h);
}
static pwart_host_module *new_lib(Ent &e) {
  e.id = ++ids;
  e.libnames = new const char *[2]; e.libnames[0] = keep("x" + std::to_string(e.id)); e.libnames[1] = "f";
  e.libsyms = new void *[2]; e.libsyms[0] = new char; e.libsyms[1] = new char;
  e.lib = opd(2) ? pwart_namespace_new_host_module2(e.libnames, e.libsyms, 2) : pwart_namespace_new_host_module(e.libnames, (pwart_host_function_c *)e.libsyms, 2);
  return e.lib;
}
// a module exporting two functions, importing the given ones
static std::vector<uint8_t> tiny(int id, const std::vector<std::pair<std::string, std::string>> &imps) {
  ModDef d; static std::vector<FType> ty{{{}, {}}}; d.types = &ty;
  for (auto &x : imps) { Imp i; i.kind = 0; i.mod = x.first; i.field = x.second; i.type = 0; d.imps.push_back(i); d.ftype.push_back(0); d.nif++; }
  for (int k = 0; k < 2; k++) { FuncDef f; f.type = 0; d.fn.push_back(f); d.ftype.push_back(0); }
  d.extra_exports.push_back({"f", {0, d.nif}}); d.extra_exports.push_back({"x" + std::to_string(id), {0, d.nif + 1}});
  return encode(d);
}
static void end_replaced(NS *n, const std::string &name, Ent old, bool had) {
  if (!had) return;
  if (old.h && old.h->expect_detach) violation("notify", "host module %d was replaced or removed without being told", old.h->id);
  if (old.lib) pwart_namespace_delete_host_module(old.lib);
}
// the old entry goes away in the coming call
static bool begin_replace(NS *n, const std::string &name, Ent *old) {
  auto it = n->m.find(name);
  if (it == n->m.end()) return false;
  *old = it->second;
  if (old->h) old->h->expect_detach = true; else n->m.erase(it);
  return true;
}
static NS *pick_ns() { std::vector<NS *> v; for (auto *n : nss) if (!n->deleting) v.push_back(n); return v.empty() ? nullptr : v[opd(v.size())]; }
static void op_define(NS *n, const std::string &name) {
  Ent e, old;
  int k = opd(6);
  if (n->m.count(name)) hit(P_REPL);
  if (k < 3) {
    HM *h;
    if (!idle.empty() && opd(2)) { h = idle.back(); idle.pop_back(); }
    else { h = new HM(); h->id = ++ids; h->base.resolve = h_resolve; h->base.on_attached = on_attached; h->base.on_detached = on_detached; }
    h->nested = opd(3) == 2 ? 1 + opd(2) : 0;
    e.h = h; e.id = h->id;
    h->expect_attach = true; h->to = n; h->toname = name;
    h->base.namespace2 = nullptr;
    n->busy[name]++;
    bool had = begin_replace(n, name, &old);
    logf("n%d define host %d as '%s'", n->id, h->id, name.c_str());
    { TmpName t(name); 
      if (opd(2)) pwart_namespace_define_host_module(n->ns, t.p, &h->base);
      else { struct pwart_named_module q; q.name = t.p; q.type = PWART_MODULE_TYPE_HOST_MODULE; q.val.host = &h->base; char *er = pwart_namespace_define_module(n->ns, &q); memset(&q, 0x5a, sizeof q); if (er) violation("define", "defining a host module failed: %s", er); } }
    n->busy[name]--;
    end_replaced(n, name, old, had);
    if (h->expect_attach) violation("notify", "host module %d was defined without being told", h->id);
    n->m[name] = e;
  } else if (k == 3) {
    n->busy[name]++;
    bool had = begin_replace(n, name, &old);
    auto *l = new_lib(e);
    logf("n%d define library %d as '%s'", n->id, e.id, name.c_str());
    { TmpName t(name); pwart_namespace_define_host_module(n->ns, t.p, l); }
    n->busy[name]--;
    end_replaced(n, name, old, had);
    n->m[name] = e;
  } else {
    int id = ++ids;
    std::vector<std::pair<std::string, std::string>> imps;
    bool ok = true;
    for (int i = opd(3); i > 0; i--) {
      std::string from = NAMES[opd(8)];
      if (n->busy[from]) continue;
      auto it = n->m.find(from);
      std::string field = opd(2) ? "f" : "x" + std::to_string(it != n->m.end() && opd(4) ? it->second.id : id);
      if (it == n->m.end() || (field != "f" && field != "x" + std::to_string(it->second.id))) ok = false;
      if (it == n->m.end() && opd(3)) { ok = ok || true; imps.clear(); ok = true; continue; }
      imps.push_back({from, field});
    }
    ok = true;
    for (auto &x : imps) { auto it = n->m.find(x.first); if (it == n->m.end() || (x.second != "f" && x.second != "x" + std::to_string(it->second.id))) ok = false; }
    auto b = tiny(id, imps);
    uint32_t bad = opd(8);
    bool cut = bad == 7, jit = bad == 6;
    if (cut) { b.resize(b.size() - 1 - opd(b.size() / 2)); if (b.size() < 9) b.resize(7); b[opd(4)] ^= 0x40; ok = false; }
    if (!ok) fired(F_BAD);
    size_t live = heap_live_total(), code = code_live();
    Ent keep_old; bool exists = n->m.count(name); if (exists) keep_old = n->m[name];
    if (jit) ok = false;
    n->busy[name]++;
    bool had = ok && begin_replace(n, name, &old);
    logf("n%d load %d as '%s' (%zu imports)%s", n->id, id, name.c_str(), imps.size(), ok ? "" : jit ? ", memory refused" : ", not loadable");
    char *err = nullptr;
    uint8_t *buf = (uint8_t *)guard_alloc(b.size()); memcpy(buf, b.data(), b.size());
    refuse_jit = jit;
    set_context("loading a module");
    pwart_module_state st;
    { TmpName t(name); st = (pwart_module_state)pwart_namespace_define_wasm_module(n->ns, t.p, (char *)buf, b.size(), opd(4) ? &err : (err = (char *)"-", nullptr)); }
    refuse_jit = false;
    guard_free(buf);
    n->busy[name]--;
    if (!ok) {
      if (st) violation("load", "a module that cannot be loaded was loaded");
      if (!err) violation("load", "no message for a failed load");
      hit(P_FAIL);
      if (heap_live_total() != live || code_live() != code) violation("load-leak", "a failed load changed the number of live blocks");
      return;
    }
    if (!st) violation("load", "a valid module was refused: %s", err);
    end_replaced(n, name, old, had);
    e.st = st; e.id = id;
    n->m[name] = e;
  }
}
static void op_remove(NS *n, const std::string &name) {
  Ent old;
  logf("n%d remove '%s'", n->id, name.c_str());
  n->busy[name]++;
  bool had = begin_replace(n, name, &old);
  char *er;
  bool own = had && opd(3) == 2;              // the name as it stands in the list
  if (own) { TmpName t(name); auto *r = pwart_namespace_find_module(n->ns, t.p); if (!r) violation("find", "'%s' is not found", name.c_str()); er = pwart_namespace_remove_module(n->ns, r->name); }
  else { TmpName t(name); er = pwart_namespace_remove_module(n->ns, t.p); }
  n->busy[name]--;
  if (er) violation("remove", "removing '%s' failed: %s", name.c_str(), er);
  end_replaced(n, name, old, had);
}
static void op_new() {
  NS *n = new NS; n->ns = pwart_namespace_new(); n->id = nss.size(); 
  if (!n->ns) violation("namespace", "no namespace was created");
  logf("n%d new", n->id);
  nss.push_back(n);
}
static void op_delete(NS *n) {
  hit(P_DELN);
  logf("n%d delete", n->id);
  std::vector<HM *> hs; std::vector<Ent> libs;
  for (auto &x : n->m) { if (x.second.h) hs.push_back(x.second.h); if (x.second.lib) libs.push_back(x.second); }
  n->deleting = true;
  char *er = pwart_namespace_delete(n->ns);
  if (er) violation("remove", "deleting a namespace failed: %s", er);
  for (auto *h : hs) if (h->attached && h->ns == n) violation("notify", "host module %d was not told that its namespace is deleted", h->id);
  for (auto &l : libs) pwart_namespace_delete_host_module(l.lib);
  n->m.clear(); n->ns = nullptr;
}
static void some_op(NS *) {
  NS *n = pick_ns();
  if (!n) { if (depth == 0) op_new(); return; }
  std::string name = NAMES[opd(8)];
  uint32_t k = opd(12);
  bool free_name = !n->busy[name];
  if (k < 5) { if (free_name) op_define(n, name); }
  else if (k < 7) { if (free_name) op_remove(n, name); }
  else if (k == 7) check_resolve(n, name);
  else if (k == 8) check_find(n, name);
  else if (k == 9) check_meta(n);
  else if (k == 10) { if (nss.size() < 4) op_new(); }
  else if (depth == 0 && opd(3) == 2) op_delete(n);
  else check_resolve(n, name);
}
static void run() {
  cfg = Cfg();
  nss.clear(); idle.clear(); ids = depth = 0;
  setup_engine();
  heapcfg.refuse = refuse;
  op_new();
  for (int i = 0, n = 6 + opd(50); i < n; i++) {
    op_mark();
    some_op(nullptr);
    for (auto *x : nss) if (!x->deleting) check_all(x);
  }
  for (size_t i = 0; i < nss.size(); i++) if (!nss[i]->deleting) { op_mark(); op_delete(nss[i]); }
  for (auto *h : idle) if (h->attached) harness_error("idle host module attached");
  code_verify_all("at the end");
  if (code_live()) violation("code-leak", "%zu pieces of code are left after all namespaces were deleted", code_live());
}
static Reg reg({"N01", run, "exploration", "distinct event logs: namespace operations and notifications", 30000, 800000,
  "pwart namespace, loader, compiler", "host modules with notifications that use the namespaces again; heap and executable memory behind the simulator",
  {"a notification does not operate on the very name being defined or removed, nor define into a namespace being deleted"}});
