// S05: attaching and detaching the system libraries in any order over several namespaces, with and without WASI.
#include "wcall.h"
#include "simuv.h"
#include "simwasi.h"
#include "simffi.h"
#include "wat_wasi.h"
#include "wat_ffi.h"
#include "wat_threads.h"
#include "wasi_ops.h"
#include <algorithm>
extern "C" {
#include <pwart_syslib.h>
}
using namespace sim;
namespace {
const int P_TWICE = probe_kind("attached twice"), P_ABSENT = probe_kind("detached where nothing is attached"), P_NOWASI = probe_kind("detached without WASI"), P_OWN = probe_kind("own module under a library's name"), P_DELETE = probe_kind("namespace deleted with libraries attached"),
  P_REINIT = probe_kind("WASI initialised while attached"), P_LATE = probe_kind("WASI attached later"), P_MISSING = probe_kind("module refused for a detached library"), P_AFTER = probe_kind("program kept working after its library was detached"), P_MANY = probe_kind("attached in three namespaces"), P_ALONE = probe_kind("one library removed by name"), P_DEADENV = probe_kind("initialisation failed while attached");
const uint64_t G1 = 0x1122334455667788ull, G2 = 0x0102030405060708ull;
const char *NAME[] = {"libuv", "libffi", "wasi_snapshot_preview1"};
enum State { NONE, OURS, OWN };
struct Ns { pwart_namespace ns; State st[3] = {NONE, NONE, NONE}; struct pwart_host_module *mod[3] = {nullptr, nullptr, nullptr}; std::vector<struct pwart_host_module *> own; struct pwart_host_module *env; pwart_module_state prog[3] = {nullptr, nullptr, nullptr}; int detached = 0, own_told = 0; };
std::vector<Ns *> all;
Ns *wasi_at;
bool inited;
uint8_t *stack;
int told;
void on_own_detached(struct pwart_host_module *) { told++; }
void h_none(void *) {}
struct pwart_host_module *own_module() {
  static const char *names[] = {"mine"};
  static pwart_host_function_c fns[] = {h_none};
  auto *m = pwart_namespace_new_host_module(names, fns, 1);
  m->on_detached = on_own_detached;
  return m;
}
void *resolve(struct pwart_host_module *m, const char *name) {
  struct pwart_symbol_resolve_request r; memset(&r, 0, sizeof r);
  r.import_module = ""; r.import_field = name; r.kind = PWART_KIND_FUNCTION;
  m->resolve(m, &r);
  return r.result;
}
const char *UV[] = {"uv_version", "uv_dlopen", "uv_dlsym", "uv_dlclose", "uv_thread_create", "uv_mutex_init", "uv_mutex_destroy", "uv_mutex_lock", "uv_mutex_unlock", "uv_mutex_trylock", "uv_cond_init", "uv_cond_destroy", "uv_cond_signal", "uv_cond_wait"};
const char *FFI[] = {"ffi_is_enabled", "ffi_prep_cif", "ffi_prep_cif_var", "ffi_call", "ffi_default_abi", "ffi_built_in_types", "ffix_new_cif", "ffix_del_cif", "ffix_call", "ffi_closure_alloc", "ffi_closure_free", "ffi_prep_closure_loc", "ffix_new_c_callback", "ffix_del_c_callback"};
std::vector<std::string> functions(int k) {
  std::vector<std::string> o;
  if (k == 0) for (auto *s : UV) o.push_back(s); else if (k == 1) for (auto *s : FFI) o.push_back(s); else for (auto &w : WASI_OPS) o.push_back(w.name);
  return o;
}
void gone(Ns *n, int k) {                        // the library left the namespace
  if (n->st[k] == OURS) {
    if (heap_range_live(n->mod[k], 8)) violation("detach-leak", "%s is detached but its module still takes memory", NAME[k]);
    if (k == 2) { wasi_at = nullptr; inited = false; }
    n->detached |= 1 << k;
  }
  n->st[k] = NONE; n->mod[k] = nullptr;
}
void check(Ns *n) {
  for (int k = 0; k < 3; k++) {
    auto *m = pwart_namespace_find_module(n->ns, NAME[k]);
    if (n->st[k] == NONE) { if (m) violation("found", "%s is found although it is not attached", NAME[k]); continue; }
    if (!m) violation("missing", "%s is not found although it is attached", NAME[k]);
    if (m->type != PWART_MODULE_TYPE_HOST_MODULE || !heap_range_live(m->val.host, 8)) violation("stale", "%s names a module that is gone", NAME[k]);
    if (n->st[k] == OWN) { if (m->val.host != n->mod[k]) violation("replaced", "another module took the place of the user's %s", NAME[k]); continue; }
    n->mod[k] = m->val.host;
    if (m->val.host->namespace2 != n->ns) violation("stale", "%s belongs to another namespace", NAME[k]);
  }
  if (simwasi.live.size() != (inited ? 1 : 0)) violation("environment", "%zu WASI environments are initialised instead of %d", simwasi.live.size(), inited);
}
void deep(Ns *n) {
  for (int k = 0; k < 3; k++) if (n->st[k] == OURS) {
    std::set<void *> seen;
    for (auto &f : functions(k)) { void *p = resolve(n->mod[k], f.c_str()); if (!p) violation("function", "%s lacks %s", NAME[k], f.c_str()); if (!seen.insert(p).second) violation("function", "%s of %s is another function too", f.c_str(), NAME[k]); }
    for (auto *s : {"", "uv_", "ffi", "path", "uv_version2"}) if (resolve(n->mod[k], s)) violation("function", "%s has a function '%s'", NAME[k], s);
  } else if (n->st[k] == OWN) if (!resolve(n->mod[k], "mine")) violation("function", "the user's module lost its function");
}
std::vector<uint64_t> thunk(Ns *n, int k, const char *name, const std::vector<wc::V> &a, const char *res) {
  set_context("%s", name);
  auto o = wc::call(wc::fn(n->prog[k], name), stack, a, res);
  if (o[0] != G1 || o.back() != G2) violation("operands", "%s lost operands of its caller", name);
  return o;
}
void use(Ns *n) {
  for (int k = 0; k < 3; k++) if (n->prog[k] && opd(2)) {
    if (n->detached >> k & 1) { if (k == 2) continue; hit(P_AFTER); }
    if (k == 2 && (n->st[k] != OURS || !inited)) continue;
    if (k == 0) { if ((uint32_t)thunk(n, 0, "version", {}, "lil")[1] != UV_VERSION_HEX) violation("use", "uv_version returned something else"); }
    else if (k == 1) { if ((uint32_t)thunk(n, 1, "ffi_is_enabled", {}, "lil")[1] != 1) violation("use", "ffi_is_enabled returned something else"); }
    else {
      auto *mem = pwart_get_export_memory(n->prog[2], "mem");
      pwart_wasi_module_set_wasimemory(mem);
      int64_t t0 = simwasi.clock;
      if ((uint32_t)thunk(n, 2, "clock_time_get", {wc::i(0), wc::l(0), wc::i(64)}, "lil")[1]) violation("use", "clock_time_get failed");
      int64_t t; memcpy(&t, mem->bytes + 64, 8);
      if (t != simwasi.clock || t < t0) violation("use", "clock_time_get delivered another time");
    }
    op_mark();
  }
}
void define(Ns *n, int k) {
  static const unsigned char *B[] = {wat_threads, wat_ffi, wat_wasi};
  static const int L[] = {sizeof wat_threads, sizeof wat_ffi, sizeof wat_wasi};
  std::string name = "prog" + std::to_string(k);
  std::vector<char> copy(B[k], B[k] + L[k]);
  char *e = nullptr;
  set_context("loading a program importing %s", NAME[k]);
  auto m = (pwart_module_state)pwart_namespace_define_wasm_module(n->ns, name.c_str(), copy.data(), copy.size(), &e);
  logf("ns %p define %s: %s", (void *)(size_t)(std::find(all.begin(), all.end(), n) - all.begin()), name.c_str(), e ? "refused" : "ok");
  if (n->st[k] == OURS) { if (e || !m) violation("load", "a program using the attached %s was refused: %s", NAME[k], e ? e : ""); n->prog[k] = m; n->detached &= ~(1 << k); }
  else { hit(P_MISSING); if (!e || m) violation("load", "a program using %s was loaded although it is not attached", NAME[k]); if (pwart_namespace_find_module(n->ns, name.c_str()) && !n->prog[k]) violation("load", "a refused program is found"); }
  op_mark();
}
void run_s05() {
  simwasi.init_fail_pct = opd(3) == 2 ? 20 + opd(50) : 0;
  size_t pw0 = heap_live(D_PW), sy0 = heap_live(D_SYSLIB), jit0 = heap_live(D_SLJIT), other0 = heap_live(D_OTHER);
  uint64_t seq = heap_seq();
  wc::config();
  stack = (uint8_t *)pwart_allocate_stack(16384);
  static char *args[] = {(char *)"prog", nullptr};
  pwart_wasi_module_set_wasiargs(1, args);
  auto idx = [&](Ns *n) { return (int)(std::find(all.begin(), all.end(), n) - all.begin()); };
  auto add = [&] {
    auto *n = new Ns; n->ns = pwart_namespace_new();
    static const char *names[] = {"begin", "end", "script", "yield", "bad", "cb"};
    static pwart_host_function_c fns[] = {h_none, h_none, h_none, h_none, h_none, h_none};
    n->env = pwart_namespace_new_host_module(names, fns, 6);
    pwart_namespace_define_host_module(n->ns, "env", n->env);
    all.push_back(n);
    logf("new namespace");
  };
  auto destroy = [&](Ns *n) {
    logf("delete namespace %d", idx(n));
    set_context("deleting a namespace");
    if (n->st[0] == OURS || n->st[1] == OURS) hit(P_DELETE);
    if (char *e = pwart_namespace_delete(n->ns)) violation("delete", "deleting a namespace failed: %s", e);
    for (int k = 0; k < 3; k++) gone(n, k);
    for (auto *m : n->own) pwart_namespace_delete_host_module(m);
    pwart_namespace_delete_host_module(n->env);
    all.erase(std::find(all.begin(), all.end(), n));
    delete n;
  };
  add();
  for (int i = 8 + opd(40); i > 0; i--) {
    op_mark();
    if (all.empty() || (all.size() < 3 && opd(12) == 0)) { add(); continue; }
    Ns *n = all[opd(all.size())];
    set_context("step");
    switch (opd(14)) {
      case 0: case 1: case 2: case 3: {          // attach
        if (inited && wasi_at && wasi_at != n) break;        // one WASI module at a time, as documented
        if (n->st[0] == OURS && n->st[1] == OURS) hit(P_TWICE);
        if (n->st[0] == OURS && inited && n->st[2] != OURS) hit(P_LATE);
        logf("attach to %d", idx(n));
        set_context("attaching");
        if (char *e = pwart_syslib_load(n->ns)) violation("attach", "attaching failed: %s", e);
        for (int k = 0; k < 3; k++) if (k < 2 || inited) { n->st[k] = OURS; if (k == 2) wasi_at = n; }
        if (all.size() == 3 && std::all_of(all.begin(), all.end(), [](Ns *x) { return x->st[0] == OURS; })) hit(P_MANY);
        break;
      }
      case 4: case 5: case 6: {                  // detach
        if (n->st[0] != OURS && n->st[1] != OURS && n->st[2] != OURS) hit(P_ABSENT); else if (n->st[2] != OURS) hit(P_NOWASI);
        logf("detach from %d", idx(n));
        set_context("detaching");
        if (char *e = pwart_syslib_unload(n->ns)) violation("detach", "detaching failed: %s", e);
        for (int k = 0; k < 3; k++) if (n->st[k] == OURS) gone(n, k);
        break;
      }
      case 7: case 8: {                          // initialise WASI
        uint64_t before = simwasi.inits;
        if (wasi_at) hit(P_REINIT);
        char *e = pwart_wasi_module_init();
        bool ok = simwasi.inits > before;
        logf("init: %d", ok);
        if (ok != !e) violation("init", "initialising WASI reports '%s' although it %s", e ? e : "", ok ? "succeeded" : "failed");
        if (!ok && wasi_at) hit(P_DEADENV);
        inited = ok;
        break;
      }
      case 9: {                                  // the user's own module under a library's name
        int k = opd(3);
        hit(P_OWN);
        auto *m = own_module(); n->own.push_back(m);
        logf("own %s in %d", NAME[k], idx(n));
        State was = n->st[k]; int t = told;
        pwart_namespace_define_host_module(n->ns, NAME[k], m);
        if (was == OWN && told != t + 1) violation("replaced", "the user's module was not told that it was replaced");
        gone(n, k);
        n->st[k] = OWN; n->mod[k] = m;
        break;
      }
      case 10: { int k = opd(3); hit(P_ALONE); logf("remove %s from %d", NAME[k], idx(n)); set_context("removing a library"); if (char *e = pwart_namespace_remove_module(n->ns, NAME[k])) violation("detach", "removing %s failed: %s", NAME[k], e); gone(n, k); break; }
      case 11: define(n, opd(3)); break;
      case 12: use(n); break;
      default: if (opd(3) == 0) { destroy(n); n = nullptr; } else { define(n, opd(3)); use(n); }
    }
    for (auto *x : all) check(x);
    if (n) deep(n);
    for (char **l = pwart_syslib_get_enabled_list(); *l; l++) if (n && n->st[0] == OURS && n->st[1] == OURS && !pwart_namespace_find_module(n->ns, *l)) violation("missing", "the enabled library %s is not attached", *l);
  }
  bool was_inited = inited && !wasi_at;
  while (!all.empty()) destroy(all[opd(all.size())]);
  pwart_free_stack(stack);
  if (was_inited) {                              // initialised and attached nowhere: its owner deletes it
    auto *m = pwart_wasi_module_new();
    if (char *e = pwart_wasi_module_delete(m)) violation("delete", "deleting the WASI module failed: %s", e);
    inited = false;
  }
  if (!simwasi.live.empty() || simwasi.inits != simwasi.destroys) violation("environment", "a WASI environment is left");
  if (heap_live(D_PW) != pw0 || heap_live(D_SLJIT) != jit0 || heap_live(D_SYSLIB) != sy0 || heap_live(D_OTHER) != other0) violation("leak", "blocks are left after all namespaces were deleted: %s", heap_describe_live(seq).c_str());
}
Reg reg({"S05", run_s05, "exploration", "distinct event logs: attaching, detaching, initialising, defining and deleting in order",
  40000, 900000, "the system library loader, its three modules, namespaces, compiler and runtime", "uvwasi and libuv (simulated), heap and executable memory",
  {"WASI is attached to one namespace at a time, as documented", "no allocation fails while libraries are attached (small host module records are not checked by the engine)"}});
}
