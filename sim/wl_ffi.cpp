// S04: the libffi binding: callbacks invoked again and again, nested and by several threads of control, native calls of every
// signature, refusals by libffi.
#include "wcall.h"
#include "simffi.h"
#include "wat_ffi.h"
#include <algorithm>
extern "C" {
#include <pwart_syslib.h>
}
using namespace sim;
namespace {
const int P_AGAIN = probe_kind("callback invoked again"), P_NEST = probe_kind("nested callbacks"), P_SAME = probe_kind("callback re-entered"), P_TWO = probe_kind("callback run by two threads at once"), P_FIB = probe_kind("recursion through native code"),
  P_SUM = probe_kind("callback computed in WebAssembly"), P_STACKARGS = probe_kind("arguments on the native stack"), P_DEL = probe_kind("callback deleted while others stay"), P_LONG = probe_kind("description that is too long"), P_VAR = probe_kind("variadic signature"), P_WASM = probe_kind("native call from WebAssembly"),
  P_INSIDE = probe_kind("callback made inside a callback"), P_RAW = probe_kind("closure prepared by hand");
const uint64_t G1 = 0x1122334455667788ull, G2 = 0x0102030405060708ull;
const char TYPES[] = "ilfdp";
ffi_type *type_of(char c) { switch (c) { case 'i': return &ffi_type_uint32; case 'l': return &ffi_type_uint64; case 'f': return &ffi_type_float; case 'd': return &ffi_type_double; case 'v': return &ffi_type_void; default: return &ffi_type_pointer; } }
size_t size_of(char c) { return c == 'i' || c == 'f' ? 4 : c == 'v' ? 0 : 8; }
pwart_module_state mod;
pwart_wasm_memory *mem;
struct Sig { std::string args; char ret = 'v'; std::string text; };
struct Cif { void *ref; Sig s; bool own; void *storage = nullptr, *types = nullptr; int users = 0; bool dead = false; };   // own: made by ffix_new_cif
struct Call { int id; std::vector<uint64_t> args; uint64_t result = 0; bool reached = false; };
struct Cb { int id; Cif *cif; void *closure, *code; uint64_t token; int kind; bool raw, dead = false; int active = 0, calls = 0; };
struct Native { int id; Sig s; ffi_cif cif; std::vector<ffi_type *> t; ffi_closure *c; void *code; };
std::vector<Cif *> cifs;
std::vector<Cb *> cbs;
std::vector<Native *> natives;
std::map<int, std::vector<Call *>> pending;      // by fiber
std::vector<std::pair<uint8_t *, int>> frames;   // frames of the callbacks running
int depth[64], quiet_ids = 1;
uint64_t mask(char t, uint64_t v) { return size_of(t) == 4 ? (uint32_t)v : v; }
uint64_t some(char t) {
  if (t == 'f') { float x = (int)opd(2000) / 7.0f - 100; uint32_t q; memcpy(&q, &x, 4); return q; }
  if (t == 'd') { double x = (int)opd(2000) / 7.0 - 100; uint64_t q; memcpy(&q, &x, 8); return q; }
  static const uint64_t S[] = {0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x8000000000000000ull, ~0ull};
  return mask(t, opd(3) ? (uint64_t)opd(~0u) << 32 | opd(~0u) : S[opd(7)]);
}
Sig some_sig() {
  Sig s;
  int n = opd(8) == 7 ? 20 + opd(100) : opd(3) == 2 ? opd(20) : opd(7);
  for (int i = 0; i < n; i++) s.args += TYPES[opd(5)];
  s.ret = "ilfdpv"[opd(6)];
  s.text = s.args;
  if (s.ret != 'v' || opd(2)) s.text += std::string(">") + s.ret;
  return s;
}
std::vector<uint64_t> thunk(uint8_t *at, const char *name, const std::vector<wc::V> &a, const char *res) {
  set_context("%s", name);
  simffi.hist[cur()].clear();
  auto o = wc::call(wc::fn(mod, name), at, a, res);
  if (o[0] != G1 || o.back() != G2) violation("operands", "%s lost operands of its caller", name);
  set_context("after %s", name);
  return o;
}
// a native call of code with arguments; the callee is Cb or Native number id
void act(uint8_t *at);
struct Out { uint8_t b[32]; uint64_t v; };
uint64_t ret_of(char t, const uint8_t *b) { uint64_t v = 0; memcpy(&v, b, size_of(t)); return v; }
void call_native_code(ffi_cif *cif, const Sig &s, void *code, Call &c) {           // native code calls
  std::vector<void *> av; for (auto &x : c.args) av.push_back(&x);
  uint8_t out[24]; memset(out, 0x5a, sizeof out);
  pending[cur()].push_back(&c);
  ffi_call(cif, (void (*)())code, out, av.data());
  if (!c.reached) violation("callback-lost", "calling a callback did not reach it");
  if (ret_of(s.ret, out) != c.result) violation("callback-result", "a callback's caller got 0x%llx instead of 0x%llx", (unsigned long long)ret_of(s.ret, out), (unsigned long long)c.result);
}
void call_from_wasm(uint8_t *at, Cif *f, void *code, Call &c) {
  hit(P_WASM);
  size_t n = f->s.args.size();
  uint64_t *buf = (uint64_t *)h_malloc(D_OTHER, 8 * n + 8);
  uint8_t *out = (uint8_t *)h_malloc(D_OTHER, 24); memset(out, 0x5a, 24);
  for (size_t i = 0; i < n; i++) { buf[i] = 0xa5a5a5a5a5a5a5a5ull; memcpy(buf + i, &c.args[i], size_of(f->s.args[i])); }
  if (n > 8) hit(P_STACKARGS);
  pending[cur()].push_back(&c);
  f->users++;
  if (opd(2)) thunk(at, "ffix_call", {wc::r(f->ref), wc::r(code), wc::r(out), wc::r(buf)}, "ll");
  else {
    void **av = (void **)h_malloc(D_OTHER, 8 * n + 8); for (size_t i = 0; i < n; i++) av[i] = buf + i;
    thunk(at, "ffi_call", {wc::r(f->ref), wc::r(code), wc::r(out), wc::r(av)}, "ll");
    h_free(D_OTHER, av);
  }
  f->users--;
  if (!c.reached) violation("call-lost", "a native call did not reach its target");
  if (ret_of(f->s.ret, out) != c.result) violation("call-result", "a native call returned 0x%llx instead of 0x%llx", (unsigned long long)ret_of(f->s.ret, out), (unsigned long long)c.result);
  for (int i = 8; i < 24; i++) if (out[i] != 0x5a) violation("call-result", "a native call wrote past its result");
  for (size_t i = 0; i < n; i++) { uint64_t w = 0xa5a5a5a5a5a5a5a5ull; memcpy(&w, &c.args[i], size_of(f->s.args[i])); if (buf[i] != w) violation("call-arguments", "a native call changed its caller's arguments"); }
  h_free(D_OTHER, buf); h_free(D_OTHER, out);
}
Call *arrived(int id, const char *what) {
  auto &p = pending[cur()];
  if (p.empty()) violation("callback-wild", "%s ran without being called", what);
  Call *c = p.back(); p.pop_back();
  if (c->id != id) violation("callback-target", "%s %d ran instead of %d", what, id, c->id);
  if (c->reached) violation("callback-twice", "%s ran twice for one call", what);
  c->reached = true;
  return c;
}
void set_result(Sig &s, void *ret, Call *c) {
  c->result = s.ret == 'v' ? 0 : some(s.ret);
  if (s.ret != 'v') memcpy(ret, &c->result, size_of(s.ret));
}
void native_handler(ffi_cif *, void *ret, void **args, void *ud) {
  Native *n = (Native *)ud;
  Call *c = arrived(n->id, "native function");
  for (size_t i = 0; i < n->s.args.size(); i++) { uint64_t v = 0; memcpy(&v, args[i], size_of(n->s.args[i])); if (v != c->args[i]) violation("call-arguments", "argument %zu of a native call is 0x%llx instead of 0x%llx", i, (unsigned long long)v, (unsigned long long)c->args[i]); }
  if (opd(4) == 0) yield_point("native function");
  if (opd(4) == 0 && depth[cur()] < 4) { uint8_t *st = (uint8_t *)pwart_allocate_stack(16384); act(st); pwart_free_stack(st); }
  if (n->s.ret != 'v') { uint64_t w = 0; c->result = some(n->s.ret); memcpy(&w, &c->result, size_of(n->s.ret)); memcpy(ret, &w, 8); }
}
void h_cb(void *fp) {
  void *sp = fp;
  void *cif = pwart_rstack_get_ref(&sp), *ret = pwart_rstack_get_ref(&sp);
  uint8_t *args = (uint8_t *)pwart_rstack_get_ref(&sp);
  uint64_t ud = (uint64_t)pwart_rstack_get_ref(&sp);
  Cb *b = nullptr; for (auto *x : cbs) if (x->token == ud && !x->dead) b = x;
  if (!b) violation("callback-data", "a callback got user data nobody passed: 0x%llx", (unsigned long long)ud);
  Call *c = arrived(b->id, "callback");
  logf("t%d in callback %d", cur(), b->id);
  if (cif != b->cif->ref) violation("callback-signature", "a callback got another signature");
  if (b->calls++) hit(P_AGAIN);
  if (b->active % 1000) hit(depth[cur()] ? P_SAME : P_TWO);
  if (depth[cur()]) hit(P_NEST);
  for (auto &f : frames) if ((f.first < (uint8_t *)fp ? (uint8_t *)fp - f.first : f.first - (uint8_t *)fp) < 64) violation("callback-stack", "two invocations of callbacks share a runtime stack");
  frames.push_back({(uint8_t *)fp, cur()});
  b->active++; depth[cur()]++;
  Sig &s = b->cif->s;
  auto check = [&](const char *when) {
    for (size_t i = 0; i < s.args.size(); i++) {
      uint64_t v = 0;
      if (b->raw) memcpy(&v, ((void **)args)[i], size_of(s.args[i])); else memcpy(&v, args + 8 * i, size_of(s.args[i]));
      if (v != c->args[i]) violation("callback-arguments", "%s, argument %zu of a callback is 0x%llx instead of 0x%llx", when, i, (unsigned long long)v, (unsigned long long)c->args[i]);
    }
  };
  check("at first");
  for (int i = opd(3); i > 0; i--) { if (opd(2)) yield_point("callback"); else if (depth[cur()] < 5) act((uint8_t *)fp + 64); }
  check("later");
  set_context("callback");
  set_result(s, ret, c);
  b->active--; depth[cur()]--;
  frames.erase(std::find(frames.begin(), frames.end(), std::make_pair((uint8_t *)fp, cur())));
  logf("t%d out of callback %d", cur(), b->id);
  op_mark();
}
void h_yield(void *) { yield_point("program"); }
void h_bad(void *) { violation("callback-stack", "locals of a callback changed during a call"); }
void overlong(uint8_t *at) {                 // more arguments than can be described
  size_t n = 256 + opd(3) * opd(100);
  char *text = (char *)h_malloc(D_OTHER, n + 3);
  for (size_t i = 0; i < n; i++) text[i] = "ilfdp"[opd(5)];
  strcpy(text + n, opd(2) ? ">i" : "");
  auto o = thunk(at, "ffix_new_cif", {wc::r(text)}, "lril");
  h_free(D_OTHER, text);
  hit(P_LONG);
  logf("t%d overlong signature: %d", cur(), (int)o[2]);
  if (!(uint32_t)o[2] || o[1]) violation("signature-outcome", "a signature of %zu arguments reports %d and 0x%llx", n, (int)o[2], (unsigned long long)o[1]);
}
Cif *new_cif(uint8_t *at, const Sig &s) {
  Cif *f = new Cif{nullptr, s, opd(4) != 0};
  size_t n = s.args.size();
  if (f->own) {
    char *text = (char *)h_malloc(D_OTHER, s.text.size() + 1); strcpy(text, s.text.c_str());
    auto o = thunk(at, "ffix_new_cif", {wc::r(text)}, "lril");
    h_free(D_OTHER, text);
    auto &h = simffi.hist[cur()];
    bool failed = h.empty() || h[0].status;      // nothing asked of libffi: no memory
    logf("t%d new signature %s: %d", cur(), s.text.c_str(), (int)o[2]);
    if (failed != ((uint32_t)o[2] != 0)) violation("signature-outcome", "making a signature reports %d but libffi said %d", (int)o[2], h.empty() ? -1 : h[0].status);
    if (!h.empty() && h[0].status && (int)o[2] != h[0].status) violation("signature-outcome", "making a signature reports %d instead of %d", (int)o[2], h[0].status);
    if (failed) { if (o[1]) thunk(at, "ffix_del_cif", {wc::r(o[1])}, "ll"); delete f; return nullptr; }
    f->ref = (void *)o[1];
    if (!f->ref) violation("signature-outcome", "making a signature succeeded without a signature");
  } else {
    f->storage = h_malloc(D_OTHER, sizeof(ffi_cif)); f->types = h_malloc(D_OTHER, 8 * n + 8);
    auto ty = thunk(at, "ffi_built_in_types", {}, "lrrrrrrrrl");
    ffi_type *want[] = {&ffi_type_void, &ffi_type_uint32, &ffi_type_sint32, &ffi_type_uint64, &ffi_type_sint64, &ffi_type_float, &ffi_type_double, &ffi_type_pointer};
    for (int i = 0; i < 8; i++) if ((ffi_type *)ty[1 + i] != want[i]) violation("types", "built-in type %d is another one", i);
    for (size_t i = 0; i < n; i++) ((ffi_type **)f->types)[i] = type_of(s.args[i]);
    uint32_t abi = (uint32_t)thunk(at, "ffi_default_abi", {}, "lil")[1];
    if (abi != FFI_DEFAULT_ABI) violation("types", "the default ABI is %u", abi);
    bool var = opd(4) == 3 && n > 0 && s.args.find('f') == std::string::npos;
    uint32_t fixed = var ? 1 + opd(n) : 0;
    if (var) hit(P_VAR);
    auto o = var ? thunk(at, "ffi_prep_cif_var", {wc::r(f->storage), wc::i(abi), wc::i(fixed), wc::i(n), wc::r(type_of(s.ret)), wc::r(f->types)}, "lil")
                 : thunk(at, "ffi_prep_cif", {wc::r(f->storage), wc::i(abi), wc::i(n), wc::r(type_of(s.ret)), wc::r(f->types)}, "lil");
    auto &h = simffi.hist[cur()];
    if (h.size() != 1 || h[0].h != f->storage || h[0].n != n || h[0].fixed != fixed) violation("signature", "libffi was asked for another signature");
    if ((int)o[1] != h[0].status) violation("signature-outcome", "preparing a signature reports %d instead of %d", (int)o[1], h[0].status);
    logf("t%d prepare signature %s: %d", cur(), s.text.c_str(), (int)o[1]);
    if (o[1]) { h_free(D_OTHER, f->storage); h_free(D_OTHER, f->types); delete f; return nullptr; }
    f->ref = f->storage;
  }
  cifs.push_back(f);
  return f;
}
void del_cif(uint8_t *at, Cif *f) {
  f->dead = true;
  cifs.erase(std::find(cifs.begin(), cifs.end(), f));
  if (f->own) thunk(at, "ffix_del_cif", {wc::r(f->ref)}, "ll"); else { h_free(D_OTHER, f->storage); h_free(D_OTHER, f->types); }
  logf("t%d delete signature", cur());
}
// kind 0: host code behind, 1: sum, 2: recursion
Cb *new_cb(uint8_t *at, Cif *f, int kind) {
  static const char *FN[] = {"cbhost", "cbsum", "cbfib"};
  auto *b = new Cb; b->id = quiet_ids++; b->cif = f; b->kind = kind; b->raw = kind == 0 && opd(4) == 3;
  b->token = kind == 1 ? (uint64_t)opd(1u << 30) << 8 | f->s.args.size() : (uint64_t)b->id << 40 | opd(1u << 30);
  f->users++;
  auto fn = wc::fn(mod, FN[kind]);
  bool ok = true;
  if (b->raw) {
    hit(P_RAW);
    auto o = thunk(at, "ffi_closure_alloc", {}, "lrrl");
    auto &h = simffi.hist[cur()];
    if ((h.size() && h[0].h) != (o[1] != 0)) violation("closure-outcome", "allocating a closure reports something else than its outcome");
    b->closure = (void *)o[1]; b->code = (void *)o[2];
    ok = o[1];
    if (ok) {
      o = thunk(at, "ffi_prep_closure_loc", {wc::r(b->closure), wc::r(f->ref), wc::r((void *)fn), wc::r(b->token), wc::r(b->code)}, "lil");
      auto &g = simffi.hist[cur()];
      int st = g.empty() ? -1 : g[0].status;
      if (st != -1 ? (int)o[1] != st : !(uint32_t)o[1]) violation("closure-outcome", "preparing a closure reports %d instead of %d", (int)o[1], st);
      ok = !o[1];
      if (!ok) thunk(at, "ffi_closure_free", {wc::r(b->closure)}, "ll");
    }
  } else {
    auto o = thunk(at, "ffix_new_c_callback", {wc::r(f->ref), wc::r((void *)fn), wc::r(b->token)}, "lrril");
    auto &h = simffi.hist[cur()];
    bool failed = std::all_of(h.begin(), h.end(), [](FfiRec &r) { return strcmp(r.op, "prep_closure_loc") || r.status; });
    if (failed != ((uint32_t)o[3] != 0)) violation("callback-outcome", "making a callback reports %d although it %s", (int)o[3], failed ? "failed" : "succeeded");
    b->closure = (void *)o[1]; b->code = (void *)o[2];
    ok = !failed;
    if (ok && (!b->closure || !b->code)) violation("callback-outcome", "a callback made has no code");
    if ((uint32_t)o[3] > 3) violation("callback-outcome", "making a callback reports 0x%x, which is no outcome", (uint32_t)o[3]);
    if (!ok && !b->closure && b->code) violation("callback-outcome", "a callback that could not be made has code");
    if (!ok && b->closure) thunk(at, "ffix_del_c_callback", {wc::r(b->closure)}, "ll");
  }
  f->users--;
  logf("t%d new callback %d kind %d: %d", cur(), b->id, kind, ok);
  if (!ok) { delete b; return nullptr; }
  if (depth[cur()]) hit(P_INSIDE);
  f->users++;
  cbs.push_back(b);
  return b;
}
void del_cb(uint8_t *at, Cb *b) {
  b->dead = true;
  cbs.erase(std::find(cbs.begin(), cbs.end(), b));
  if (!cbs.empty()) hit(P_DEL);
  logf("t%d delete callback %d", cur(), b->id);
  thunk(at, b->raw ? "ffi_closure_free" : "ffix_del_c_callback", {wc::r(b->closure)}, "ll");
  b->cif->users--;
}
void invoke(uint8_t *at, Cb *b) {
  const Sig &s = b->cif->s;
  b->active += 1000;                             // not to be deleted
  logf("t%d call callback %d", cur(), b->id);
  if (b->kind == 0) {
    Call c{b->id, {}};
    for (char t : s.args) c.args.push_back(some(t));
    if (opd(3)) call_native_code((ffi_cif *)b->cif->ref, s, b->code, c); else call_from_wasm(at, b->cif, b->code, c);
  } else {
    std::vector<uint64_t> a; uint64_t want = 0; uint64_t out[2] = {0, 0};
    if (b->kind == 1) { hit(P_SUM); want = b->token; for (size_t i = 0; i < s.args.size(); i++) { a.push_back(some('i')); want += (uint32_t)a.back(); } }
    else { hit(P_FIB); static const int FIB[] = {0, 1, 1, 2, 3, 5, 8, 13}; uint32_t n = opd(6); want = FIB[n]; a = {(uint64_t)b->code, n, 1024u + 8192u * (cur() & 3) + 1024u * (depth[cur()] & 7)}; }
    std::vector<void *> av; for (auto &x : a) av.push_back(&x);
    depth[cur()]++;
    ffi_call((ffi_cif *)b->cif->ref, (void (*)())b->code, out, av.data());
    depth[cur()]--;
    if (ret_of(s.ret, (uint8_t *)out) != want) violation("callback-result", "a callback computed 0x%llx instead of 0x%llx", (unsigned long long)ret_of(s.ret, (uint8_t *)out), (unsigned long long)want);
    op_mark();
  }
  b->active -= 1000;
}
Cif *cif_for(uint8_t *at, const Sig &s, bool fresh) {
  if (!fresh) for (auto *f : cifs) if (f->s.args == s.args && f->s.ret == s.ret && !f->dead) return f;
  return new_cif(at, s);
}
void act(uint8_t *at) {
  switch (opd(16)) {
    case 0: if (opd(8) == 7) overlong(at); else if (cifs.size() < 8) new_cif(at, some_sig()); break;
    case 1: { std::vector<Cif *> o; for (auto *f : cifs) if (!f->users) o.push_back(f); if (!o.empty()) del_cif(at, o[opd(o.size())]); break; }
    case 2: case 3: if (!cifs.empty() && cbs.size() < 10) new_cb(at, cifs[opd(cifs.size())], 0); break;
    case 4: if (cbs.size() < 10) { Sig s; for (int i = opd(9); i > 0; i--) s.args += 'i'; s.ret = 'l'; s.text = s.args + ">l"; if (Cif *f = cif_for(at, s, false)) { if (!f->dead) new_cb(at, f, 1); } } break;
    case 5: if (cbs.size() < 10) { Sig s; s.args = "pii"; s.ret = 'i'; s.text = "pii>i"; if (Cif *f = cif_for(at, s, opd(2))) { if (!f->dead) new_cb(at, f, 2); } } break;
    case 6: { std::vector<Cb *> o; for (auto *b : cbs) if (!b->active) o.push_back(b); if (!o.empty() && opd(2)) del_cb(at, o[opd(o.size())]); break; }
    case 7: case 8: case 9: if (!natives.empty()) {
      Native *n = natives[opd(natives.size())];
      Cif *f = cif_for(at, n->s, opd(4) == 0);
      if (f && !f->dead) { Call c{n->id, {}}; for (char t : n->s.args) c.args.push_back(some(t)); logf("t%d call native %d", cur(), n->id); depth[cur()]++; call_from_wasm(at, f, n->code, c); depth[cur()]--; op_mark(); }
      break;
    }
    case 10: { auto o = thunk(at, "ffi_is_enabled", {}, "lil"); if ((uint32_t)o[1] != 1) violation("types", "libffi says it is not enabled"); break; }
    case 11: yield_point("between"); break;
    default: { std::vector<Cb *> o; for (auto *b : cbs) if (!b->dead) o.push_back(b); if (!o.empty()) invoke(at, o[opd(o.size())]); }
  }
}
bool refuse(Domain d, const char *, size_t) { return d == D_SYSLIB && simffi.fail_pct && (int)draw(FAULT, 100) >= 100 - simffi.fail_pct; }
void run_s04() {
  simffi.fail_pct = opd(3) == 2 ? 5 + opd(40) : 0;
  size_t pw0 = heap_live(D_PW), sy0 = heap_live(D_SYSLIB), jit0 = heap_live(D_SLJIT), other0 = heap_live(D_OTHER);
  uint64_t seq = heap_seq();
  wc::config();
  pwart_namespace ns = pwart_namespace_new();
  auto *lib = pwart_libffi_module_new();
  pwart_namespace_define_host_module(ns, "libffi", lib);
  static const char *names[] = {"cb", "yield", "bad"};
  static pwart_host_function_c fns[] = {h_cb, h_yield, h_bad};
  auto *env = pwart_namespace_new_host_module(names, fns, 3);
  pwart_namespace_define_host_module(ns, "env", env);
  mod = wc::load(ns, "prog", wat_ffi, sizeof wat_ffi);
  mem = pwart_get_export_memory(mod, "mem");
  heapcfg.refuse = refuse;
  for (int i = 1 + opd(3); i > 0; i--) {
    auto *n = new Native; n->id = quiet_ids++; n->s = some_sig();
    for (char t : n->s.args) n->t.push_back(type_of(t));
    if (ffi_prep_cif(&n->cif, FFI_DEFAULT_ABI, n->t.size(), type_of(n->s.ret), n->t.data())) harness_error("libffi refused a native signature");
    n->c = (ffi_closure *)ffi_closure_alloc(sizeof(ffi_closure), &n->code);
    if (!n->c || ffi_prep_closure_loc(n->c, &n->cif, native_handler, n, n->code)) harness_error("libffi refused a native function");
    natives.push_back(n);
  }
  { uint8_t *st = (uint8_t *)pwart_allocate_stack(16384);
    for (int i = opd(4); i > 0; i--) if (Cif *f = new_cif(st, some_sig())) if (opd(3)) new_cb(st, f, 0);
    pwart_free_stack(st); }
  static const uint32_t Q[] = {0, 5, 20, 100};
  int threads = opd(3) == 0 ? 1 : 1 + opd(3);
  if (threads > 1) set_sched({Q[opd(4)], opd(4) == 1});
  std::vector<int> ts;
  for (int i = 0; i < threads; i++) {
    int n = 8 + opd(50);
    ts.push_back(spawn([n] { uint8_t *st = (uint8_t *)pwart_allocate_stack(16384); for (int k = 0; k < n; k++) act(st); pwart_free_stack(st); }, "caller"));
  }
  for (int t : ts) join(t);
  set_sched({0, false});
  for (auto &x : pending) if (!x.second.empty()) violation("call-lost", "a call never arrived");
  heapcfg.refuse = nullptr; simffi.fail_pct = 0;
  uint8_t *st = (uint8_t *)pwart_allocate_stack(16384);
  while (!cbs.empty()) del_cb(st, cbs[opd(cbs.size())]);
  while (!cifs.empty()) del_cif(st, cifs[opd(cifs.size())]);
  pwart_free_stack(st);
  if (!simffi.live.empty()) violation("closure-leak", "%zu closures are left after all callbacks were deleted", simffi.live.size());
  if (heap_live(D_SYSLIB) != sy0) violation("leak", "blocks of the libffi binding are left after everything was deleted: %s", heap_describe_live(seq).c_str());
  for (auto *n : natives) ffi_closure_free(n->c);
  if (char *e = pwart_namespace_delete(ns)) violation("delete", "deleting the namespace failed: %s", e);
  if (char *e = pwart_libffi_module_delete(lib)) violation("delete", "deleting the module failed: %s", e);
  pwart_namespace_delete_host_module(env);
  if (heap_live(D_PW) != pw0 || heap_live(D_SLJIT) != jit0 || heap_live(D_SYSLIB) != sy0 || heap_live(D_OTHER) != other0) violation("leak", "blocks are left at the end: %s", heap_describe_live(seq).c_str());
}
Reg reg({"S04", run_s04, "exploration", "distinct event logs: signatures and callbacks made, invoked, nested and deleted by each thread in the order the schedule gave them",
  25000, 500000, "the libffi binding of pwart_syslib, the system's libffi (argument passing, closures), compiled WebAssembly callbacks and callers, compiler and runtime", "refusals by libffi (closure memory, signatures), native functions of random signatures, heap and executable memory, threads",
  {"argument types are the five of the binding's signature strings", "a callback or signature is deleted only when no invocation of it is running", "threads are simulated on one core"}});
}
