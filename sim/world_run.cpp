// Running the two sides of a world against each other.
#include "world.h"
#include "world_int.h"
#include <cstring>
#include <utility>
using namespace sim;
namespace w {
const int P_DEFER = probe_kind("growth inside an expression");
const int P_INDIRECT = probe_kind("indirect call");
const int P_MULTI = probe_kind("call with several results");
const int P_TAIL = probe_kind("tail call");
const int P_TAILX = probe_kind("tail call into another module");
const int P_TSET = probe_kind("table.set"); const int P_TCOPY = probe_kind("table.copy"); const int P_TFILL = probe_kind("table.fill");
static const int P_GROW = probe_kind("growth reported");
static const int P_GROWNO = probe_kind("growth denied");
static const int P_NEST = probe_kind("re-entered at depth 3 or more");
static const int P_HOST = probe_kind("host call");
static const int F_GROW = fault_kind("memory growth refused by the system");
static const int F_CAP = fault_kind("memory growth beyond system capacity");

std::vector<RMod *> mods;
void (*on_host)(HostCall &);
void (*on_prep)(Inv *, std::vector<uint64_t> &);
void (*on_progress)(Inv *);
void (*on_report)(Inv *, uint32_t, uint64_t);
uint32_t nplain;
static const int P_START = probe_kind("start function run by the engine");
static std::map<void *, RFunc *> fmap;
static std::map<int, FiberCtx> ctxs;
FiberCtx &fctx() { return ctxs[cur()]; }
void new_stack(uint32_t size) {
  auto &c = fctx();
  c.size = size;
  c.stack = (uint8_t *)pwart_allocate_stack(size);
  uint32_t x = size;
  for (uint32_t i = 0; i < size; i++) { x = x * 1664525 + 1013904223; c.stack[i] = x >> 24; }
}
void drop_stack() { auto &c = fctx(); pwart_free_stack(c.stack); c.stack = nullptr; }
RFunc *func_of(void *p) { auto it = fmap.find(p); return it == fmap.end() ? nullptr : it->second; }
bool big_pw_alloc(Domain d, size_t n) { return d == D_PW && n >= 20000; }
static bool refuse_grow(Domain d, const char *, size_t n) {
  if (d != D_PW || n < 65536) return false;
  auto &c = fctx();
  if (!c.in_real) return false;
  if (n > (size_t)cfg.cap * 65536) { c.grow_refused++; fired(F_CAP); return true; }
  if (c.armed) { c.grow_refused++; fired(F_GROW); return true; }
  return false;
}
bool lazy_builtins;
void setup_engine() {
  struct pwart_global_compile_config c;
  pwart_get_global_compile_config(&c);
  c.stack_flags = cfg.align ? PWART_STACK_FLAGS_AUTO_ALIGN : 0;
  c.misc_flags = (cfg.extend ? PWART_MISC_FLAGS_EXTEND_INDEX : 0) | (cfg.zeroinit ? PWART_MISC_FLAGS_LOCALS_ZERO_INIT : 0);
  pwart_set_global_compile_config(&c);
  struct pwart_global_compile_config c2;
  memset(&c2, 0x5a, sizeof c2);
  pwart_get_global_compile_config(&c2);
  if (c2.stack_flags != c.stack_flags || c2.misc_flags != c.misc_flags) violation("configuration", "the configuration read back is not the one set");
  int n;
  if (!lazy_builtins) pwart_get_builtin_symbols(&n);
  heapcfg.refuse = refuse_grow;
}
static uint64_t to_ref(T t, uint64_t raw) {
  if (t != FREF) return raw;
  if (!raw) return 0;
  RFunc *f = func_of((void *)raw);
  if (!f) violation("wild-reference", "a function reference that is no function of any live module was delivered");
  return (uint64_t)f;
}
static uint64_t to_real(T t, uint64_t v) { if (t != FREF || !v) return v; return (uint64_t)((RFunc *)v)->real; }
// where the value after `sp` belongs, by the configuration
static void *laid_out(void *sp, T t) { uintptr_t a = (uintptr_t)sp; if (cfg.align && t != I32 && t != F32) a = (a + 7) & ~(uintptr_t)7; return (void *)(a + (t == I32 || t == F32 ? 4 : 8)); }
static void *put(void *sp, T t, uint64_t v) {
  v = to_real(t, v);
  void *want = laid_out(sp, t);
  switch (t) {
    case I32: pwart_rstack_put_i32(&sp, (int)v); break;
    case I64: pwart_rstack_put_i64(&sp, (long long)v); break;
    case F32: { float f; uint32_t x = v; memcpy(&f, &x, 4); pwart_rstack_put_f32(&sp, f); break; }
    case F64: { double f; memcpy(&f, &v, 8); pwart_rstack_put_f64(&sp, f); break; }
    default: pwart_rstack_put_ref(&sp, (void *)v);
  }
  if (sp != want) violation("stack-layout", "a value is put %td bytes from where the configuration places it", (char *)sp - (char *)want);
  return sp;
}
static void *get(void *sp, T t, uint64_t *v) {
  void *want = laid_out(sp, t);
  switch (t) {
    case I32: *v = (uint32_t)pwart_rstack_get_i32(&sp); break;
    case I64: *v = (uint64_t)pwart_rstack_get_i64(&sp); break;
    case F32: { float f = pwart_rstack_get_f32(&sp); uint32_t x; memcpy(&x, &f, 4); *v = x; break; }
    case F64: { double f = pwart_rstack_get_f64(&sp); memcpy(v, &f, 8); break; }
    default: *v = (uint64_t)pwart_rstack_get_ref(&sp);
  }
  if (sp != want) violation("stack-layout", "a value is read %td bytes from where the configuration places it", (char *)sp - (char *)want);
  return sp;
}
static std::string fname(RFunc *f) { return f->host >= 0 ? "host.h" + std::to_string(f->host) : f->m->name + ".f" + std::to_string(f->def - &f->m->def->fn[0] + f->m->def->nif); }
static void same(const std::vector<T> &t, const std::vector<uint64_t> &want, void *at, const char *key, const char *what, const std::string &who) {
  void *sp = at;
  for (size_t i = 0; i < t.size(); i++) {
    uint64_t v;
    sp = get(sp, t[i], &v);
    if (ref_dead(t[i], want[i])) continue;
    uint64_t x = to_ref(t[i], v);
    if (x != want[i]) {
      if (t[i] == FREF) violation(key, "%s %zu of %s: function %s instead of %s", what, i, who.c_str(), x ? fname((RFunc *)x).c_str() : "null", want[i] ? fname((RFunc *)want[i]).c_str() : "null");
      violation(key, "%s %zu of %s: 0x%llx instead of 0x%llx", what, i, who.c_str(), (unsigned long long)x, (unsigned long long)want[i]);
    }
  }
}
// the reference side runs up to its next host call or its end; the real side follows
static void step_ref(Inv *v) {
  v->deferred = 0;
  v->st = Inv::RUN;
  co_resume(v->co);
  if (v->st == Inv::RUN) harness_error("reference stopped without a reason");
  auto &c = fctx();
  c.armed = false;
  if (cfg.refuse_pct && v->st == Inv::HOST && v->host == 0 && v->deferred == 0 && (int)draw(FAULT, 100) >= 100 - cfg.refuse_pct) c.armed = true;
}
static void enter_real() { auto &c = fctx(); c.seg_refused = c.grow_refused; c.in_real = true; }
static void leave_real() { auto &c = fctx(); c.in_real = false; c.armed = false; }

static void grow_check(Inv *v, void *fp) {
  void *sp = fp;
  uint32_t mi = pwart_rstack_get_i32(&sp), delta = pwart_rstack_get_i32(&sp), r = pwart_rstack_get_i32(&sp);
  if (mi != v->hargs[0] || delta != v->hargs[1]) violation("host-argument", "growth of memory %llu by %llu announced as memory %u by %u", (unsigned long long)v->hargs[0], (unsigned long long)v->hargs[1], mi, delta);
  RMem *m = v->growmem;
  uint64_t np = (uint64_t)m->pages + delta;
  bool refused = fctx().grow_refused != fctx().seg_refused;
  hit(P_GROW);
  logf("grow %u+%u -> %d%s", m->pages, delta, (int)r, refused ? " (refused)" : "");
  if (np > m->max && r != 0xffffffff) violation("grow-beyond-limit", "memory of %u pages with limit %u was grown by %u, result %d", m->pages, m->max, delta, (int)r);
  if (r == 0xffffffff) {
    hit(P_GROWNO);
    if (np <= m->max && !refused && !m->fixed) violation("grow-denied", "growth of %u pages by %u denied although limit %u and system permit it", m->pages, delta, m->max);
  } else {
    if (r != m->pages) violation("grow-result", "growth of a memory of %u pages returned %u", m->pages, r);
    if (np > m->max) violation("grow-beyond-limit", "grown beyond the limit");
    m->pages = np;
    m->d.resize(np * 65536, 0);
  }
  if (m->real) {
    if (m->real->pages != m->pages) violation("grow-size", "memory has %u pages after the growth, expected %u", m->real->pages, m->pages);
    if (m->pages && !heap_range_live(m->real->bytes, (size_t)m->pages * 65536)) violation("grow-storage", "the %u pages of the memory are not all allocated", m->pages);
    if (memcmp(m->real->bytes, m->d.data(), m->d.size())) {
      size_t i = 0; while (m->real->bytes[i] == m->d[i]) i++;
      violation("grow-content", "byte 0x%zx differs after growth to %u pages", i, m->pages);
    }
  }
  v->hres = {r};
}
void begin_start(RFunc *f) {
  Inv *v = new Inv;
  v->f = f; v->start = true;
  v->co = co_new([v] { interp_main(v); }, 1 << 20);
  fctx().inv.push_back(v);
  hit(P_START);
  logf("start function %s runs", fname(f).c_str());
  step_ref(v);
}
static void end_starts() {
  auto &c = fctx();
  while (!c.inv.empty() && c.inv.back()->start && c.inv.back()->st == Inv::DONE) { Inv *v = c.inv.back(); co_free(v->co); delete v; c.inv.pop_back(); }
}
static void tramp(int n, void *fp) {
  leave_real();
  auto &c = fctx();
  if (on_progress) { for (size_t i = 0; i < c.inv.size(); i++) if (c.inv[i]->pend) on_progress(c.inv[i]); end_starts(); }
  if (c.inv.empty()) violation("host-order", "host function h%d called outside any call", n);
  Inv *v = c.inv.back();
  if (v->st != Inv::HOST) violation("host-order", "%s called host function h%d where it should have returned", fname(v->f).c_str(), n);
  if (v->host != n) violation("host-order", "%s called host function h%d instead of h%d", fname(v->f).c_str(), n, v->host);
  hit(P_HOST);
  if (n == 0) {
    grow_check(v, fp);
    step_ref(v);
    enter_real();
    return;
  }
  if (n == (int)nplain + 1) {
    void *sp = fp;
    uint32_t site = pwart_rstack_get_i32(&sp), isnull = pwart_rstack_get_i32(&sp); uint64_t ref = pwart_rstack_get_i64(&sp);
    if (site != v->hargs[0]) violation("host-argument", "a report for builtin call %u where %llu is next", site, (unsigned long long)v->hargs[0]);
    if (isnull != (ref == 0)) violation("host-argument", "a reference of 0x%llx is %snull", (unsigned long long)ref, isnull ? "" : "not ");
    on_report(v, isnull, ref);
    step_ref(v);
    enter_real();
    return;
  }
  const FType t = types[hosts[n].type];   // a copy: the list may grow while the host function runs
  same(t.p, v->hargs, fp, "host-argument", "argument", "host function h" + std::to_string(n));
  std::vector<uint64_t> args = v->hargs, res;
  uint64_t h = n * 77;
  for (size_t i = 0; i < args.size(); i++) h = mix64(h + (t.p[i] == FREF ? 1 : args[i]));
  for (T r : t.r) {
    h = mix64(h + 3);
    uint64_t x = h;
    switch (r) { case I32: x = h & (h & 0x10000 ? 0xffffffff : 0xff); break; case F32: { float f = (float)(int)(h % 1000); uint32_t q; memcpy(&q, &f, 4); x = q; break; } case F64: { double f = (double)(int)(h % 100000); memcpy(&x, &f, 8); break; } case FREF: x = 0; break; }
    res.push_back(x);
  }
  size_t na = t.p.size(), nr = t.r.size();
  uint8_t *free_stack = (uint8_t *)(((uintptr_t)fp + 8 * (na > nr ? na : nr) + 15) & ~(uintptr_t)15);
  HostCall hc{n, fp, args, res, free_stack};
  if (n == (int)nplain) on_prep(v, res);
  else if (on_host) on_host(hc);
  v->hres = res;
  void *sp = fp;
  step_ref(v);
  for (size_t i = 0; i < t.r.size(); i++) sp = put(sp, t.r[i], res[i]);
  enter_real();
}
template <int N> static void tr(void *fp) { tramp(N, fp); }
template <int... N> static pwart_host_function_c trampoline(int n, std::integer_sequence<int, N...>) { static const pwart_host_function_c t[] = {tr<N>...}; return t[n]; }
pwart_host_function_c host_entry(int n) { return trampoline(n, std::make_integer_sequence<int, 24>()); }
void setup_hosts(int n) {
  hosts.clear(); hosts.resize(n + 1);
  for (int i = 0; i <= n; i++) {
    uint32_t k = i == 0 ? 1 : opd(types.size());
    if (i && k == 1) k = 2;
    hosts[i].type = k;
    hosts[i].f.host = i; hosts[i].f.type = types[k]; hosts[i].f.real = (void *)pwart_wrap_host_function_c(host_entry(i));
  }
  nplain = hosts.size();
  hosts.resize(n + 3);
  for (int i = n + 1; i < n + 3; i++) {
    hosts[i].type = type_index(i == n + 1 ? FType{{I32}, {I32, I64, I64}} : FType{{I32, I32, I64}, {}});
    hosts[i].f.host = i; hosts[i].f.type = types[hosts[i].type]; hosts[i].f.real = (void *)pwart_wrap_host_function_c(host_entry(i));
  }
  for (auto &h : hosts) fmap[h.f.real] = &h.f;
}
static std::map<std::string, RFunc *> bfn;
static RFunc *builtin_fn(const std::string &name) {
  auto it = bfn.find(name);
  if (it != bfn.end()) return it->second;
  int n; auto *s = pwart_get_builtin_symbols(&n);       // other threads may run meanwhile
  void *real = nullptr;
  for (int i = 0; i < n; i++) if (name == s[i].name) real = s[i].val.fn;
  if (!real) violation("builtin-missing", "there is no builtin %s", name.c_str());
  auto &r = bfn[name];
  if (!r) { r = new RFunc; r->host = 1000; r->real = real; fmap[real] = r; }
  return r;
}
static void resolve(struct pwart_host_module *, struct pwart_symbol_resolve_request *q) {
  q->result = nullptr;
  if (q->kind == PWART_KIND_FUNCTION && q->import_field[0] == 'h') { int n = atoi(q->import_field + 1); if (n >= 0 && n < (int)hosts.size()) q->result = hosts[n].f.real; }
}
struct pwart_host_module *host_module() { static pwart_host_module m; m.resolve = resolve; return &m; }

std::vector<uint64_t> draw_args(const FType &t, RMod *m) {
  std::vector<uint64_t> a;
  for (T x : t.p) {
    if (x == FREF) { uint64_t v = 0; if (m && opd(2)) { RFunc *f = m->fn[opd(m->fn.size())]; if (f->host != 0 && !fn_gone(f)) v = (uint64_t)f; } a.push_back(v); }
    else a.push_back(draw_value(x));
  }
  return a;
}
void invoke(RFunc *f, const std::vector<uint64_t> &args, uint8_t *at) {
  auto &c = fctx();
  Inv v; v.f = f; v.args = args;
  uint8_t *base = at ? at : c.stack + 32;
  if (base + 32768 > c.stack + c.size) truncated();
  if (c.inv.size() >= 2) hit(P_NEST);
  std::string who = fname(f);
  if (1) {
    std::string s; for (size_t i = 0; i < args.size(); i++) { char b[24]; snprintf(b, sizeof b, " 0x%llx", f->type.p[i] == FREF ? (unsigned long long)(args[i] != 0) : (unsigned long long)args[i]); s += b; }
    logf("t%d call %s%s", cur(), who.c_str(), s.c_str());
  }
  c.inv.push_back(&v);
  v.co = co_new([&v] { interp_main(&v); }, 1 << 20);
  step_ref(&v);
  uint8_t guard[32];
  if (!at) { for (int i = 0; i < 32; i++) c.stack[i] = guard[i] = i * 7 + 1; }
  void *sp = base;
  for (size_t i = 0; i < args.size(); i++) sp = put(sp, f->type.p[i], args[i]);
  set_context("running %s", who.c_str());
  enter_real();
  pwart_call_wasm_function(f->real, base);
  leave_real();
  if (v.st != Inv::DONE) violation("host-order", "%s returned where it should have called host function h%d", who.c_str(), v.host);
  same(f->type.r, v.res, base, "result", "result", who);
  if (!at && memcmp(guard, c.stack, 32)) violation("stack-underwrite", "%s wrote below its stack frame", who.c_str());
  if (c.inv.back() != &v) violation("host-order", "%s returned where a start function should be running", who.c_str());
  co_free(v.co);
  c.inv.pop_back();
}

// ---- modules -------------------------------------------------------------------------
static RMod *env_find(const Env &e, const std::string &n) { for (size_t i = e.mods.size(); i-- > 0;) if (e.mods[i].first == n) return e.mods[i].second; return nullptr; }
RMod *link(const std::string &name, std::shared_ptr<ModDef> d, const Env &env) {
  RMod *m = new RMod; m->name = name; m->def = d; m->alive = true;
  for (auto &i : d->imps) {
    uint32_t k = atoi(i.field.c_str() + 1);
    if (i.mod == "pwart_builtin") { if (i.kind == 0) m->fn.push_back(builtin_fn(i.field)); continue; }
    RMod *x = i.mod == "host" ? nullptr : env_find(env, i.mod);
    if (x) m->deps.insert(x);
    switch (i.kind) {
      case 0: m->fn.push_back(x ? x->fn[k] : &hosts[k].f); if (x && x->fn[k]->m) m->deps.insert(x->fn[k]->m); break;
      case 1: m->tabs.push_back(x->tabs[k]); m->deps.insert(x->tabs[k]->owner); break;
      case 2: m->mems.push_back(x->mems[k]); m->deps.insert(x->mems[k]->owner); break;
      case 3: m->globs.push_back(x->globs[k]); m->deps.insert(x->globs[k]->owner); break;
    }
  }
  for (auto &f : d->fn) { RFunc *r = new RFunc; r->m = m; r->def = &f; r->type = types[f.type]; m->fn.push_back(r); }
  for (auto &t : d->tabs) if (!t.imported) { RTab *r = new RTab; r->owner = m; r->e.resize(t.size); r->ftype = t.ftype; r->callable = t.callable; r->maximum = t.hasmax ? t.max : t.size; m->tabs.push_back(r); }
  for (auto &x : d->mems) if (!x.imported) { RMem *r = new RMem; r->owner = m; r->pages = r->initial = x.initial; r->max = x.hasmax ? x.max : 32768; r->fixed = x.hasmax; r->d.resize(x.initial * 65536); m->mems.push_back(r); }
  for (auto &x : d->globs) if (!x.imported) {
    RGlob *r = new RGlob; r->owner = m; r->t = x.t;
    switch (x.initk) { case 0: r->v = x.t == I32 || x.t == F32 ? (uint32_t)x.init : x.init; break; case 1: r->v = m->globs[x.init]->v; break; case 2: r->v = (uint64_t)m->fn[x.init]; break; default: r->v = 0; }
    m->globs.push_back(r);
  }
  for (auto &e : d->elems) if (!(e.flags & 1)) {
    uint32_t off = e.offset_global >= 0 ? m->globs[e.offset_global]->v : e.offset;
    for (size_t i = 0; i < e.f.size(); i++) m->tabs[e.table]->e[off + i] = e.f[i] == 0xffffffff ? nullptr : m->fn[e.f[i]];
  }
  for (auto &x : d->datas) if (!x.passive) {
    uint32_t off = x.offset_global >= 0 ? m->globs[x.offset_global]->v : x.offset;
    memcpy(m->mems[x.mem]->d.data() + off, x.bytes.data(), x.bytes.size());
  }
  mods.push_back(m);
  return m;
}
bool fn_gone(RFunc *f) { return f && f->m && (!f->m->alive || f->m->broken); }
bool ref_dead(T t, uint64_t v) { return t == FREF && fn_gone((RFunc *)v); }
void *object_of(RMod *m, int kind, const std::string &f) {
  uint32_t k = 0, cnt = kind == 0 ? m->fn.size() : kind == 1 ? m->tabs.size() : kind == 2 ? m->mems.size() : m->globs.size();
  bool found = false;
  for (auto &e : m->def->extra_exports) if (e.first == f) { if (e.second.first != kind) return nullptr; k = e.second.second; found = true; }
  if (!found) {
    if (f.size() < 2 || f[0] != "ftmg"[kind] || f[1] < '0' || f[1] > '9') return nullptr;
    k = atoi(f.c_str() + 1);
    if (f != "ftmg"[kind] + std::to_string(k) || k >= cnt) return nullptr;
  }
  return kind == 0 ? m->fn[k]->real : kind == 1 ? (void *)m->tabs[k]->real : kind == 2 ? (void *)m->mems[k]->real : m->globs[k]->real;
}
void bind_real(RMod *m, pwart_module_state st) {
  m->st = st;
  const ModDef &d = *m->def;
  char n[16];
  size_t ni[4] = {d.nif, 0, 0, 0};
  for (auto &t : d.tabs) ni[1] += t.imported;
  for (auto &t : d.mems) ni[2] += t.imported;
  for (auto &t : d.globs) ni[3] += t.imported;
  for (size_t i = 0; i < m->fn.size(); i++) {
    snprintf(n, 16, "f%zu", i);
    void *p = (void *)pwart_get_export_function(st, n);
    if (!p) violation("export-missing", "%s: exported function %s is missing", m->name.c_str(), n);
    if (i < ni[0]) { if (p != m->fn[i]->real) violation("import-binding", "%s: imported function %zu is not the exporter's", m->name.c_str(), i); }
    else { if (fmap.count(p)) violation("code-shared", "%s: function %zu has the entry of another live function", m->name.c_str(), i); m->fn[i]->real = p; fmap[p] = m->fn[i]; }
  }
  for (size_t i = 0; i < m->tabs.size(); i++) {
    snprintf(n, 16, "t%zu", i);
    auto *p = pwart_get_export_table(st, n);
    if (!p) violation("export-missing", "%s: exported table %s is missing", m->name.c_str(), n);
    if (i < ni[1]) { if (p != m->tabs[i]->real) violation("import-binding", "%s: imported table %zu is not the exporter's", m->name.c_str(), i); } else m->tabs[i]->real = p;
  }
  for (size_t i = 0; i < m->mems.size(); i++) {
    snprintf(n, 16, "m%zu", i);
    auto *p = pwart_get_export_memory(st, n);
    if (!p) violation("export-missing", "%s: exported memory %s is missing", m->name.c_str(), n);
    if (i < ni[2]) { if (p != m->mems[i]->real) violation("import-binding", "%s: imported memory %zu is not the exporter's", m->name.c_str(), i); } else m->mems[i]->real = p;
  }
  for (size_t i = 0; i < m->globs.size(); i++) {
    snprintf(n, 16, "g%zu", i);
    void *p = pwart_get_export_global(st, n);
    if (!p) violation("export-missing", "%s: exported global %s is missing", m->name.c_str(), n);
    if (i < ni[3]) { if (p != m->globs[i]->real) violation("import-binding", "%s: imported global %zu is not the exporter's", m->name.c_str(), i); } else m->globs[i]->real = p;
  }
  for (auto &e : d.extra_exports) {
    uint32_t k = e.second.second;
    const char *f = e.first.c_str();
    void *p = e.second.first == 0 ? (void *)pwart_get_export_function(st, f) : e.second.first == 1 ? (void *)pwart_get_export_table(st, f) : e.second.first == 2 ? (void *)pwart_get_export_memory(st, f) : pwart_get_export_global(st, f);
    if (p != object_of(m, e.second.first, f)) violation("export-alias", "%s: the object exported as '%s' is not %c%u", m->name.c_str(), f, "ftmg"[e.second.first], k);
  }
  snprintf(n, 16, "f%zu", m->fn.size());
  if (pwart_get_export_function(st, n) || pwart_get_export_memory(st, "f0") || pwart_get_export_function(st, "m0")) violation("export-extra", "%s: a name it does not export is found", m->name.c_str());
  void *sf = (void *)pwart_get_start_function(st);
  if (sf != (d.start >= 0 ? m->fn[d.start]->real : nullptr)) violation("start-function", "%s: wrong start function", m->name.c_str());
  pwart_module_state_set_user_data(st, m);
}
// what the host is told about the state of a module
static void compare_inspection(RMod *m, const char *when) {
  struct pwart_inspect_result1 r;
  memset(&r, 0x5a, sizeof r);
  char *e = pwart_inspect_module_state(m->st, &r);
  if (e) violation("inspect", "%s: inspecting %s fails: %s", when, m->name.c_str(), e);
  if (!m->mems.empty() && m->def->mx(0) == 0 && m->mems[0]->pages < 32768) {
    RMem *x = m->mems[0];
    if (r.memory_size != (int)(x->pages * 65536) || (x->pages && r.memory != x->real->bytes)) violation("inspect-memory", "%s: inspecting %s shows another memory than it has", when, m->name.c_str());
  }
  if (!m->tabs.empty() && (r.table_entries_count != (int)m->tabs[0]->e.size() || r.table_entries != (void **)m->tabs[0]->real->entries)) violation("inspect-table", "%s: inspecting %s shows another table than it has", when, m->name.c_str());
  if (r.globals_buffer_size < 0 || (r.globals_buffer_size && !heap_range_live(r.globals_buffer, r.globals_buffer_size))) violation("inspect-globals", "%s: inspecting %s shows globals that are not allocated", when, m->name.c_str());
  for (size_t i = 0; i < m->globs.size(); i++) {
    RGlob *g = m->globs[i];
    if (g->owner != m) continue;
    char *p = (char *)g->real, *b = (char *)r.globals_buffer;
    if (p < b || p + (g->t == I32 || g->t == F32 ? 4 : 8) > b + r.globals_buffer_size) violation("inspect-globals", "%s: inspecting %s shows globals without its global %zu", when, m->name.c_str(), i);
  }
  if (m->home && r.symbol_resolver != m->home) violation("inspect-resolver", "%s: the resolver of %s is not the one it was given last", when, m->name.c_str());
  if (pwart_module_state_get_user_data(m->st) != m) violation("user-data", "%s: the user data of %s is not what was stored", when, m->name.c_str());
}
void compare_module(RMod *m, const char *when) {
  if (m->broken) return;
  if (m->st) compare_inspection(m, when);
  for (size_t i = 0; i < m->mems.size(); i++) {
    RMem *x = m->mems[i];
    if (!x->owner->alive || (x->owner != m && 0)) continue;
    if (x->real->pages != x->pages) violation("memory-size", "%s: memory %zu of %s has %u pages instead of %u", when, i, m->name.c_str(), x->real->pages, x->pages);
    if (x->pages && !heap_range_live(x->real->bytes, (size_t)x->pages * 65536)) violation("memory-storage", "%s: the %u pages of memory %zu of %s are not allocated", when, x->pages, i, m->name.c_str());
    if (x->owner == m && memcmp(x->real->bytes, x->d.data(), x->d.size())) {
      size_t k = 0; while (x->real->bytes[k] == x->d[k]) k++;
      violation("memory-content", "%s: byte 0x%zx of memory %zu of %s is 0x%x instead of 0x%x", when, k, i, m->name.c_str(), x->real->bytes[k], x->d[k]);
    }
  }
  for (size_t i = 0; i < m->tabs.size(); i++) {
    RTab *x = m->tabs[i];
    if (x->owner != m) continue;
    if (x->real->size != x->e.size()) violation("table-size", "%s: table %zu of %s has size %u instead of %zu", when, i, m->name.c_str(), x->real->size, x->e.size());
    for (size_t k = 0; k < x->e.size(); k++) {
      void *want = x->e[k] ? x->e[k]->real : nullptr;
      if (fn_gone(x->e[k])) continue;
      if (x->real->entries[k] != want) {
        RFunc *g = func_of(x->real->entries[k]);
        violation("table-content", "%s: slot %zu of table %zu of %s holds %s instead of %s", when, k, i, m->name.c_str(), !x->real->entries[k] ? "null" : g ? fname(g).c_str() : "no function", x->e[k] ? fname(x->e[k]).c_str() : "null");
      }
    }
  }
  for (size_t i = 0; i < m->globs.size(); i++) {
    RGlob *x = m->globs[i];
    if (x->owner != m) continue;
    uint64_t v = 0;
    memcpy(&v, x->real, x->t == I32 || x->t == F32 ? 4 : 8);
    if (x->t == FREF) {
      if (fn_gone((RFunc *)x->v)) continue;
      if (v != to_real(FREF, x->v)) violation("global-content", "%s: global %zu of %s holds another reference", when, i, m->name.c_str());
    } else if (v != x->v) violation("global-content", "%s: global %zu of %s is 0x%llx instead of 0x%llx", when, i, m->name.c_str(), (unsigned long long)v, (unsigned long long)x->v);
  }
}
void compare_state(const char *when) { for (auto *m : mods) if (m->alive && (m->st || m->host)) compare_module(m, when); }
struct HostObjects { pwart_host_module base; RMod *m; };
static void resolve_objects(struct pwart_host_module *h, struct pwart_symbol_resolve_request *q) {
  RMod *m = ((HostObjects *)h)->m;
  q->result = nullptr;
  const char *s = q->import_field;
  if (!s[0] || !s[1]) return;
  size_t k = atoi(s + 1);
  if (strcmp(s + 1, std::to_string(k).c_str())) return;
  switch (q->kind) {
    case PWART_KIND_FUNCTION: if (s[0] == 'f' && k < m->fn.size()) q->result = m->fn[k]->real; break;
    case PWART_KIND_TABLE: if (s[0] == 't' && k < m->tabs.size()) q->result = m->tabs[k]->real; break;
    case PWART_KIND_MEMORY: if (s[0] == 'm' && k < m->mems.size()) q->result = m->mems[k]->real; break;
    case PWART_KIND_GLOBAL: if (s[0] == 'g' && k < m->globs.size()) q->result = m->globs[k]->real; break;
  }
}
struct pwart_host_module *host_objects_module(RMod *m) { auto *h = new HostObjects(); h->base.resolve = resolve_objects; h->m = m; return &h->base; }
static T host_type(uint32_t k) { static const T t[] = {I32, I64, F64, F32}; return t[k]; }
RMod *host_objects(const std::string &name, int nfn) {
  auto d = std::make_shared<ModDef>();
  RMod *m = new RMod; m->name = name; m->def = d; m->alive = m->host = true;
  d->types = &types;
  for (int i = 0; i < nfn && nplain > 1; i++) { int k = 1 + opd(nplain - 1); d->ftype.push_back(hosts[k].type); m->fn.push_back(&hosts[k].f); }
  for (int n = opd(3); n > 0; n--) {
    MemInfo mi; mi.initial = 1 + opd(2); mi.hasmax = true; mi.max = mi.initial + opd(3); d->mems.push_back(mi);
    RMem *x = new RMem; x->owner = m; x->pages = x->initial = mi.initial; x->max = mi.max; x->fixed = true; x->d.resize(mi.initial * 65536);
    x->real = new pwart_wasm_memory();
    x->real->initial = x->real->pages = mi.initial; x->real->maximum = mi.max; x->real->fixed = 1;
    x->real->bytes = (uint8_t *)h_calloc(D_OTHER, mi.max, 65536);
    m->mems.push_back(x);
  }
  for (int n = opd(3); n > 0; n--) {
    TabInfo t; t.callable = 0; t.size = 4 + opd(6); t.ftype = 0; t.hasmax = true; t.max = t.size;
    uint32_t cand = m->fn.empty() ? 0 : opd(m->fn.size());
    RTab *x = new RTab; x->owner = m; x->e.resize(t.size); x->maximum = t.size;
    x->real = new pwart_wasm_table();
    x->real->elem_type = 0x70; x->real->initial = x->real->maximum = x->real->size = t.size;
    x->real->entries = (void **)h_calloc(D_OTHER, t.size, sizeof(void *));
    if (!m->fn.empty()) {                 // the first slots hold one host function
      t.ftype = d->ftype[cand]; t.callable = t.size >= 6 ? 4 : 2;
      for (uint32_t i = 0; i < t.callable; i++) { x->e[i] = m->fn[cand]; x->real->entries[i] = m->fn[cand]->real; }
    }
    x->ftype = t.ftype; x->callable = t.callable;
    d->tabs.push_back(t); m->tabs.push_back(x);
  }
  for (int n = opd(4); n > 0; n--) {
    GlobInfo g; g.t = host_type(opd(cfg.floats ? 4 : 2)); g.mut = opd(4) != 3; g.init = draw_value(g.t); d->globs.push_back(g);
    RGlob *x = new RGlob; x->owner = m; x->t = g.t; x->v = g.init; x->real = h_calloc(D_OTHER, 1, 8);
    memcpy(x->real, &x->v, g.t == I32 || g.t == F32 ? 4 : 8);
    m->globs.push_back(x);
  }
  mods.push_back(m);
  return m;
}
void kill(RMod *m) {
  m->alive = false;
  for (auto *f : m->fn) if (f->m == m) fmap.erase(f->real);
  for (bool more = true; more;) {
    more = false;
    for (auto *x : mods) if (x->alive && !x->broken) for (auto *d : x->deps) if (!d->alive || d->broken) { x->broken = more = true; break; }
  }
  // no table or global of others keeps a function that is gone
  for (auto *x : mods) if (x->alive && !x->broken) {
    for (auto *t : x->tabs) if (t->owner->alive && t->real) for (size_t i = 0; i < t->e.size(); i++) if (fn_gone(t->e[i])) { t->e[i] = nullptr; t->real->entries[i] = nullptr; }
    for (auto *g : x->globs) if (g->owner->alive && g->real && g->t == FREF && fn_gone((RFunc *)g->v)) { g->v = 0; memset(g->real, 0, 8); }
  }
}
void reset_fuel() {
  interp_reset_steps();
  for (auto *m : mods) reset_fuel(m);
}
void reset_fuel(RMod *m) { if (m->alive && m->st && m->def->fuel >= 0 && !m->host) { RGlob *g = m->globs[m->def->fuel]; g->v = cfg.fuel; int v = cfg.fuel; memcpy(g->real, &v, 4); } }
void host_mutate(RMod *m) {
  switch (opd(3)) {
    case 0: {
      if (m->mems.empty()) return;
      RMem *x = m->mems[opd(m->mems.size())];
      if (!x->pages || !x->owner->alive) return;
      size_t n = 1 + opd(64), a = opd(3) ? opd(0x8000) : (size_t)x->pages * 65536 - n - opd(16);
      for (size_t i = 0; i < n; i++) x->real->bytes[a + i] = x->d[a + i] = (uint8_t)(a + i * 31 + n);
      logf("host writes %zu bytes at 0x%zx of a memory of %s", n, a, m->name.c_str());
      return;
    }
    case 1: {
      std::vector<RGlob *> v;
      for (size_t i = 0; i < m->globs.size(); i++) if (m->def->globs[i].mut && m->globs[i]->t != FREF && (int)i != m->def->fuel && m->globs[i]->owner->alive) v.push_back(m->globs[i]);
      if (v.empty()) return;
      RGlob *g = v[opd(v.size())];
      g->v = draw_value(g->t);
      memcpy(g->real, &g->v, g->t == I32 || g->t == F32 ? 4 : 8);
      logf("host sets a global of %s", m->name.c_str());
      return;
    }
    default: {
      if (m->tabs.empty()) return;
      RTab *t = m->tabs[opd(m->tabs.size())];
      if (!t->owner->alive || !t->callable) return;
      uint32_t a = opd(t->callable), b = opd(t->e.size());
      RFunc *f = t->e[a];
      if (fn_gone(f)) return;
      t->e[b] = f; t->real->entries[b] = f ? f->real : nullptr;
      logf("host copies table slot %u to %u of %s", a, b, m->name.c_str());
    }
  }
}
}  // namespace w
