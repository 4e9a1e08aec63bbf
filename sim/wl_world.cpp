// M02, X03: histories of modules sharing memories or tables, re-entered from host functions.
#include "drv.h"
using namespace sim;
using namespace drv;
static const int P_LATE = probe_kind("module loaded while others run");

static Space *sp;
static int nloaded;
static bool loads_inside;
static void load_another() { if (nloaded < 5) { load_new(*sp, "m" + std::to_string(nloaded++), 1 + opd(3)); } }
static void sharing_host(HostCall &h) {
  if (loads_inside && opd(12) == 11 && nloaded < 5) { hit(P_LATE); load_another(); }
  std_host(h);
}
static void history(int calls, const char *when) {
  for (int i = 0; i < calls; i++) {
    op_mark();
    if (opd(6) == 5) load_another();
    if (opd(6) == 5) { auto v = usable(); host_mutate(v[opd(v.size())]); }
    auto v = usable();
    invoke_one(v[opd(v.size())]);
    compare_state(when);
  }
}
static void run_m02() {
  swarm();
  cfg.growth = cfg.mems = cfg.multimem = true; cfg.builtins = opd(4) == 3;
  cfg.w_grow = 2 + opd(3); cfg.w_mem = 3 + opd(4); cfg.w_call = 2 + opd(4); cfg.w_tab = opd(2); cfg.w_num = 1;
  cfg.tables = opd(3) != 0;
  cfg.cap = 12 + opd(40);
  cfg.refuse_pct = opd(4) == 3 ? 25 : 0;
  reenter_den = 2 + opd(2); max_depth = 2 + opd(4);
  begin(2 + opd(4), 2 + opd(4));
  on_host = sharing_host;
  loads_inside = opd(2);
  sp = new_space();
  if (opd(3) == 2) define_host(*sp, "ho", host_objects("ho", opd(3)));
  nloaded = 0;
  for (int i = 1 + opd(3); i >= 0; i--) { load_another(); op_mark(); }
  history(2 + opd(10), "after a call");
  code_verify_all("at the end");
}
static Reg reg_m02({"M02", run_m02, "exploration", "distinct event logs: sequences of calls with arguments, host calls, growths and their results", 8000, 400000,
  "pwart compiler, runtime and loader, sljit code generator, the generated machine code run natively", "host functions; heap (every reallocation moves) and executable memory behind the simulator",
  {"accesses stay within the memory's current size", "memories of at most about 64 pages; larger ones are refused by the simulated system"}});

static void run_x03() {
  swarm();
  cfg.tables = cfg.refs = true;
  cfg.w_tab = 4 + opd(5); cfg.w_call = 2 + opd(4); cfg.w_mem = opd(2); cfg.w_grow = opd(4) == 3; cfg.growth = cfg.w_grow; cfg.w_num = 1;
  cfg.mems = opd(2);
  reenter_den = 2 + opd(3); max_depth = 2 + opd(3);
  begin(2 + opd(4), 2 + opd(4));
  on_host = sharing_host;
  loads_inside = opd(2);
  sp = new_space();
  if (opd(3) == 2) define_host(*sp, "ho", host_objects("ho", 1 + opd(3)));
  nloaded = 0;
  for (int i = opd(3); i >= 0; i--) { load_another(); op_mark(); }
  history(2 + opd(12), "after a call");
  code_verify_all("at the end");
}
static Reg reg_x03({"X03", run_x03, "exploration", "distinct event logs: sequences of calls with arguments, host calls, loads and host changes of tables", 16000, 400000,
  "pwart compiler, runtime and loader, sljit code generator, the generated machine code run natively", "host functions; heap and executable memory behind the simulator",
  {"indirect calls are made only through slots holding a function of the expected type", "tables of at most 14 slots"}});

// X01: several threads of control, each with a runtime stack of its own, switched inside host functions.
static const int P_SW = probe_kind("suspended inside a host function");
static void switching_host(HostCall &h) {
  if (opd(3) != 2) { hit(P_SW); yield_point("host function"); }
  std_host(h);
}
static void run_x01() {
  swarm();
  cfg.w_host = 3 + opd(4);
  reenter_den = 3 + opd(3); max_depth = 3;
  cfg.fuel = 20 + opd(30);
  begin(3 + opd(4), 2 + opd(4));
  on_host = switching_host;
  sp = new_space();
  nloaded = 0;
  for (int i = 1 + opd(3); i > 0; i--) { load_another(); op_mark(); }
  int nf = 2 + opd(3);
  reset_fuel();
  std::vector<int> ids;
  for (int t = 0; t < nf; t++)
    ids.push_back(spawn([] {
      new_stack(1 << 18);
      for (int i = 1 + opd(4); i > 0; i--) {
        auto v = usable();
        RMod *m = v[opd(v.size())];
        RFunc *f = pick_func(m);
        op_mark();
        if (f) invoke(f, draw_args(f->type, m), nullptr);
        yield_point("between calls");
      }
    }, "runner", 1 << 20));
  for (int i : ids) join(i);
  compare_state("at the end");
  code_verify_all("at the end");
}
static Reg reg_x01({"X01", run_x01, "exploration", "distinct event logs: interleaved calls, host calls and their arguments", 16000, 400000,
  "pwart compiler, runtime and loader, sljit code generator, the generated machine code run natively", "host functions, threads of control (fibers switched by the seeded scheduler inside host functions and between calls)",
  {"switches happen inside host functions and between calls, as the property states", "fuel shared by all threads bounds each run"}});

// M01: one operation per function, so that every delta, width and address can be asked for.
static E ex(Expr::K k, T t, uint32_t a = 0, uint32_t b = 0, uint64_t c = 0, std::vector<E> kids = {}) { auto e = std::make_shared<Expr>(); e->k = k; e->t = t; e->a = a; e->b = b; e->c = c; e->kids = kids; return e; }
static S st(Stmt::K k, uint32_t a = 0, uint32_t b = 0, uint32_t c = 0, std::vector<E> x = {}) { auto s = std::make_shared<Stmt>(); s->k = k; s->a = a; s->b = b; s->c = c; s->ex = x; return s; }
static E lget(T t, uint32_t l) { return ex(Expr::LGET, t, l); }
static E i32c(uint32_t v) { return ex(Expr::CONST, I32, 0, 0, v); }
enum FK { SIZE, GROW, GROWLD, STGROWLD, GROW2, SIZEGROW, LD, ST, FILL, COPY, STLD };
struct TF { FK k; uint32_t m, m2, op, off; int w; T t; };
static const struct { uint8_t op; int w; T t; } LDS[] = {{0x28, 4, I32}, {0x29, 8, I64}, {0x2a, 4, F32}, {0x2b, 8, F64}, {0x2c, 1, I32}, {0x2d, 1, I32}, {0x2e, 2, I32}, {0x2f, 2, I32}, {0x30, 1, I64}, {0x31, 1, I64}, {0x32, 2, I64}, {0x33, 2, I64}, {0x34, 4, I64}, {0x35, 4, I64}};
static const struct { uint8_t op; int w; T t; } STS[] = {{0x36, 4, I32}, {0x37, 8, I64}, {0x38, 4, F32}, {0x39, 8, F64}, {0x3a, 1, I32}, {0x3b, 2, I32}, {0x3c, 1, I64}, {0x3d, 2, I64}, {0x3e, 4, I64}};
struct Tmpl { RMod *m; std::vector<TF> f; };
static uint32_t some_off() { return opd(3) == 0 ? 0 : opd(3) ? opd(200) : opd(0x20000); }
static void add_fn(ModDef &d, const FType &t, std::vector<T> locals, Body b, std::vector<E> res) {
  FuncDef f; f.type = type_index(t); f.locals = t.p; f.locals.insert(f.locals.end(), locals.begin(), locals.end()); f.body = b; f.res = res;
  set_locals(f, t.p.size());
  d.fn.push_back(f); d.ftype.push_back(f.type);
}
static Tmpl template_module(Space &s, const std::string &name) {
  auto dp = std::make_shared<ModDef>(); ModDef &d = *dp;
  d.types = &w::types;
  Tmpl t;
  { Imp i; i.kind = 0; i.mod = "host"; i.field = "h0"; i.type = hosts[0].type; d.imps.push_back(i); d.ftype.push_back(i.type); d.nif = 1; d.grow_report = 0; }
  for (auto &e : s.env().mods) for (size_t k = 0; k < e.second->mems.size(); k++) if (d.mems.size() < 3 && opd(2)) {
    RMem *m = e.second->mems[k];
    Imp i; i.kind = 2; i.mod = e.first; i.field = "m" + std::to_string(k); i.min = m->initial; i.hasmax = m->fixed; i.max = m->max; d.imps.push_back(i);
    MemInfo mi; mi.imported = true; mi.initial = m->initial; mi.hasmax = m->fixed; mi.max = m->max; d.mems.push_back(mi);
  }
  for (int n = opd(3); n >= 0 && d.mems.size() < 4; n--) { MemInfo m; m.initial = opd(5) == 4 ? 0 : 1 + opd(3); m.hasmax = opd(3) == 2; m.max = m.initial + opd(8); d.mems.push_back(m); }
  auto add = [&](TF f, const FType &ty, std::vector<T> l, Body b, std::vector<E> r) { add_fn(d, ty, l, b, r); t.f.push_back(f); };
  for (int n = 6 + opd(14); n > 0; n--) {
    TF f{}; f.k = (FK)opd(11); f.m = opd(d.mems.size()); f.off = some_off(); f.t = I32;
    auto grow = [&](uint32_t dl, uint32_t r1, uint32_t r2, uint32_t mem) { return st(Stmt::GROWI, mem, r1, r2, {lget(I32, dl)}); };
    switch (f.k) {
      case SIZE: add(f, {{}, {I32}}, {}, {}, {ex(Expr::MSIZE, I32, f.m)}); break;
      case GROW: add(f, {{I32}, {I32}}, {I32, I32}, {grow(0, 1, 2, f.m)}, {lget(I32, 2)}); break;
      case GROWLD: { auto &o = LDS[f.op = opd(14)]; f.w = o.w; f.t = o.t; add(f, {{I32, I32}, {I32, o.t}}, {I32, I32}, {grow(0, 2, 3, f.m)}, {lget(I32, 3), ex(Expr::LOAD, o.t, o.op, f.m, f.off, {lget(I32, 1)})}); break; }
      case STGROWLD: { // stores around the growth, then reads the first back
        auto &o = STS[f.op = opd(9)]; f.w = o.w; f.t = o.t; uint8_t ld = o.t == I32 ? 0x28 : o.t == I64 ? 0x29 : o.t == F32 ? 0x2a : 0x2b;
        add(f, {{I32, I32, o.t}, {I32, o.t}}, {I32, I32}, {st(Stmt::STORE, o.op, f.m, f.off, {lget(I32, 1), lget(o.t, 2)}), grow(0, 3, 4, f.m), st(Stmt::STORE, 0x3a, f.m, f.off + 8, {lget(I32, 1), lget(I32, 4)})}, {lget(I32, 4), ex(Expr::LOAD, o.t, ld, f.m, f.off, {lget(I32, 1)})});
        t.f.back().w = 9; break;
      }
      case GROW2: f.m2 = opd(d.mems.size()); add(f, {{I32, I32}, {I32, I32, I32, I32}}, {I32, I32, I32, I32}, {grow(0, 2, 3, f.m), grow(1, 4, 5, f.m2)}, {lget(I32, 3), lget(I32, 5), ex(Expr::MSIZE, I32, f.m), ex(Expr::MSIZE, I32, f.m2)}); break;
      case SIZEGROW: add(f, {{I32}, {I32, I32, I32}}, {I32, I32, I32}, {st(Stmt::LSET, 3, 0, 0, {ex(Expr::MSIZE, I32, f.m)}), grow(0, 1, 2, f.m)}, {lget(I32, 3), lget(I32, 2), ex(Expr::MSIZE, I32, f.m)}); break;
      case LD: { auto &o = LDS[f.op = opd(14)]; f.w = o.w; f.t = o.t; add(f, {{I32}, {o.t}}, {}, {}, {ex(Expr::LOAD, o.t, o.op, f.m, f.off, {lget(I32, 0)})}); break; }
      case ST: { auto &o = STS[f.op = opd(9)]; f.w = o.w; f.t = o.t; add(f, {{I32, o.t}, {}}, {}, {st(Stmt::STORE, o.op, f.m, f.off, {lget(I32, 0), lget(o.t, 1)})}, {}); break; }
      case STLD: { auto &o = STS[f.op = opd(9)]; f.w = o.w; f.t = I64; f.m2 = opd(d.mems.size()); add(f, {{I32, o.t, I32}, {I64}}, {}, {st(Stmt::STORE, o.op, f.m, f.off, {lget(I32, 0), lget(o.t, 1)})}, {ex(Expr::LOAD, I64, 0x31, f.m2, 0, {lget(I32, 2)})}); f.t = o.t; break; }
      case FILL: add(f, {{I32, I32, I32}, {}}, {}, {st(Stmt::MFILL, f.m, 0, 0, {lget(I32, 0), lget(I32, 1), lget(I32, 2)})}, {}); break;
      case COPY: f.m2 = opd(d.mems.size()); add(f, {{I32, I32, I32}, {}}, {}, {st(Stmt::MCOPY, f.m, f.m2, 0, {lget(I32, 0), lget(I32, 1), lget(I32, 2)})}, {}); break;
    }
  }
  for (uint32_t m = 0; m < d.mems.size(); m++) if (d.mems[m].initial && opd(2)) {
    Data x; x.mem = m; uint32_t len = 1 + opd(300), v = opd(1 << 16); x.offset = opd(d.mems[m].initial * 65536 - len);
    for (uint32_t i = 0; i < len; i++) { v = v * 1103515245 + 12345; x.bytes.push_back(v >> 16); }
    d.datas.push_back(x);
  }
  t.m = load(s, name, dp);
  return t;
}
static uint32_t any_delta(RMem *m) {
  static const uint32_t big[] = {0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff0000, 0xfffffffe, 0xffff8000};
  switch (opd(10)) {
    default: return 1; case 4: return 0; case 5: return 2 + opd(4); case 6: return opd(cfg.cap + 4);
    case 7: return big[opd(11)]; case 8: return m->max - m->pages + opd(3) - 1; case 9: return 0u - m->pages + opd(3) - 1 + (opd(2) ? 0x10000 : 0);
  }
}
// an address so that w bytes from address + off lie inside n bytes; false if there is none
static bool place(uint64_t n, uint32_t off, uint32_t w, uint32_t *a) {
  if ((uint64_t)off + w > n) return false;
  uint64_t room = n - off - w + 1;
  *a = opd(3) == 0 ? room - 1 - opd(room < 16 ? (uint32_t)room : 16) : opd(3) ? opd(room) : (room > 65536 ? (opd(room / 65536) * 65536 + 65530 + opd(12)) % room : opd(room));
  return true;
}
static void one_op(Tmpl &t) {
  size_t k = opd(t.f.size());
  TF &f = t.f[k];
  RFunc *fn = t.m->fn[t.m->def->nif + k];
  RMem *m = t.m->mems[f.m];
  uint64_t n = (uint64_t)m->pages * 65536;
  std::vector<uint64_t> a;
  uint32_t x, y;
  switch (f.k) {
    case SIZE: break;
    case GROW: case SIZEGROW: a = {any_delta(m)}; break;
    case GROW2: { uint32_t q = any_delta(m); a = {q, any_delta(t.m->mems[f.m2])}; break; }
    case GROWLD: { uint32_t q = any_delta(m); if (!place(n, f.off, f.w, &x)) return; a = {q, x}; break; }
    case STGROWLD: { uint32_t q = any_delta(m); if (!place(n, f.off, f.w, &x)) return; a = {q, x, draw_value(f.t)}; break; }
    case LD: if (!place(n, f.off, f.w, &x)) return; a = {x}; break;
    case ST: if (!place(n, f.off, f.w, &x)) return; a = {x, draw_value(f.t)}; break;
    case STLD: if (!place(n, f.off, f.w, &x) || !place((uint64_t)t.m->mems[f.m2]->pages * 65536, 0, 1, &y)) return; a = {x, draw_value(f.t), y}; break;
    case FILL: { uint32_t w = opd(3) ? opd(300) : opd(70000); if (w > n) w = n; if (!place(n, 0, w, &x)) return; a = {x, opd(1 << 16), w}; break; }
    case COPY: { uint64_t n2 = (uint64_t)t.m->mems[f.m2]->pages * 65536; uint32_t w = opd(3) ? opd(300) : opd(70000); if (w > n) w = n; if (w > n2) w = n2; if (!place(n, 0, w, &x) || !place(n2, 0, w, &y)) return; a = {x, y, w}; break; }
  }
  invoke(fn, a, nullptr);
}
static void run_m01() {
  if (opd(4) == 3) return run_m02();
  swarm();
  cfg.cap = 6 + opd(58); cfg.growth = true;
  cfg.refuse_pct = opd(2) ? 30 : 0;
  begin(1, 0);
  on_host = nullptr;
  sp = new_space();
  std::vector<Tmpl> ts;
  if (opd(4) == 3) define_host(*sp, "ho", host_objects("ho", 0));
  for (int i = 0, n = 1 + opd(2); i < n; i++) { ts.push_back(template_module(*sp, "t" + std::to_string(i))); op_mark(); }
  for (int i = 0, n = 4 + opd(40); i < n; i++) {
    op_mark();
    reset_fuel();
    one_op(ts[opd(ts.size())]);
    if (i % 4 == 0) compare_state("after an operation");
  }
  compare_state("at the end");
}
static Reg reg_m01({"M01", run_m01, "exploration", "distinct event logs: operations with their arguments, growths and their results", 8000, 300000,
  "pwart compiler, runtime and loader, sljit code generator, the generated machine code run natively", "heap: refuses memory at random, at a capacity limit, and moves blocks on every reallocation",
  {"accesses stay within the memory's current size", "memories of at most about 64 pages; larger ones are refused by the simulated system", "static offsets below 2 GB"}});
