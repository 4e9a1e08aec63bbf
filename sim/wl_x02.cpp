// X02: nested, re-entrant and tail calls in random modules against the reference interpreter.
#include "drv.h"
using namespace sim;
using namespace drv;
static const int P_CHAIN = probe_kind("chain of a thousand tail calls or more"), P_CHAINX = probe_kind("chain of tail calls through several modules");
static E ex(Expr::K k, T t, uint32_t a = 0, uint32_t b = 0, uint64_t c = 0, std::vector<E> kids = {}) { auto e = std::make_shared<Expr>(); e->k = k; e->t = t; e->a = a; e->b = b; e->c = c; e->kids = kids; return e; }
static S st(Stmt::K k, uint32_t a = 0, uint32_t b = 0, uint32_t c = 0, std::vector<E> x = {}) { auto s = std::make_shared<Stmt>(); s->k = k; s->a = a; s->b = b; s->c = c; s->ex = x; return s; }
static E lget(T t, uint32_t l) { return ex(Expr::LGET, t, l); }
static E i32c(uint32_t v) { return ex(Expr::CONST, I32, 0, 0, v); }
static E num(uint8_t op, T t, E a, E b) { return ex(Expr::NUM, t, op, 0, 0, {a, b}); }
// functions that count down while they tail-call each other with frames of different sizes, until one returns
static RMod *chain_module(Space &s, const std::string &name, const std::vector<RMod *> &others) {
  auto dp = std::make_shared<ModDef>(); ModDef &d = *dp;
  d.types = &w::types;
  std::vector<FType> ft;

  auto imp = [&](const std::string &m, const std::string &f, uint32_t t) { Imp i; i.kind = 0; i.mod = m; i.field = f; i.type = t; d.imps.push_back(i); d.ftype.push_back(t); ft.push_back(types[t]); d.nif++; };
  for (auto *o : others) for (size_t k = o->def->nif; k < o->fn.size(); k++) imp(o->name, "f" + std::to_string(k), o->def->ftype[k]);
  int own = 1 + opd(4);
  for (int i = 0; i < own; i++) {
    FType t; t.p = {I32, I32}; t.r = {I32};
    for (int n = opd(5); n > 0; n--) t.p.push_back((T[]){I32, I64, F32, F64}[opd(cfg.floats ? 4 : 2)]);
    if (i && opd(3) == 2) t = ft[d.nif + opd(i)];
    ft.push_back(t); d.ftype.push_back(type_index(t));
  }
  TabInfo tb; tb.size = 2 + ft.size(); tb.callable = 0; tb.ftype = 0; d.tabs.push_back(tb);
  Elem el; el.offset = 1; for (size_t i = 0; i < ft.size(); i++) el.f.push_back(i); d.elems.push_back(el);
  for (int i = 0; i < own; i++) {
    uint32_t me = d.nif + i;
    const FType &t = ft[me];
    FuncDef f; f.type = d.ftype[me]; f.locals = t.p;
    for (int n = opd(4); n > 0; n--) f.locals.push_back(opd(2) ? I32 : I64);
    S end = st(Stmt::IF, 0, 0, 0, {ex(Expr::NUM, I32, 0x45, 0, 0, {lget(I32, 0)})});
    end->bodies.push_back({st(Stmt::RET, 0, 0, 0, {lget(I32, 1)})});
    f.body.push_back(end);
    uint32_t to = opd(3) ? d.nif + opd(own) : opd(ft.size());
    std::vector<E> a = {num(0x6b, I32, lget(I32, 0), i32c(1)), num(0x6a, I32, num(0x6c, I32, lget(I32, 1), i32c(31)), num(0x6a, I32, lget(I32, 0), i32c(opd(1000))))};
    for (size_t q = 2; q < ft[to].p.size(); q++) {
      T w = ft[to].p[q];
      std::vector<uint32_t> same; for (size_t z = 0; z < f.locals.size(); z++) if (f.locals[z] == w) same.push_back(z);
      if (!same.empty() && opd(4)) { E v = lget(w, same[opd(same.size())]); a.push_back(w == I32 && opd(2) ? num(0x73, I32, v, lget(I32, 1)) : w == I64 && opd(2) ? num(0x7c, I64, v, ex(Expr::CONST, I64, 0, 0, 1 + opd(60))) : v); }
      else a.push_back(ex(Expr::CONST, w, 0, 0, w == F32 ? 0x42280000 : w == F64 ? 0x4050000000000000 : opd(60)));
    }
    // the extra arguments take part in the result
    for (size_t q = 2; q < t.p.size(); q++) if (t.p[q] == I32) a[1] = num(0x73, I32, a[1], lget(I32, q));
    if (opd(3) == 2) { a.push_back(i32c(1 + to)); f.body.push_back(st(Stmt::RCALLI, 0, 0, d.ftype[to], a)); }
    else f.body.push_back(st(Stmt::RCALL, to, 0, 0, a));
    f.res = {i32c(0)};
    set_locals(f, t.p.size());
    d.fn.push_back(f);
  }
  return load(s, name, dp);
}
static void chains() {
  Space *s = new_space();
  std::vector<RMod *> ms;
  for (int i = 1 + opd(3); i > 0; i--) { ms.push_back(chain_module(*s, "c" + std::to_string(ms.size()), ms)); op_mark(); }
  if (ms.size() > 1) hit(P_CHAINX);
  join(spawn([&] {
    new_stack(1 << 16);
    for (int i = 2 + opd(4); i > 0; i--) {
      op_mark();
      RMod *m = ms[opd(ms.size())];
      RFunc *f = m->fn[m->def->nif + opd(m->def->fn.size())];
      auto a = draw_args(f->type, m);
      a[0] = opd(3) ? opd(300) : 6000 + opd(14000);
      if (a[0] >= 1000) hit(P_CHAIN);
      reset_fuel();
      invoke(f, a);
    }
    drop_stack();
  }, "chains", 160 << 10));
}
static void run() {
  swarm();
  if (opd(12) == 11) { cfg.tail = true; begin(2, 1); return chains(); }
  cfg.w_call += 2;
  cfg.builtins = opd(5) == 4;
  reenter_den = 2 + opd(3);
  max_depth = 2 + opd(4);
  begin(2 + opd(6), 3 + opd(6));
  Space *s = new_space();
  int nm = 1 + opd(3);
  for (int i = 0; i < nm; i++) { load_new(*s, "m" + std::to_string(i), 1 + opd(4)); op_mark(); }
  int calls = 2 + opd(12);
  for (int i = 0; i < calls; i++) {
    op_mark();
    auto v = usable();
    invoke_one(v[opd(v.size())]);
    compare_state("after a call");
  }
  code_verify_all("at the end");
}
static Reg reg({"X02", run, "exploration", "distinct event logs: sequences of calls with arguments, host calls, loads and growths", 20000, 400000, "pwart module compiler, runtime and loader, sljit code generator, the generated machine code run natively", "host functions; heap and executable memory behind the simulator", {"opcodes are a subset: no arithmetic corner cases","no traps are provoked: accesses stay in bounds"}});
