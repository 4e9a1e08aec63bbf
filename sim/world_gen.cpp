// Random modules. Every choice comes from the operation stream; the smallest draws give the simplest code.
#include "world.h"
#include "world_int.h"
#include <algorithm>
#include <cstring>
using namespace sim;
namespace w {
Cfg cfg;
std::vector<FType> types;
std::vector<Host> hosts;

static T draw_type() {
  switch (opd(12)) { default: return I32; case 4: case 5: case 6: return I64; case 7: return cfg.floats ? F32 : I32; case 8: case 9: return cfg.floats ? F64 : I64; case 10: return cfg.refs ? FREF : I32; }
}
static uint32_t add_type(const FType &t) {
  for (size_t i = 0; i < types.size(); i++) if (types[i] == t) return i;
  types.push_back(t);
  return types.size() - 1;
}
uint32_t gen_types;
std::vector<Stmt *> sites;
uint32_t type_index(const FType &t) { return add_type(t); }
void setup_types(int n) {
  types.clear();
  types.push_back({{}, {}});
  types.push_back({{I32, I32, I32}, {}});
  types.push_back({{I32}, {I32}});
  types.push_back({{I64, I32}, {I64}});
  for (int i = 0; i < n; i++) {
    FType t;
    uint32_t np = opd(cfg.maxparam + 1);
    for (uint32_t k = 0; k < np; k++) t.p.push_back(draw_type());
    uint32_t r = opd(8), nr = r < 2 ? 0 : r < 6 || !cfg.multi ? 1 : 2 + opd(cfg.maxres > 1 ? cfg.maxres - 1 : 1);
    for (uint32_t k = 0; k < nr; k++) t.r.push_back(draw_type());
    add_type(t);
  }
  gen_types = types.size();
}
uint64_t draw_value(T t) {
  static const uint32_t e32[] = {0, 1, 2, 0xffffffff, 0x7fffffff, 0x80000000, 0xff, 0x100, 0xffff, 0x10000, 0x7f, 0x80};
  switch (t) {
    case I32: switch (opd(4)) { case 0: return opd(8); case 1: return e32[opd(12)]; case 2: return opd(1 << 16); default: return (opd(1 << 16) << 16) | opd(1 << 16); }
    case I64: switch (opd(4)) { case 0: return opd(8); case 1: return (uint64_t)(int64_t)(int32_t)e32[opd(12)]; case 2: return (uint64_t)opd(1 << 16) << opd(48); default: return ((uint64_t)opd(1 << 30) << 34) ^ opd(1u << 31); }
    case F32: { float f = (float)(int)opd(4000) / 4 - (opd(2) ? 500 : 0); uint32_t v; memcpy(&v, &f, 4); return v; }
    case F64: { double f = (double)(int)opd(1 << 20) / 8 - (opd(2) ? 50000 : 0); uint64_t v; memcpy(&v, &f, 8); return v; }
    default: return 0;
  }
}
static E mk(Expr::K k, T t, uint32_t a = 0, uint32_t b = 0, uint64_t c = 0) { auto e = std::make_shared<Expr>(); e->k = k; e->t = t; e->a = a; e->b = b; e->c = c; return e; }
static S ms(Stmt::K k, uint32_t a = 0, uint32_t b = 0, uint32_t c = 0) { auto s = std::make_shared<Stmt>(); s->k = k; s->a = a; s->b = b; s->c = c; return s; }
static E num(uint8_t op, T t, E x, E y = nullptr) { E e = mk(Expr::NUM, t, op); e->kids.push_back(x); if (y) e->kids.push_back(y); return e; }
static E ci(uint32_t v) { return mk(Expr::CONST, I32, 0, 0, v); }

static const int P_DEAD = probe_kind("code that can never run");
struct FG {
  ModDef &d;
  FuncDef &fn;
  const FType ty;
  std::vector<Stmt *> labels;
  std::vector<uint32_t> reserved;
  bool noif = false;                    // no block inside: the memory index of a reference stays a constant
  int loops = 0, base = 0;              // base: operands that wait below the statement
  bool inseq = false;
  bool rsv(uint32_t l) { return std::find(reserved.begin(), reserved.end(), l) != reserved.end(); }
  const FType &ft(uint32_t f) { return types[d.ftype[f]]; }
  std::vector<uint32_t> locals_of(T t, bool assign) {
    std::vector<uint32_t> v;
    for (uint32_t i = 0; i < fn.locals.size(); i++) if (fn.locals[i] == t && !(assign && rsv(i))) v.push_back(i);
    return v;
  }
  uint32_t some_local(T t) {              // assignable, created if needed
    auto v = locals_of(t, true);
    if (v.empty() || (fn.locals.size() < 60 && opd(6) == 5)) { fn.locals.push_back(t); return fn.locals.size() - 1; }
    return v[opd(v.size())];
  }
  uint32_t fresh_local(T t) { fn.locals.push_back(t); return fn.locals.size() - 1; }
  bool callable(uint32_t f) { return !d.special(f); }
  E leaf(T t) {
    uint32_t k = opd(4);
    if (k == 1 || k == 2) { auto v = locals_of(t, false); if (!v.empty()) return mk(Expr::LGET, t, v[opd(v.size())]); }
    if (k == 3) { std::vector<uint32_t> v; for (uint32_t i = 0; i < d.globs.size(); i++) if (d.globs[i].t == t) v.push_back(i); if (!v.empty()) return mk(Expr::GGET, t, v[opd(v.size())]); }
    if (t == FREF) return mk(Expr::RNULL, FREF);
    return mk(Expr::CONST, t, 0, 0, draw_value(t));
  }
  E masked(uint32_t mask, int dep, int h) { return num(0x71, I32, gen(I32, dep - 1, h), ci(mask)); }
  // address of n bytes in memory m; *off is the static offset
  E addr(uint32_t m, uint32_t n, uint32_t *off, int dep, int h) {
    uint32_t k = opd(4);
    *off = 0;
    if (k == 0) return ci(opd(0x8000));
    if (k == 1) { uint32_t back = n + opd(64); *off = opd(back - n + 1); return num(0x6b, I32, num(0x74, I32, mk(Expr::MSIZE, I32, m), ci(16)), ci(back)); }
    if (k == 2) { *off = opd(4) ? opd(128) : opd(0x7ff0); return masked(0x7ff7, dep, h); }
    uint32_t span = d.mems[m].initial * 65536;        // anywhere in the initial pages
    uint32_t mask = 1; while (mask * 2 <= span) mask *= 2;
    return masked((mask - 1) & ~7u, dep, h);
  }
  uint64_t more(const FType &y, T t) { return y.r.size() < 2 ? 0 : y.r.size() == 2 && y.r[1] == t && (t == I32 || t == I64) && opd(3) ? 258 : y.r.size(); }
  E gen(T t, int dep, int h) {
    const int H = h + base;
    if (dep <= 0 || H >= 24) return leaf(t);
    enum { LEAF, NUMOP, CONV, LOAD, CALL, CALLI, SEL, MSZ, MGR, TSZ, ISN, TEE, IFE, TG, RF, BCN, BLK, LADDER, TGR, OPQ, SEQ };
    std::vector<std::pair<int, int>> o;
    o.push_back({2, LEAF});
    bool ref = t == FREF;
    if (!ref) { o.push_back({cfg.w_num, NUMOP}); o.push_back({1, CONV}); if (t == I32 || t == I64) o.push_back({1, SEL}); if (!noif) { o.push_back({1, IFE}); o.push_back({1, BLK}); } if (H < 6 && dep > 1) o.push_back({1, LADDER}); }
    if (!noif && !inseq && H < 12) o.push_back({1, SEQ});
    o.push_back({1, TEE});
    if (!ref && !d.mems.empty()) o.push_back({cfg.w_mem, LOAD});
    std::vector<uint32_t> fs, ts;
    for (uint32_t i = 0; i < d.ftype.size(); i++) if (callable(i) && !ft(i).r.empty() && ft(i).r[0] == t && H + ft(i).p.size() < 20) for (int q = 0; q < (i < d.nif ? cfg.w_host : 1); q++) fs.push_back(i);
    if (!fs.empty()) o.push_back({cfg.w_call, CALL});
    for (uint32_t i = 0; i < d.tabs.size(); i++) { auto &x = types[d.tabs[i].ftype]; if (d.tabs[i].callable && !x.r.empty() && x.r[0] == t && H + x.p.size() < 26) ts.push_back(i); }
    if (!ts.empty()) o.push_back({cfg.w_call, CALLI});
    std::vector<uint32_t> gm;
    if (t == I32) {
      if (d.sp_hi) o.push_back({1, BCN});
      if (!d.mems.empty()) o.push_back({1, MSZ});
      if (!d.tabs.empty()) { o.push_back({cfg.w_tab > 0, TSZ}); }
      if (cfg.refs) o.push_back({cfg.w_tab, ISN});
      if (cfg.refs && !d.tabs.empty()) o.push_back({cfg.w_tab > 0, TGR});
      if (cfg.growth) { for (uint32_t i = 0; i < d.mems.size(); i++) if (!d.mems[i].hasmax) gm.push_back(i); if (!gm.empty()) o.push_back({cfg.w_grow, MGR}); }
    }
    if (t == I64 && d.sp_hi) o.push_back({1, OPQ});
    if (ref) { o.push_back({3, RF}); if (!d.tabs.empty()) o.push_back({3, TG}); }
    int sum = 0; for (auto &x : o) sum += x.first;
    int k = opd(sum), kind = LEAF;
    for (auto &x : o) { if (k < x.first) { kind = x.second; break; } k -= x.first; }
    switch (kind) {
      case NUMOP: {
        static const uint8_t o32[] = {0x6a, 0x6b, 0x6c, 0x71, 0x72, 0x73, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c, 0x4d, 0x4e, 0x4f};
        static const uint8_t o64[] = {0x7c, 0x7d, 0x7e, 0x83, 0x84, 0x85};
        if (opd(4) == 3) return wide(t, dep, h);
        if (t == I32) {
          uint32_t q = opd(20);
          if (q < 16) { E x = gen(I32, dep - 1, h); return num(o32[q], I32, x, gen(I32, dep - 1, h + 1)); }
          if (q == 16) return num(0x45, I32, gen(I32, dep - 1, h));
          if (q == 17) { uint8_t op = 0x74 + opd(3); return num(op, I32, gen(I32, dep - 1, h), ci(opd(32))); }
          uint8_t op = 0x51 + opd(10); E x = gen(I64, dep - 1, h); return num(op, I32, x, gen(I64, dep - 1, h + 1));
        }
        if (t == I64) { uint8_t op = o64[opd(6)]; E x = gen(I64, dep - 1, h); return num(op, I64, x, gen(I64, dep - 1, h + 1)); }
        { E x = gen(t, dep - 1, h); return num(t == F32 ? 0x92 : 0xa0, t, x, gen(t, dep - 1, h + 1)); }
      }
      case CONV:
        if (t == I32) return num(0xa7, I32, gen(I64, dep - 1, h));
        if (t == I64) return num(opd(2) ? 0xac : 0xad, I64, gen(I32, dep - 1, h));
        if (t == F32) return num(0xb2, F32, gen(I32, dep - 1, h));
        return num(0xb7, F64, gen(I32, dep - 1, h));
      case LOAD: {
        static const uint8_t l32[] = {0x28, 0x2c, 0x2d, 0x2e, 0x2f}, l64[] = {0x29, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35};
        uint8_t op = t == I32 ? l32[opd(5)] : t == I64 ? l64[opd(7)] : t == F32 ? 0x2a : 0x2b;
        uint32_t m = opd(d.mems.size()), off;
        E a = addr(m, 8, &off, dep, h);
        E e = mk(Expr::LOAD, t, op, m, off); e->kids.push_back(a);
        return e;
      }
      case CALL: { uint32_t f = fs[opd(fs.size())]; E e = mk(Expr::CALL, t, f, 0, more(ft(f), t)); args(e->kids, ft(f), dep, h); return e; }
      case CALLI: {
        uint32_t x = ts[opd(ts.size())]; auto &ty = types[d.tabs[x].ftype];
        E e = mk(Expr::CALLI, t, x, d.tabs[x].ftype, more(ty, t)); args(e->kids, ty, dep, h);
        e->kids.push_back(masked(d.tabs[x].callable - 1, dep, h + ty.p.size()));
        return e;
      }
      case SEL: { E e = mk(Expr::SELECT, t); E x = gen(t, dep - 1, h), y = gen(t, dep - 1, h + 1), c = gen(I32, dep - 1, h + 2); e->kids = {x, y, c}; return e; }
      case MSZ: return mk(Expr::MSIZE, I32, opd(d.mems.size()));
      case TSZ: return mk(Expr::TSIZE, I32, opd(d.tabs.size()));
      case MGR: { E e = mk(Expr::MGROW, I32, gm[opd(gm.size())]); e->kids.push_back(delta()); return e; }
      case ISN: { E e = mk(Expr::ISNULL, I32); e->kids.push_back(gen(FREF, dep - 1, h)); return e; }
      case TEE: { auto v = locals_of(t, true); if (v.empty()) return leaf(t); uint32_t l = v[opd(v.size())]; E e = mk(Expr::LTEE, t, l); e->kids.push_back(gen(t, dep - 1, h)); return e; }
      case BLK: {                          // a: shape, kids: condition, value if it holds, value otherwise (in the order of evaluation, see ev)
        E e = mk(Expr::BLKE, t, opd(8));
        if (e->a == 4 || e->a == 5) { e->kids.push_back(gen(t, dep - 1, h)); return e; }
        E x = gen(t, dep - 1, h), c = gen(I32, dep - 1, h + (e->a != 2)), y = gen(t, dep - 1, h);
        e->kids = {c, x, y};
        return e;
      }
      case SEQ: {
        E e = mk(Expr::SEQ, t); e->kids.push_back(gen(t, dep - 1, h));
        int old = base, n = 1 + opd(2); base += h + 1; inseq = true;
        while (n-- > 0) { S s = stmt(1); e->body.push_back(s); if (live_size(e->body) < e->body.size()) e->body.pop_back(); }
        base = old; inseq = false;
        return e;
      }
      case LADDER: return ladder(t, 4 + opd(14), dep - 1, h);
      case IFE: { E e = mk(Expr::IFE, t); E c = gen(I32, dep - 1, h), x = gen(t, dep - 1, h), y = gen(t, dep - 1, h); e->kids = {c, x, y}; return e; }
      case TG: { uint32_t x = opd(d.tabs.size()); E e = mk(Expr::TGET, FREF, x); e->kids.push_back(ci(opd(d.tabs[x].size))); return e; }
      case BCN: { uint32_t x = opd(2); return mk(Expr::BCONST, I32, x ? B_VERSION : B_NSIZE, !d.tabs.empty() && opd(2) ? 1 + opd(d.tabs.size()) : 0, x ? 1 : 8); }
      case TGR: { E e = mk(Expr::TGROW, I32, opd(d.tabs.size())); E x = gen(FREF, dep - 1, h); e->kids = {x, gen(I32, dep - 1, h + 1)}; return e; }
      case OPQ: { E e = mk(Expr::OPAQ, I64); if (!d.tabs.empty()) { e->a = opd(d.tabs.size()); e->b = opd(4); } e->kids.push_back(gen(I64, dep - 1, h)); return e; }
      case RF: return mk(Expr::RFUNC, FREF, some_func());
      default: return leaf(t);
    }
  }
  // the instructions that need particular registers, a helper function or a value in memory
  E wide(T t, int dep, int h) {
    auto un = [&](const std::vector<std::pair<uint8_t, T>> &o) { auto x = o[opd(o.size())]; return num(x.first, t, gen(x.second, dep - 1, h)); };
    auto bin = [&](uint8_t op, T a) { E x = gen(a, dep - 1, h); return num(op, t, x, gen(a, dep - 1, h + 1)); };
    auto div = [&](uint8_t op) { E x = gen(t, dep - 1, h); return num(op, t, x, mk(Expr::CONST, t, 0, 0, 1 + opd(1000))); };
    auto divv = [&](uint8_t op) {         // the divisor is between 1 and 255
      E x = gen(t, dep - 1, h), y = gen(t, dep - 1, h + 1), c = mk(Expr::CONST, t, 0, 0, 0xfe), one = mk(Expr::CONST, t, 0, 0, 1);
      return num(op, t, x, num(t == I32 ? 0x72 : 0x84, t, num(t == I32 ? 0x71 : 0x83, t, y, c), one));
    };
    auto small = [&](uint8_t conv, T f) { return num(conv, f, num(0x71, I32, gen(I32, dep - 1, h), ci(0x7fffff))); };
    if (t == I32) switch (opd(9)) {
      case 0: return div(0x6d + opd(4));
      case 1: return divv(0x6d + opd(4));
      case 2: return bin(0x74 + opd(5), I32);
      case 3: return un({{0x67, I32}, {0x68, I32}, {0x69, I32}, {0xc0, I32}, {0xc1, I32}});
      case 4: return bin(0x5b + opd(6), F32);
      case 5: return bin(0x61 + opd(6), F64);
      case 6: return un({{0xbc, F32}});
      case 7: { E e = opd(2) ? num(0xa8 + opd(2), I32, small(0xb2 + opd(2), F32)) : num(0xaa + opd(2), I32, small(0xb7 + opd(2), F64)); e->b = opd(2); return e; }
      default: return div(0x6d + opd(4));
    }
    if (t == I64) switch (opd(6)) {
      case 0: return div(0x7f + opd(4));
      case 1: return divv(0x7f + opd(4));
      case 2: return bin(0x86 + opd(5), I64);
      case 3: return un({{0xc2, I64}, {0xbd, F64}});
      case 4: { E e = opd(2) ? num(0xae + opd(2), I64, small(0xb2 + opd(2), F32)) : num(0xb0 + opd(2), I64, small(0xb7 + opd(2), F64)); e->b = opd(2); return e; }
      default: return div(0x7f + opd(4));
    }
    if (t == F32) switch (opd(4)) {
      case 0: return bin(0x93 + opd(3), F32);
      case 1: return un({{0x8b, F32}, {0x8c, F32}, {0x8d, F32}, {0x8e, F32}, {0x8f, F32}, {0x90, F32}, {0x91, F32}});
      case 2: return un({{0xb2, I32}, {0xb3, I32}, {0xb4, I64}, {0xb5, I64}, {0xb6, F64}, {0xbe, I32}});
      default: { E x = small(0xb2, F32), y = num(0xb2, F32, gen(I32, dep - 1, h + 1)); return num(0x96 + opd(2), F32, x, y); }
    }
    switch (opd(4)) {
      case 0: return bin(0xa1 + opd(3), F64);
      case 1: return un({{0x99, F64}, {0x9a, F64}, {0x9b, F64}, {0x9c, F64}, {0x9d, F64}, {0x9e, F64}, {0x9f, F64}});
      case 2: return un({{0xb7, I32}, {0xb8, I32}, {0xb9, I64}, {0xba, I64}, {0xbb, F32}, {0xbf, I64}});
      default: { E x = small(0xb7, F64), y = num(0xb7, F64, gen(I32, dep - 1, h + 1)); return num(0xa4 + opd(2), F64, x, y); }
    }
  }
  // n operands that are all live before the first of the operators that consume them
  E ladder(T t, uint32_t n, int dep, int h) {
    if (!n) return gen(t, dep, h);
    E x = opd(3) ? leaf(t) : gen(t, dep - 1, h);
    if (t != I32 && t != I64) return num(t == F32 ? 0x92 : 0xa0, t, x, ladder(t, n - 1, dep, h + 1));
    static const uint8_t o32[] = {0x6a, 0x6b, 0x6c, 0x73}, o64[] = {0x7c, 0x7d, 0x7e, 0x85};
    uint8_t op = (t == I32 ? o32 : o64)[opd(4)];
    if (opd(3)) return num(op, t, x, ladder(t, n - 1, dep, h + 1));
    E y = ladder(t == I32 ? I64 : I32, n - 1, dep, h + 1);
    return num(op, t, x, num(t == I32 ? 0xa7 : 0xac, t, y));
  }
  uint32_t some_func() { uint32_t f = opd(d.ftype.size()); while (d.special(f)) f = (f + 1) % d.ftype.size(); return f; }
  E delta() {
    static const uint32_t big[] = {0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff0000, 0xfffffffe};
    uint32_t k = opd(8);
    return ci(k < 3 ? 1 : k < 5 ? 2 + opd(3) : k == 5 ? 0 : k == 6 ? big[opd(10)] : 1 + opd(cfg.cap));
  }
  void args(std::vector<E> &k, const FType &t, int dep, int h) { for (size_t i = 0; i < t.p.size(); i++) k.push_back(gen(t.p[i], dep - 1, h + i)); }
  // a reference suitable for the callable part of table x
  E typed_ref(uint32_t x, int dep, int h) {
    if (opd(3) == 1) { E e = mk(Expr::TGET, FREF, x); e->kids.push_back(masked(d.tabs[x].callable - 1, dep, h)); return e; }
    std::vector<uint32_t> v;
    for (uint32_t i = 0; i < d.ftype.size(); i++) if (callable(i) && d.ftype[i] == d.tabs[x].ftype) v.push_back(i);
    if (v.empty()) { E e = mk(Expr::TGET, FREF, x); e->kids.push_back(ci(opd(d.tabs[x].callable))); return e; }
    return mk(Expr::RFUNC, FREF, v[opd(v.size())]);
  }
  bool tail_target(const FType &t) { return t.r == ty.r; }
  S ret() { S s = ms(Stmt::RET, 0, opd(3) == 1); for (size_t i = 0; i < ty.r.size(); i++) s->ex.push_back(gen(ty.r[i], cfg.depth, i)); return s; }
  S tail() {
    std::vector<uint32_t> fs, ts;
    for (uint32_t i = 0; i < d.ftype.size(); i++) if (callable(i) && tail_target(ft(i))) fs.push_back(i);
    for (uint32_t i = 0; i < d.tabs.size(); i++) if (d.tabs[i].callable && tail_target(types[d.tabs[i].ftype])) ts.push_back(i);
    if (!ts.empty() && opd(3) == 1) {
      uint32_t x = ts[opd(ts.size())]; auto &t = types[d.tabs[x].ftype];
      S s = ms(Stmt::RCALLI, x, 1, d.tabs[x].ftype); args(s->ex, t, cfg.depth, 0);
      s->ex.push_back(masked(d.tabs[x].callable - 1, 2, t.p.size()));
      return s;
    }
    if (fs.empty()) return ret();
    uint32_t f = fs[opd(fs.size())];
    S s = ms(Stmt::RCALL, f); args(s->ex, ft(f), cfg.depth, 0);
    return s;
  }
  Body body(int n, int nest) {
    Body b;
    for (int i = 0; i < n; i++) {
      b.push_back(stmt(nest));
      if (live_size(b) == b.size()) continue;
      if (opd(4) == 3) { S s = ms(Stmt::RAW); dead(s->raw, 1 + opd(4), 3); b.push_back(s); }
      break;
    }
    return b;
  }
  // valid code that can never run: the operands of its instructions need not be there
  void dead(std::vector<uint8_t> &o, int n, int nest) {
    auto u = [&](uint32_t v) { do { o.push_back((v & 0x7f) | (v > 0x7f ? 0x80 : 0)); v >>= 7; } while (v); };
    auto put = [&](std::initializer_list<int> l) { for (int x : l) o.push_back(x); };
    hit(P_DEAD);
    while (n-- > 0) switch (opd(20)) {
      case 0: put({0x1a}); break;
      case 1: put({0x6a, 0x1a}); break;
      case 2: put({0x86, 0x50, 0x6d, 0x1a}); break;
      case 3: put({0xa0, 0xb6, 0x5b, 0x1a}); break;
      case 4: if (!fn.locals.empty()) { put({0x21}); u(opd(fn.locals.size())); } break;
      case 5: if (!fn.locals.empty()) { put({0x20}); u(opd(fn.locals.size())); put({0x1a}); } break;
      case 6: if (!fn.locals.empty()) { put({0x22}); u(opd(fn.locals.size())); put({0x1a}); } break;
      case 7: { uint32_t f = opd(d.ftype.size()); put({0x10}); u(f); for (size_t i = 0; i < ft(f).r.size(); i++) put({0x1a}); break; }
      case 8: if (!d.mems.empty()) put({0x28, 2, 11, 0x37, 3, 5}); break;
      case 9: if (!d.mems.empty()) put({0x40, 0, 0x3f, 0, 0x46, 0x1a}); break;
      case 10: if (!d.mems.empty()) put({0xfc, 10, 0, 0, 0xfc, 11, 0}); break;
      case 11: put({0x1b, 0x1a}); break;
      case 12: if (!d.tabs.empty()) { uint32_t x = opd(types.size()); put({0x11}); u(x); u(opd(d.tabs.size())); for (size_t i = 0; i < types[x].r.size(); i++) put({0x1a}); } break;
      case 13: if (!d.tabs.empty()) { put({0x25}); u(opd(d.tabs.size())); put({0x26}); u(opd(d.tabs.size())); } break;
      case 14: put({0x44, 11, 11, 11, 5, 11, 11, 4, 11, 0x1a, 0x43, 11, 5, 2, 3, 0x1a, 0x42, 11, 0x1a, 0x41, 5, 0x1a}); break;
      case 15: put({opd(2) ? 0x0f : 0x00}); break;
      case 16: if (nest && opd(2)) { put({opd(2) ? 0x02 : 0x03, 0x40, 0x0c, 0}); dead(o, opd(3), nest - 1); put({0x0b}); } break;
      case 17: if (nest) { put({0x04, 0x40}); if (opd(2)) { put({0x00}); dead(o, opd(3), nest - 1); } if (opd(2)) { put({0x05, 0x0f}); dead(o, opd(3), nest - 1); } put({0x0b}); } break;
      case 18: if (nest) { put({0x02, 0x40, 0x41, 5, 0x0e, 1, 0, 0}); dead(o, opd(3), nest - 1); put({0x0b}); } break;
      default: if (nest) { put({0x02, 0x7f, 0x41, 3, 0x41, 11, 0x0d, 0, 0x0c, 0}); dead(o, opd(3), nest - 1); put({0x0b, 0x1a}); } break;
    }
  }
  S stmt(int nest) {
    enum { LSET, GSET, STORE, DROP, IF, LOOP, BLOCK, BRIF, BRIFRET, BR, CONT, SWITCH, CALLM, RET, TAIL, GROWI, MCOPY, MFILL, TSET, TCOPY, TFILL, RCOPY, STRL, NATV, BUILTIN };
    std::vector<std::pair<int, int>> o;
    int D = cfg.depth;
    o.push_back({3, LSET}); o.push_back({2, GSET}); o.push_back({cfg.w_call, DROP});
    if (!d.mems.empty()) { o.push_back({cfg.w_mem * 2, STORE}); o.push_back({cfg.w_mem > 1, MCOPY}); o.push_back({cfg.w_mem > 1, MFILL}); }
    if (nest > 0) { o.push_back({2, IF}); o.push_back({1, BLOCK}); o.push_back({1, SWITCH}); if (cfg.loops && loops < 2) o.push_back({1, LOOP}); }
    if (!labels.empty()) { o.push_back({1, BRIF}); o.push_back({1, BR}); o.push_back({1, BRIFRET}); o.push_back({1, RET}); if (loops) o.push_back({2, CONT}); if (cfg.tail) o.push_back({1, TAIL}); }
    o.push_back({cfg.w_call, CALLM});
    if (cfg.growth && !d.mems.empty() && d.grow_report >= 0 && fn.locals.size() < 80) o.push_back({cfg.w_grow * 2, GROWI});
    if (!d.tabs.empty()) { o.push_back({cfg.w_tab, TSET}); o.push_back({cfg.w_tab > 0, TCOPY}); o.push_back({cfg.w_tab > 0, TFILL}); }
    if (d.sp_hi) {
      if (!d.mems.empty()) { o.push_back({2, RCOPY}); o.push_back({1, STRL}); }
      if (d.native && fn.locals.size() < 80) o.push_back({1, NATV});
      if (d.bi[B_LOAD] >= 0 && fn.locals.size() < 80) o.push_back({4, BUILTIN});
    }
    int sum = 0; for (auto &x : o) sum += x.first;
    int k = opd(sum), kind = LSET;
    for (auto &x : o) { if (k < x.first) { kind = x.second; break; } k -= x.first; }
    switch (kind) {
      case LSET: { T t = draw_type(); uint32_t l = some_local(t); S s = ms(Stmt::LSET, l); s->ex.push_back(gen(t, D, 0)); return s; }
      case GSET: {
        std::vector<uint32_t> v;
        for (uint32_t i = 0; i < d.globs.size(); i++) if (d.globs[i].mut && (int)i != d.fuel) v.push_back(i);
        if (v.empty()) return ms(Stmt::NOP);
        uint32_t g = v[opd(v.size())]; S s = ms(Stmt::GSET, g); s->ex.push_back(gen(d.globs[g].t, D, 0)); return s;
      }
      case DROP: { S s = ms(Stmt::DROP); s->ex.push_back(gen(draw_type(), D, 0)); return s; }
      case STORE: {
        static const uint8_t op[] = {0x36, 0x37, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x38, 0x39};
        uint8_t x = op[opd(cfg.floats ? 9 : 7)];
        T t = x == 0x38 ? F32 : x == 0x39 ? F64 : x == 0x37 || (x >= 0x3c && x <= 0x3e) ? I64 : I32;
        uint32_t m = opd(d.mems.size()), off; E a = addr(m, 8, &off, D, 0);
        S s = ms(Stmt::STORE, x, m, off); s->ex.push_back(a); s->ex.push_back(gen(t, D, 1)); return s;
      }
      case IF: {
        S s = ms(Stmt::IF); s->ex.push_back(gen(I32, D, 0)); labels.push_back(s.get());
        s->bodies.push_back(body(1 + opd(2), nest - 1)); if (opd(2)) s->bodies.push_back(body(1 + opd(2), nest - 1));
        labels.pop_back(); return s;
      }
      case LOOP: {
        uint32_t c = fresh_local(I32); reserved.push_back(c); loops++;
        S s = ms(Stmt::LOOP, c, 1 + opd(3)); labels.push_back(s.get()); s->bodies.push_back(body(1 + opd(2), nest - 1)); labels.pop_back();
        loops--; return s;
      }
      case BLOCK: { S s = ms(Stmt::BLOCK); labels.push_back(s.get()); s->bodies.push_back(body(1 + opd(3), nest - 1)); labels.pop_back(); return s; }
      case SWITCH: {
        S s = ms(Stmt::SWITCH); uint32_t n = 1 + opd(4); s->ex.push_back(masked(opd(2) ? 3 : 7, D, 0)); labels.push_back(s.get());
        if (ty.r.empty() && opd(3) == 1) s->b = opd(2 << n);
        for (uint32_t i = 0; i < n; i++) s->bodies.push_back(body(1, nest - 1));
        labels.pop_back(); return s;
      }
      case BRIF: { S s = ms(Stmt::BRIF); s->target = labels[opd(labels.size())]; s->ex.push_back(gen(I32, D, 0)); return s; }
      case BRIFRET: { S s = ms(Stmt::BRIFRET); for (size_t i = 0; i < ty.r.size(); i++) s->ex.push_back(gen(ty.r[i], D, i)); s->ex.push_back(gen(I32, D, ty.r.size())); return s; }
      case BR: { S s = ms(Stmt::BR); s->target = labels[opd(labels.size())]; return s; }
      case CONT: {
        std::vector<Stmt *> v; for (Stmt *l : labels) if (l->k == Stmt::LOOP) v.push_back(l);
        S s = ms(Stmt::CONT, 0, opd(6)); s->target = v[opd(v.size())]; s->a = s->target->a; return s;
      }
      case RET: return ret();
      case TAIL: return tail();
      case CALLM: {
        bool ind = false; uint32_t x = 0;
        std::vector<uint32_t> ts;
        for (uint32_t i = 0; i < d.tabs.size(); i++) if (d.tabs[i].callable) ts.push_back(i);
        std::vector<uint32_t> fs;
        for (uint32_t i = 0; i < d.ftype.size(); i++) if (callable(i)) fs.push_back(i);
        if (!ts.empty() && opd(3) == 1) { ind = true; x = ts[opd(ts.size())]; }
        else if (fs.empty()) return ms(Stmt::NOP);
        else x = fs[opd(fs.size())];
        const FType &t = ind ? types[d.tabs[x].ftype] : ft(x);
        S s = ms(Stmt::CALLM, x, ind, ind ? d.tabs[x].ftype : 0);
        args(s->ex, t, D, 0);
        if (ind) s->ex.push_back(masked(d.tabs[x].callable - 1, 2, t.p.size()));
        for (T r : t.r) s->regs.push_back(some_local(r));
        return s;
      }
      case GROWI: { uint32_t m = opd(d.mems.size()); S s = ms(Stmt::GROWI, m, fresh_local(I32), fresh_local(I32)); reserved.push_back(s->b); reserved.push_back(s->c); s->ex.push_back(delta()); return s; }
      case MCOPY: {
        uint32_t a = opd(d.mems.size()), b = opd(d.mems.size()), o1, o2, n = opd(3) ? opd(64) : opd(4000);
        S s = ms(Stmt::MCOPY, a, b); s->ex.push_back(addr0(a, n, &o1, D, 0)); s->ex.push_back(addr0(b, n, &o2, D, 1)); s->ex.push_back(ci(n)); return s;
      }
      case RCOPY: {
        uint32_t a = opd(d.mems.size()), b = opd(d.mems.size()), o1, o2, n = opd(3) ? opd(64) : opd(4000);
        S s = ms(Stmt::REFCOPY, a, b); noif = true; s->ex.push_back(addr0(a, n, &o1, D, 1)); s->ex.push_back(addr0(b, n, &o2, 0, 2)); noif = false; s->ex.push_back(ci(n)); return s;   // nothing grows after the first reference is made
      }
      case STRL: { uint32_t a = opd(d.mems.size()), o1; S s = ms(Stmt::STRLEN, a, some_local(I32)); noif = true; s->ex.push_back(addr0(a, 1, &o1, D, 1)); noif = false; return s; }
      case NATV: { S s = ms(Stmt::NATIVE, fresh_local(I64), 0, opd(40)); reserved.push_back(s->a); s->b = some_local(I64); s->ex.push_back(gen(I64, D, 1)); return s; }
      case BUILTIN: {
        S s = ms(Stmt::BUILTIN, opd(3), opd(3));
        if (s->b == 0) { s->c = d.mems.empty() ? 0 : opd(d.mems.size()); if (d.mems.empty() || !d.mems[s->c].initial) s->b = 1; }
        if (s->b == 2 && !d.native) s->b = 1;
        static const T lt[] = {I32, I64, I64, I32, XREF};
        for (int i = 0; i < 5; i++) { s->regs.push_back(fresh_local(i == 4 && s->a == SITE_IMPORT ? FREF : lt[i])); reserved.push_back(s->regs[i]); }
        sites.push_back(s.get());
        if (s->a != SITE_IMPORT) return s;
        S bl = ms(Stmt::BLOCK); bl->bodies.push_back({s});       // lookup, then a call of what was found
        std::vector<uint32_t> ts;
        for (uint32_t i = 0; i < d.tabs.size(); i++) if (!d.tabs[i].imported) ts.push_back(i);
        uint32_t ty = opd(gen_types); if (ty == 1) ty = 2;
        s->target = (Stmt *)(uintptr_t)ty;
        if (!ts.empty()) {
          uint32_t x = ts[opd(ts.size())], slot = d.tabs[x].size - 1 - opd(2);
          S iff = ms(Stmt::IF); iff->ex.push_back(num(0x45, I32, mk(Expr::LGET, I32, s->regs[3])));
          S set = ms(Stmt::TSET, x); set->ex = {ci(slot), mk(Expr::LGET, FREF, s->regs[4])};
          S cl = ms(Stmt::CALLM, x, 1, ty); for (T p : types[ty].p) cl->ex.push_back(leaf(p)); cl->ex.push_back(ci(slot));
          for (T r : types[ty].r) cl->regs.push_back(some_local(r));
          iff->bodies.push_back({set, cl});
          bl->bodies[0].push_back(iff);
        }
        return bl;
      }
      case MFILL: { uint32_t a = opd(d.mems.size()), o1, n = opd(3) ? opd(64) : opd(4000); S s = ms(Stmt::MFILL, a); s->ex.push_back(addr0(a, n, &o1, D, 0)); s->ex.push_back(gen(I32, D, 1)); s->ex.push_back(ci(n)); return s; }
      case TSET: {
        uint32_t x = opd(d.tabs.size()); S s = ms(Stmt::TSET, x);
        if (d.tabs[x].callable && opd(4)) { s->ex.push_back(masked(d.tabs[x].callable - 1, D, 0)); s->ex.push_back(typed_ref(x, D, 1)); }
        else { s->ex.push_back(ci(d.tabs[x].size - 1 - opd(2))); s->ex.push_back(gen(FREF, D, 1)); }
        return s;
      }
      case TCOPY: {
        uint32_t x = opd(d.tabs.size()), y = x;
        for (uint32_t i = 0; i < d.tabs.size(); i++) if (d.tabs[i].ftype == d.tabs[x].ftype && d.tabs[i].callable == d.tabs[x].callable && opd(2)) y = i;
        if (!d.tabs[x].callable) return ms(Stmt::NOP);
        uint32_t n = opd(d.tabs[y].callable + 1), so = opd(d.tabs[y].callable - n + 1), dx = opd(d.tabs[x].size - n + 1);
        S s = ms(Stmt::TCOPY, x, y); s->ex = {ci(dx), ci(so), ci(n)}; return s;
      }
      default: {
        uint32_t x = opd(d.tabs.size()); S s = ms(Stmt::TFILL, x);
        if (d.tabs[x].callable && opd(3)) { uint32_t n = opd(d.tabs[x].callable + 1), a = opd(d.tabs[x].size - n + 1); s->ex = {ci(a), typed_ref(x, D, 1), ci(n)}; }
        else { uint32_t n = opd(3); s->ex = {ci(d.tabs[x].size - n), gen(FREF, D, 1), ci(n)}; }
        return s;
      }
    }
  }
  // whole ranges without a static offset
  E addr0(uint32_t m, uint32_t n, uint32_t *off, int dep, int h) {
    uint32_t k = opd(3);
    *off = 0;
    if (k == 0) return ci(opd(0x8000));
    if (k == 1) return num(0x6b, I32, num(0x74, I32, mk(Expr::MSIZE, I32, m), ci(16)), ci(n + opd(64)));
    return masked(0x7ff7, dep, h);
  }
};

static const char *ALIAS[] = {"f%ux", "f%u ", "f%u\xc3\xa9", "f%u.a-name-that-is-rather-long-and-differs-only-in-its-very-last-characters-1", "f%u.a-name-that-is-rather-long-and-differs-only-in-its-very-last-characters-2", "f%u/F"};
static std::string field_of(RMod *x, int kind, uint32_t k) {
  char letter = "ftmg"[kind];
  std::vector<std::string> v;
  v.push_back(letter + std::to_string(k));
  for (auto &e : x->def->extra_exports) if (e.second.first == kind && e.second.second == k) v.push_back(e.first);
  return v.size() > 1 ? v[opd(v.size())] : v[0];
}
void set_locals(FuncDef &f, size_t np) {      // when the engine is told not to
  if (cfg.zeroinit) return;
  Body b;
  for (size_t k = np; k < f.locals.size(); k++) { T t = f.locals[k]; S z = ms(Stmt::LSET, k); z->ex.push_back(t == FREF || t == XREF ? mk(Expr::RNULL, t) : mk(Expr::CONST, t)); b.push_back(z); }
  f.body.insert(f.body.begin(), b.begin(), b.end());
}
std::shared_ptr<ModDef> gen_module(const Env &env, int nfn) {
  auto dp = std::make_shared<ModDef>();
  ModDef &d = *dp;
  d.types = &types;
  auto imp_fn = [&](const std::string &mod, const std::string &field, uint32_t type) { Imp i; i.kind = 0; i.mod = mod; i.field = field; i.type = type; d.imps.push_back(i); d.ftype.push_back(type); d.nif++; };
  // host functions
  if (cfg.growth) { d.grow_report = d.nif; imp_fn("host", "h0", hosts[0].type); }
  if (cfg.hostcalls && nplain > 1) for (int n = 1 + opd(4); n > 0; n--) { int k = 1 + opd(nplain - 1); imp_fn("host", "h" + std::to_string(k), hosts[k].type); }
  std::vector<uint32_t> offg;
  uint32_t maxmem = cfg.multimem ? 3 : 1;
  // from other modules
  for (auto &e : env.mods) {
    RMod *x = e.second;
    if (opd(4) == 3) continue;
    for (int n = opd(4); n > 0 && !x->fn.empty(); n--) {
      uint32_t k = opd(x->def->ftype.size());
      if (x->def->special(k)) continue;
      imp_fn(e.first, field_of(x, 0, k), x->def->ftype[k]);
    }
    if (cfg.mems && !x->mems.empty() && d.mems.size() < maxmem && opd(4) != 0) {
      uint32_t k = opd(x->mems.size()); RMem *m = x->mems[k];
      Imp i; i.kind = 2; i.mod = e.first; i.field = field_of(x, 2, k); i.min = opd(2) ? m->initial : 0; i.hasmax = m->fixed; i.max = m->max;
      d.imps.push_back(i);
      MemInfo mi; mi.imported = true; mi.initial = m->initial; mi.hasmax = m->fixed; mi.max = m->max; d.mems.push_back(mi);
    }
    if (cfg.tables && !x->tabs.empty() && d.tabs.size() < 2 && opd(4) != 0) {
      uint32_t k = opd(x->tabs.size()); RTab *t = x->tabs[k];
      Imp i; i.kind = 1; i.mod = e.first; i.field = field_of(x, 1, k); i.min = t->e.size(); d.imps.push_back(i);
      TabInfo ti; ti.imported = true; ti.size = t->e.size(); ti.ftype = t->ftype; ti.callable = t->callable; d.tabs.push_back(ti);
    }
    for (int n = opd(3); n > 0; n--) {
      uint32_t k = opd(x->globs.size());
      if (x->globs.empty()) break;
      Imp i; i.kind = 3; i.mod = e.first; i.field = field_of(x, 3, k); i.gt = x->def->globs[k].t; i.mut = x->def->globs[k].mut; d.imps.push_back(i);
      GlobInfo g; g.t = i.gt; g.mut = i.mut; g.imported = true;
      if ((int)k == x->def->fuel) g.mut = false;   // never written from elsewhere
      if (!i.mut && g.t == I32 && x->globs[k]->v < 4) offg.push_back(d.globs.size());
      d.globs.push_back(g);
    }
  }
  // builtins
  for (int &b : d.bi) b = -1;
  if (cfg.builtins && opd(4) != 3) {
    // imported functions come first, whatever the order of other imports
    d.sp_lo = d.nif;
    auto bf = [&](int b, const char *n, const FType &t) { d.bi[b] = d.nif; imp_fn("pwart_builtin", n, type_index(t)); };
    bf(B_FROMIDX, "ref_from_index", {{I32, I32}, {XREF}});
    bf(B_COPY, "ref_copy_bytes", {{XREF, XREF, I32}, {}});
    bf(B_STRLEN, "ref_string_length", {{XREF}, {I32}});
    bf(B_ALLOC, "memory_alloc", {{I32}, {I64}});
    bf(B_FREE, "memory_free", {{I64}, {}});
    bf(B_VERSION, "version", {{}, {I32}});
    bf(B_NSIZE, "native_index_size", {{}, {I32}});
    bf(B_FROMI64, "ref_from_i64", {{I64}, {XREF}});
    bf(B_I64FROM, "i64_from_ref", {{XREF}, {I64}});
    if (cfg.builtins & 2) {
      d.bi[B_PREP] = d.nif; imp_fn("host", "h" + std::to_string(nplain), hosts[nplain].type);
      d.bi[B_REPORT] = d.nif; imp_fn("host", "h" + std::to_string(nplain + 1), hosts[nplain + 1].type);
      bf(B_SELF, "get_self_runtime_context", {{}, {XREF}});
      bf(B_LOAD, "load_module", {{XREF, XREF, XREF, I32}, {XREF}});
      bf(B_UNLOAD, "unload_module", {{XREF, XREF}, {XREF}});
      bf(B_IMPORT, "import", {{XREF, XREF, XREF, I32}, {FREF}});
    }
    d.sp_hi = d.nif;
    if (opd(2)) { d.native = true; Imp i; i.kind = 2; i.mod = "pwart_builtin"; i.field = "native_memory"; i.min = 1; d.imps.push_back(i); }
  }
  // own tables
  if (cfg.tables) for (int n = opd(3); n > 0 && d.tabs.size() < 2; n--) {
    TabInfo t; t.callable = opd(2) ? 8 : 4; t.size = t.callable + 2; t.ftype = opd(gen_types); t.hasmax = opd(2); t.max = t.size + opd(4);
    if (t.ftype == 1) t.ftype = 2;
    d.tabs.push_back(t);
  }
  if (cfg.mems) for (int n = opd(4) ? 1 : opd(3); n > 0 && d.mems.size() < maxmem; n--) {
    MemInfo m; m.initial = 1 + opd(3); m.hasmax = opd(4) == 1; m.max = m.initial + opd(6); d.mems.push_back(m);
  }
  // globals: fuel first, then an immutable small i32
  uint32_t nig = d.globs.size();
  if (opd(3) == 2) d.cx = 1 + opd(0x10000);
  if (opd(3) == 2) d.pad = 1 + opd(0x10000);
  if (opd(4) == 2) d.custom = 1 + opd(0x10000);
  { GlobInfo g; g.t = I32; g.init = cfg.fuel; d.fuel = d.globs.size(); d.globs.push_back(g); }
  { GlobInfo g; g.t = I32; g.mut = false; g.init = opd(4); d.globs.push_back(g); }
  for (int n = opd(5); n > 0; n--) {
    GlobInfo g; g.t = draw_type(); g.mut = opd(4) != 3;
    if (g.t == FREF) { g.initk = 3; } else g.init = draw_value(g.t);
    if (nig && g.t != FREF && opd(3) == 2) { std::vector<uint32_t> v; for (uint32_t i = 0; i < nig; i++) if (d.globs[i].t == g.t && !d.globs[i].mut && !(d.imps.empty())) v.push_back(i); if (!v.empty()) { g.initk = 1; g.init = v[opd(v.size())]; } }
    d.globs.push_back(g);
  }
  // own functions
  if (!nfn) { bool any = false; for (uint32_t i = 0; i < d.nif; i++) if (!d.special(i)) any = true; if (!any) nfn = 1; }
  for (int i = 0; i < nfn; i++) {
    FuncDef f; f.type = opd(gen_types);
    d.fn.push_back(f); d.ftype.push_back(f.type);
  }
  for (auto &t : d.tabs) if (!t.imported) {
    bool has = false;
    for (uint32_t i = 0; i < d.ftype.size(); i++) if (!d.special(i) && d.ftype[i] == t.ftype) has = true;
    if (!has) { FuncDef f; f.type = t.ftype; d.fn.push_back(f); d.ftype.push_back(f.type); }
  }
  for (auto &g : d.globs) if (!g.imported && g.initk == 3 && cfg.refs && opd(2)) { g.initk = 2; g.init = opd(d.ftype.size()); if (d.special(g.init)) g.initk = 3; }
  if (cfg.starts && opd(3)) {
    for (uint32_t i = d.nif; i < d.ftype.size(); i++) if (d.ftype[i] == 0) d.start = i;
    if (d.start < 0) { FuncDef f; d.start = d.ftype.size(); d.fn.push_back(f); d.ftype.push_back(0); }
  }
  // element segments: the callable part of own tables is filled
  for (uint32_t t = 0; t < d.tabs.size(); t++) {
    std::vector<uint32_t> c;
    for (uint32_t i = 0; i < d.ftype.size(); i++) if (!d.special(i) && d.ftype[i] == d.tabs[t].ftype) c.push_back(i);
    if (c.empty() || !d.tabs[t].callable) continue;
    auto seg = [&](uint32_t off, uint32_t n, int og) {
      Elem e; e.table = t; e.offset = off; e.offset_global = og;
      uint32_t k = opd(4);
      e.flags = t == 0 ? (k == 0 ? 2 : k == 1 ? 4 : k == 2 ? 6 : 0) : (k == 1 ? 6 : 2);
      for (uint32_t i = 0; i < n; i++) e.f.push_back(c[opd(c.size())]);
      d.elems.push_back(e);
    };
    if (!d.tabs[t].imported) {
      uint32_t cut = opd(d.tabs[t].callable);
      if (cut) seg(0, cut, -1);
      seg(cut, d.tabs[t].callable - cut, -1);
    }
    if (opd(3) == 1) {
      int og = -1;
      if (!offg.empty() && opd(2)) og = offg[opd(offg.size())];
      uint32_t n = og >= 0 ? 1 : 1 + opd(d.tabs[t].callable);
      seg(og >= 0 ? 0 : opd(d.tabs[t].callable - n + 1), n, og);
    }
    if (opd(4) == 1) { Elem e; static const int fl[] = {3, 1, 5, 7}; e.flags = fl[opd(4)]; for (uint32_t i = opd(4); i > 0; i--) e.f.push_back(c[opd(c.size())]); d.elems.push_back(e); }
  }
  // data
  for (uint32_t m = 0; m < d.mems.size(); m++) for (int n = opd(3); n > 0; n--) {
    Data x; x.mem = m;
    x.offset = opd(3) ? opd(0x8000) : d.mems[m].initial * 65536 - 300 + opd(44);
    if (!offg.empty() && opd(3) == 1) x.offset_global = offg[opd(offg.size())];
    uint32_t len = 1 + opd(256), v = opd(1 << 16);
    for (uint32_t i = 0; i < len; i++) { v = v * 1103515245 + 12345; x.bytes.push_back(v >> 16); }
    d.datas.push_back(x);
  }
  if (cfg.aliases) {
    std::set<std::string> used;
    for (int n = opd(6); n > 0; n--) {
      int kind = opd(4);
      uint32_t cnt = kind == 0 ? d.ftype.size() : kind == 1 ? d.tabs.size() : kind == 2 ? d.mems.size() : d.globs.size();
      if (!cnt) continue;
      uint32_t k = opd(cnt), w = opd(8); char b0[120]; snprintf(b0, sizeof b0, ALIAS[w % 6], k); b0[0] = "ftmg"[kind];
      std::string b = b0;
      if (w > 5) { b.resize(254, 'n'); b += '0' + w; }       // as long as names may be
      if (kind == 0 && d.special(k)) continue;
      if (used.insert(b).second) d.extra_exports.push_back({b, {kind, k}});
    }
  }
  // bodies
  for (uint32_t i = 0; i < d.fn.size(); i++) {
    FuncDef &f = d.fn[i];
    FG g{d, f, types[f.type], {}, {}, 0};
    f.locals = g.ty.p;
    for (int n = opd(6); n > 0; n--) f.locals.push_back(draw_type());
    S dec = ms(Stmt::GSET, d.fuel); dec->ex.push_back(num(0x6b, I32, mk(Expr::GGET, I32, d.fuel), ci(1))); f.body.push_back(dec);
    S chk = ms(Stmt::IF); chk->ex.push_back(num(0x4c, I32, mk(Expr::GGET, I32, d.fuel), ci(0)));
    S r = ms(Stmt::RET); for (T t : g.ty.r) r->ex.push_back(t == FREF ? mk(Expr::RNULL, FREF) : mk(Expr::CONST, t));
    chk->bodies.push_back({r}); f.body.push_back(chk);
    Body b = g.body(1 + opd(cfg.stmts), 2);
    f.body.insert(f.body.end(), b.begin(), b.end());
    if (cfg.tail && opd(4) == 3) f.body.push_back(g.tail());
    else for (size_t k = 0; k < g.ty.r.size(); k++) f.res.push_back(g.gen(g.ty.r[k], cfg.depth, k));
    set_locals(f, g.ty.p.size());
  }
  return dp;
}
}  // namespace w
