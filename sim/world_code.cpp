// Encoding of generated modules, and the reference interpreter.
#include "world.h"
#include "world_int.h"
#include <cmath>
#include <cstring>
using namespace sim;
namespace w {
bool operator==(const FType &a, const FType &b) { return a.p == b.p && a.r == b.r; }
typedef std::vector<uint8_t> O;
static uint32_t g_pad;        // numbers of the module being written are padded to more bytes than they need, as linkers do; 0: none
static uint32_t pads(uint32_t room) { if (!g_pad || !room) return 0; g_pad = g_pad * 1664525u + 1013904223u; uint32_t x = (g_pad >> 12) % 8; return x == 7 ? room : x == 6 ? (g_pad >> 20) % (room + 1) : 0; }
static void u(O &o, uint64_t v) {
  uint32_t n = 1; for (uint64_t x = v; x > 0x7f; x >>= 7) n++;
  n += n < 5 ? pads(5 - n) : 0;
  for (uint32_t i = 0; i < n; i++) { o.push_back((v & 0x7f) | (i + 1 < n ? 0x80 : 0)); v >>= 7; }
}
static void s32(O &o, int32_t v0) {
  int64_t v = v0;
  uint32_t n = 1; for (int64_t x = v; x < -64 || x > 63; x >>= 7) n++;
  n += n < 5 ? pads(5 - n) : 0;
  for (uint32_t i = 0; i < n; i++) { o.push_back((v & 0x7f) | (i + 1 < n ? 0x80 : 0)); v >>= 7; }
}
static void s64(O &o, uint64_t v) {      // always the full ten bytes
  for (int i = 0; i < 9; i++) { o.push_back((v & 0x7f) | 0x80); v = (uint64_t)((int64_t)v >> 7); }
  o.push_back(v & 0x7f);
}
static void str(O &o, const std::string &s) { u(o, s.size()); o.insert(o.end(), s.begin(), s.end()); }
static uint32_t g_custom;     // sections without meaning to the engine are put between the others; 0: none
static const int P_CUSTOM = probe_kind("custom section"), P_PAD = probe_kind("module with padded numbers"), P_BLKE = probe_kind("block or loop that yields a value"), P_NOCODE = probe_kind("module without functions of its own"), P_DIRECT = probe_kind("several results used from the operand stack"), P_SEQ = probe_kind("statements while an operand waits"), P_ESC = probe_kind("way out of an expression");
static void custom(O &o) {
  if (!g_custom) return;
  auto r = [](uint32_t n) { g_custom = g_custom * 1664525u + 1013904223u; return (g_custom >> 12) % n; };
  for (uint32_t k = r(6) == 5 ? 1 + r(2) : 0; k > 0; k--) {
    static const char *N[] = {"", "name", "dylink", "dylink.0", "producers", "sourceMappingURL", "target_features", "\xc3\xa9"};
    uint32_t w = r(9);
    O b; str(b, w < 8 ? N[w] : std::string(1 + r(498), 'n'));
    for (uint32_t n = r(4) ? r(12) : r(400); n > 0; n--) b.push_back(r(3) ? r(256) : 0xff);
    o.push_back(0); u(o, b.size()); o.insert(o.end(), b.begin(), b.end());
    hit(P_CUSTOM);
  }
}
static void sect(O &o, int id, const O &b) { custom(o); o.push_back(id); u(o, b.size()); o.insert(o.end(), b.begin(), b.end()); }
static void konst(O &o, T t, uint64_t v) {
  switch (t) {
    case I32: o.push_back(0x41); s32(o, (int32_t)v); break;
    case I64: o.push_back(0x42); s64(o, v); break;
    case F32: { uint32_t x = v; o.push_back(0x43); for (int i = 0; i < 4; i++) o.push_back(x >> (8 * i)); break; }
    case F64: o.push_back(0x44); for (int i = 0; i < 8; i++) o.push_back(v >> (8 * i)); break;
    default: o.push_back(0xd0); o.push_back(t == XREF ? 0x6f : 0x70);
  }
}
// A constant expression with the given value (or that of global `g`), written as a computation picked by `r`.
static const int P_CX = probe_kind("computed constant expression"), P_CXDEEP = probe_kind("constant expression of more than sixteen operands");
struct ConstEnc {
  const ModDef &d;
  uint32_t r;
  uint32_t pick(uint32_t n) { r = r * 1664525u + 1013904223u; return (r >> 10) % n; }
  int glob(T t) { std::vector<int> v; for (size_t i = 0; i < d.globs.size() && d.globs[i].imported; i++) if (d.globs[i].t == t && !d.globs[i].mut) v.push_back(i); return v.empty() ? -1 : v[pick(v.size())]; }
  void leaf(O &o, T t, uint64_t v, int g) { if (g >= 0) { o.push_back(0x23); u(o, g); } else konst(o, t, v); }
  void put(O &o, T t, uint64_t v, int g, int depth = 0) {
    if (!d.cx || (t != I32 && t != I64) || depth > 2) { leaf(o, t, v, g); return; }
    uint8_t add = t == I32 ? 0x6a : 0x7c, sub = add + 1, mul = add + 2;
    auto cut = [&](uint64_t x) { return t == I32 ? (uint32_t)x : x; };
    uint64_t k = cut((uint64_t)pick(0x400000) * 0x9e3779b97f4aull + pick(7));
    uint32_t w = pick(depth ? 7 : 24);
    if (w < (depth ? 3 : 12)) { leaf(o, t, v, g); return; }
    if (depth == 0) hit(P_CX);
    if (w == 23) {                       // many operands before the first operation
      uint32_t n = 17 + pick(20);
      hit(P_CXDEEP);
      put(o, t, v, g, 3);
      for (uint32_t i = 0; i < n; i++) konst(o, t, i * k);
      for (uint32_t i = 1; i < n; i++) o.push_back(mul);      // a product with a factor of zero
      o.push_back(add);
      return;
    }
    int og = glob(t);
    switch (w % 6) {
      case 0: if (g < 0) { put(o, t, cut(v - k), -1, depth + 1); put(o, t, k, -1, depth + 1); o.push_back(add); break; }   // fallthrough
      case 1: put(o, t, k, -1, depth + 1); put(o, t, v, g, depth + 1); o.push_back(add); put(o, t, k, -1, depth + 1); o.push_back(sub); break;
      case 2: put(o, t, v, g, depth + 1); konst(o, t, 1); o.push_back(mul); break;
      case 3: if (g < 0) { uint64_t odd = k | 1, inv = 1; for (int i = 0; i < 6; i++) inv *= 2 - odd * inv; put(o, t, cut(v * inv), -1, depth + 1); put(o, t, cut(odd), -1, depth + 1); o.push_back(mul); break; }   // fallthrough
      case 4: if (og >= 0) { put(o, t, v, g, depth + 1); leaf(o, t, 0, og); o.push_back(sub); leaf(o, t, 0, og); o.push_back(add); break; }   // fallthrough
      default: put(o, t, cut(v), g, depth + 1); put(o, t, k, -1, depth + 1); o.push_back(sub); konst(o, t, cut(0 - k)); o.push_back(sub); break;
    }

  }
};
static const int P_SAT = probe_kind("saturating conversions"), P_BIND = probe_kind("builtin functions called through a table"), P_CONT = probe_kind("branch back to the start of a loop");
bool may_be_nan(uint8_t op) { return (op >= 0x8d && op <= 0x97) || (op >= 0x9b && op <= 0xa5) || op == 0xb6 || op == 0xbb; }
struct Enc {
  const ModDef &d;
  O &o;
  uint32_t mx(uint32_t m) const { return d.mx(m); }
  uint32_t nlocal = 0; bool fadd = false;        // number of locals; whether the two after them are used (float, double)
  std::vector<const Stmt *> labels;      // nullptr: a label nothing branches to
  // what is done with the results after the first; c: how many, and 256 to add the two up
  void rest(const Expr &e) { if (e.c & 256) o.push_back(e.t == I32 ? 0x6a : 0x7c); else for (uint64_t i = 1; i < e.c; i++) o.push_back(0x1a); }
  void kids(const Expr &e) { for (auto &k : e.kids) ex(*k); }
  void ex(const Expr &e) {
    switch (e.k) {
      case Expr::CONST: konst(o, e.t, e.c); break;
      case Expr::LGET: o.push_back(0x20); u(o, e.a); break;
      case Expr::LTEE: kids(e); o.push_back(0x22); u(o, e.a); break;
      case Expr::GGET: o.push_back(0x23); u(o, e.a); break;
      case Expr::NUM:
        kids(e);
        if (e.b) { hit(P_SAT); o.push_back(0xfc); o.push_back(e.a >= 0xae ? e.a - 0xaa : e.a - 0xa8); break; }     // the saturating form of a conversion
        o.push_back(e.a);
        if (may_be_nan(e.a)) {             // which NaN an operation yields is not specified: any NaN becomes 0
          T t = e.t;
          uint32_t x = nlocal + (t == F64);
          fadd = true;
          o.push_back(0x21); u(o, x); o.push_back(0x20); u(o, x); konst(o, t, 0); o.push_back(0x20); u(o, x); o.push_back(0x20); u(o, x);
          o.push_back(t == F64 ? 0x61 : 0x5b); o.push_back(0x1b);
        }
        break;
      case Expr::LOAD: kids(e); o.push_back(e.a); memarg(e.b, e.c); break;
      case Expr::MSIZE: o.push_back(0x3f); u(o, mx(e.a)); break;
      case Expr::MGROW: kids(e); o.push_back(0x40); u(o, mx(e.a)); break;
      case Expr::BCONST: if (e.b) indirect(e.b - 1, e.a); else bcall(e.a); break;
      case Expr::TGROW: kids(e); o.push_back(0xfc); o.push_back(0x0f); u(o, e.a); break;
      case Expr::OPAQ:                     // a: table; b: which of the two calls goes through it
        kids(e);
        if (e.b & 1) indirect(e.a, B_FROMI64); else bcall(B_FROMI64);
        if (e.b & 2) indirect(e.a, B_I64FROM); else bcall(B_I64FROM);
        break;
      case Expr::CALL: kids(e); o.push_back(0x10); u(o, e.a); rest(e); break;
      case Expr::CALLI: kids(e); o.push_back(0x11); u(o, e.b); u(o, e.a); rest(e); break;
      case Expr::SELECT: kids(e); o.push_back(0x1b); break;
      case Expr::TGET: kids(e); o.push_back(0x25); u(o, e.a); break;
      case Expr::TSIZE: o.push_back(0xfc); o.push_back(0x10); u(o, e.a); break;
      case Expr::RFUNC: o.push_back(0xd2); u(o, e.a); break;
      case Expr::RNULL: o.push_back(0xd0); o.push_back(e.t == XREF ? 0x6f : 0x70); break;
      case Expr::ISNULL: kids(e); o.push_back(0xd1); break;
      case Expr::SEQ: kids(e); body(e.body); break;
      case Expr::BLKE: {
        labels.push_back(nullptr);
        auto blk = [&](uint8_t op, uint8_t t) { o.push_back(op); o.push_back(t); };
        auto br = [&](uint8_t op, uint32_t l) { o.push_back(op); u(o, l); };
        switch (e.a) {
          case 0: blk(2, e.t); ex(*e.kids[1]); ex(*e.kids[0]); br(0x0d, 0); o.push_back(0x1a); ex(*e.kids[2]); o.push_back(0xb); break;
          case 1: blk(2, e.t); blk(2, e.t); labels.push_back(nullptr); ex(*e.kids[1]); ex(*e.kids[0]); br(0x0d, 1); o.push_back(0x1a); ex(*e.kids[2]); o.push_back(0xb); o.push_back(0xb); labels.pop_back(); break;
          case 2: blk(2, e.t); ex(*e.kids[0]); blk(4, 0x40); labels.push_back(nullptr); ex(*e.kids[1]); labels.pop_back(); br(0x0c, 1); o.push_back(0xb); ex(*e.kids[2]); o.push_back(0xb); break;
          case 3: blk(2, e.t); blk(3, e.t); labels.push_back(nullptr); ex(*e.kids[1]); ex(*e.kids[0]); br(0x0d, 1); o.push_back(0x1a); ex(*e.kids[2]); o.push_back(0xb); o.push_back(0xb); labels.pop_back(); break;
          case 4: blk(3, e.t); ex(*e.kids[0]); o.push_back(0xb); break;
          case 6: case 7:                  // a table of branches that carry the value
            blk(2, e.t); blk(2, e.t); labels.push_back(nullptr); ex(*e.kids[1]); ex(*e.kids[0]); konst(o, I32, 3); o.push_back(0x71); labels.pop_back();
            o.push_back(0x0e); u(o, e.a - 5); u(o, 0); if (e.a == 7) u(o, 1); u(o, 1);
            o.push_back(0xb); o.push_back(0x1a); ex(*e.kids[2]); o.push_back(0xb); break;
          default: blk(2, e.t); ex(*e.kids[0]); br(0x0c, 0); o.push_back(0xb);
        }
        hit(P_BLKE);
        labels.pop_back();
        break;
      }
      case Expr::IFE: ex(*e.kids[0]); o.push_back(4); o.push_back(e.t); labels.push_back(nullptr); ex(*e.kids[1]); o.push_back(5); ex(*e.kids[2]); o.push_back(0xb); labels.pop_back(); break;
    }
  }
  void memarg(uint32_t mem, uint32_t off) { if (mx(mem)) { o.push_back(0x40); u(o, mx(mem)); } else o.push_back(0); u(o, off); }
  // a builtin function, called through the last slot of a table
  void indirect(uint32_t tab, int b) {
    uint32_t slot = d.tabs[tab].size - 1;
    hit(P_BIND);
    konst(o, I32, slot); o.push_back(0xd2); u(o, d.bi[b]); o.push_back(0x26); u(o, tab);
    konst(o, I32, slot); o.push_back(0x11); u(o, d.ftype[d.bi[b]]); u(o, tab);
  }
  void bcall(int b) { o.push_back(0x10); u(o, d.bi[b]); }
  uint32_t depth(const Stmt *t) { for (size_t i = 0; i < labels.size(); i++) if (labels[labels.size() - 1 - i] == t) return i; harness_error("label not found"); }
  void body(const Body &b) { for (auto &s : b) st(*s); }
  void st(const Stmt &s) {
    switch (s.k) {
      case Stmt::NOP: o.push_back(1); break;
      case Stmt::LSET: ex(*s.ex[0]); o.push_back(0x21); u(o, s.a); break;
      case Stmt::GSET: ex(*s.ex[0]); o.push_back(0x24); u(o, s.a); break;
      case Stmt::STORE: ex(*s.ex[0]); ex(*s.ex[1]); o.push_back(s.a); memarg(s.b, s.c); break;
      case Stmt::DROP: ex(*s.ex[0]); o.push_back(0x1a); break;
      case Stmt::IF:
        ex(*s.ex[0]); o.push_back(4); o.push_back(0x40); labels.push_back(&s);
        body(s.bodies[0]);
        if (s.bodies.size() > 1) { o.push_back(5); body(s.bodies[1]); }
        labels.pop_back(); o.push_back(0xb); break;
      case Stmt::LOOP:   // a: counter local, b: iterations
        konst(o, I32, s.b); o.push_back(0x21); u(o, s.a);
        o.push_back(2); o.push_back(0x40); labels.push_back(&s);
        o.push_back(3); o.push_back(0x40); labels.push_back(nullptr);
        body(s.bodies[0]);
        o.push_back(0x20); u(o, s.a); konst(o, I32, 1); o.push_back(0x6b); o.push_back(0x22); u(o, s.a); o.push_back(0x0d); u(o, 0);
        labels.pop_back(); o.push_back(0xb); labels.pop_back(); o.push_back(0xb); break;
      case Stmt::BLOCK: o.push_back(2); o.push_back(0x40); labels.push_back(&s); body(s.bodies[0]); labels.pop_back(); o.push_back(0xb); break;
      case Stmt::BRIF: ex(*s.ex[0]); o.push_back(0x0d); u(o, depth(s.target)); break;
      case Stmt::BR: o.push_back(0x0c); u(o, depth(s.target)); break;
      case Stmt::CONT: { // a: the loop's counter, b: shape
        uint32_t l = depth(s.target) - 1;
        auto get = [&] { o.push_back(0x20); u(o, s.a); };
        auto dec = [&] { get(); konst(o, I32, 1); o.push_back(0x6b); };
        auto set = [&](uint8_t op) { o.push_back(op); u(o, s.a); };
        switch (s.b) {
          case 0: dec(); set(0x22); konst(o, I32, 0); o.push_back(0x4a); o.push_back(0x0d); u(o, l); break;
          case 1: dec(); set(0x22); o.push_back(0x0d); u(o, l); break;
          case 2: get(); konst(o, I32, 1); o.push_back(0x4a); o.push_back(4); o.push_back(0x40); dec(); set(0x21); o.push_back(0x0c); u(o, l + 1); o.push_back(0xb); break;
          case 3: case 4:
            o.push_back(2); o.push_back(0x40); dec(); set(0x22); konst(o, I32, 0); o.push_back(s.b == 3 ? 0x4a : 0x4c);
            o.push_back(0x0e); u(o, 1); if (s.b == 3) { u(o, 0); u(o, l + 1); } else { u(o, l + 1); u(o, 0); }
            o.push_back(0xb); break;
          default: // out of a block and an if, with the counter as it is compared
            o.push_back(2); o.push_back(0x40); dec(); set(0x22); o.push_back(0x45); o.push_back(0x0d); u(o, 0);
            get(); o.push_back(4); o.push_back(0x40); o.push_back(0x0c); u(o, l + 2); o.push_back(0xb); o.push_back(0xb);
        }
        konst(o, I32, 1); set(0x21); hit(P_CONT); break;
      }
      case Stmt::SWITCH: {
        size_t n = s.bodies.size();
        labels.push_back(&s); o.push_back(2); o.push_back(0x40);
        for (size_t i = 0; i < n; i++) { labels.push_back(nullptr); o.push_back(2); o.push_back(0x40); }
        ex(*s.ex[0]); o.push_back(0x0e); u(o, n); for (size_t i = 0; i <= n; i++) u(o, s.b >> i & 1 ? labels.size() : i);
        for (size_t i = 0; i < n; i++) {
          o.push_back(0xb); labels.pop_back();
          body(s.bodies[i]);
          if (i + 1 < n) { o.push_back(0x0c); u(o, n - 1 - i); }
        }
        o.push_back(0xb); labels.pop_back(); break;
      }
      case Stmt::CALLM: // a: function, or b=1: indirect through table a with type c
        for (auto &e : s.ex) ex(*e);
        if (s.b) { o.push_back(0x11); u(o, s.c); u(o, s.a); } else { o.push_back(0x10); u(o, s.a); }
        for (size_t i = s.regs.size(); i-- > 0;) { o.push_back(0x21); u(o, s.regs[i]); }
        break;
      case Stmt::RET: // b=1: as a branch out of the function
        for (auto &e : s.ex) ex(*e);
        if (s.b) { o.push_back(0x0c); u(o, labels.size()); } else o.push_back(0x0f);
        break;
      case Stmt::BRIFRET: for (auto &e : s.ex) ex(*e); o.push_back(0x0d); u(o, labels.size()); for (size_t i = 1; i < s.ex.size(); i++) o.push_back(0x1a); break;
      case Stmt::RCALL: for (auto &e : s.ex) ex(*e); o.push_back(0x12); u(o, s.a); break;
      case Stmt::RCALLI: for (auto &e : s.ex) ex(*e); o.push_back(0x13); u(o, s.c); u(o, s.a); break;
      case Stmt::GROWI: // a memory, b local for delta, c local for result
        ex(*s.ex[0]); o.push_back(0x22); u(o, s.b); o.push_back(0x40); u(o, mx(s.a)); o.push_back(0x21); u(o, s.c);
        konst(o, I32, s.a); o.push_back(0x20); u(o, s.b); o.push_back(0x20); u(o, s.c); o.push_back(0x10); u(o, d.grow_report); break;
      case Stmt::MCOPY: for (auto &e : s.ex) ex(*e); o.push_back(0xfc); o.push_back(0x0a); u(o, mx(s.a)); u(o, mx(s.b)); break;
      case Stmt::MFILL: for (auto &e : s.ex) ex(*e); o.push_back(0xfc); o.push_back(0x0b); u(o, mx(s.a)); break;
      case Stmt::TSET: for (auto &e : s.ex) ex(*e); o.push_back(0x26); u(o, s.a); break;
      case Stmt::TCOPY: for (auto &e : s.ex) ex(*e); o.push_back(0xfc); o.push_back(0x0e); u(o, s.a); u(o, s.b); break;
      case Stmt::TFILL: for (auto &e : s.ex) ex(*e); o.push_back(0xfc); o.push_back(0x11); u(o, s.a); break;
      case Stmt::REFCOPY: // a, b memories
        konst(o, I32, mx(s.a)); ex(*s.ex[0]); bcall(B_FROMIDX);
        konst(o, I32, mx(s.b)); ex(*s.ex[1]); bcall(B_FROMIDX);
        ex(*s.ex[2]); bcall(B_COPY); break;
      case Stmt::STRLEN: // a memory, b local
        konst(o, I32, mx(s.a)); ex(*s.ex[0]); bcall(B_FROMIDX); bcall(B_STRLEN); o.push_back(0x21); u(o, s.b); break;
      case Stmt::NATIVE: { // a: local for the address, b: local for the value read back, c: offset
        uint32_t nm = 0; for (auto &x : d.mems) nm += x.imported;
        auto ma = [&](uint8_t op) { o.push_back(op); if (nm) { o.push_back(0x40); u(o, nm); } else o.push_back(0); u(o, s.c); };
        ex(*s.ex[0]); o.push_back(0x21); u(o, s.b);
        konst(o, I32, s.c + 8); bcall(B_ALLOC); o.push_back(0x21); u(o, s.a);
        o.push_back(0x20); u(o, s.a); o.push_back(0x20); u(o, s.b); ma(0x37);
        konst(o, I64, 0); o.push_back(0x21); u(o, s.b);
        o.push_back(0x20); u(o, s.a); ma(0x29); o.push_back(0x21); u(o, s.b);
        o.push_back(0x20); u(o, s.a); bcall(B_FREE);
        konst(o, I64, 0); o.push_back(0x21); u(o, s.a); break;
      }
      case Stmt::BUILTIN: { // regs: length, name, bytes, is null, reference
        auto get = [&](int i) { o.push_back(0x20); u(o, s.regs[i]); };
        auto set = [&](int i) { o.push_back(0x21); u(o, s.regs[i]); };
        auto ref = [&](int i) {
          uint32_t nm = 0; for (auto &x : d.mems) nm += x.imported;
          switch (s.b) {
            case 0: konst(o, I32, mx(s.c)); get(i); o.push_back(0xa7); bcall(B_FROMIDX); break;
            case 1: get(i); bcall(B_FROMI64); break;
            default: konst(o, I32, nm); get(i); bcall(B_FROMIDX);
          }
        };
        uint32_t id = 0; while (sites[id] != &s) id++;
        konst(o, I32, id); o.push_back(0x10); u(o, d.bi[B_PREP]); set(2); set(1); set(0);
        bcall(B_SELF); ref(1);
        switch (s.a) {
          case SITE_LOAD: ref(2); get(0); bcall(B_LOAD); break;
          case SITE_UNLOAD: bcall(B_UNLOAD); break;
          default: ref(2); konst(o, I32, 0); bcall(B_IMPORT);
        }
        set(4);
        konst(o, I32, id); get(4); o.push_back(0xd1); o.push_back(0x22); u(o, s.regs[3]); get(4); bcall(B_I64FROM);
        o.push_back(0x10); u(o, d.bi[B_REPORT]);
        break;
      }
      case Stmt::RAW: o.insert(o.end(), s.raw.begin(), s.raw.end()); break;
    }
  }
};
static void limits(O &o, uint32_t min, bool hasmax, uint32_t max) { o.push_back(hasmax); u(o, min); if (hasmax) u(o, max); }
std::vector<uint8_t> encode(const ModDef &d) {
  O o = {0, 'a', 's', 'm', 1, 0, 0, 0};
  ConstEnc ce{d, d.cx};
  g_pad = d.pad; g_custom = d.custom;
  if (d.pad) hit(P_PAD);
  { O b; u(b, d.types->size());
    for (auto &t : *d.types) { b.push_back(0x60); u(b, t.p.size()); b.insert(b.end(), t.p.begin(), t.p.end()); u(b, t.r.size()); b.insert(b.end(), t.r.begin(), t.r.end()); }
    sect(o, 1, b); }
  if (!d.imps.empty()) {
    O b; u(b, d.imps.size());
    for (auto &i : d.imps) {
      str(b, i.mod); str(b, i.field); b.push_back(i.kind);
      switch (i.kind) {
        case 0: u(b, i.type); break;
        case 1: b.push_back(0x70); limits(b, i.min, i.hasmax, i.max); break;
        case 2: limits(b, i.min, i.hasmax, i.max); break;
        case 3: b.push_back(i.gt); b.push_back(i.mut); break;
      }
    }
    sect(o, 2, b);
  }
  bool nocode = d.fn.empty() && !(d.cx & 1);       // then the sections may be left out
  if (nocode) hit(P_NOCODE);
  if (!nocode) { O b; u(b, d.fn.size()); for (auto &f : d.fn) u(b, f.type); sect(o, 3, b); }
  { O b; uint32_t n = 0; for (auto &t : d.tabs) if (!t.imported) { n++; b.push_back(0x70); limits(b, t.size, t.hasmax, t.max); }
    if (n) { O c; u(c, n); c.insert(c.end(), b.begin(), b.end()); sect(o, 4, c); } }
  { O b; uint32_t n = 0; for (auto &t : d.mems) if (!t.imported) { n++; limits(b, t.initial, t.hasmax, t.max); }
    if (n) { O c; u(c, n); c.insert(c.end(), b.begin(), b.end()); sect(o, 5, c); } }
  { O b; uint32_t n = 0;
    for (auto &g : d.globs) if (!g.imported) {
      n++; b.push_back(g.t); b.push_back(g.mut);
      switch (g.initk) { case 0: ce.put(b, g.t, g.init, -1); break; case 1: ce.put(b, g.t, 0, g.init); break; case 2: b.push_back(0xd2); u(b, g.init); break; default: konst(b, g.t, 0); }
      b.push_back(0xb);
    }
    if (n) { O c; u(c, n); c.insert(c.end(), b.begin(), b.end()); sect(o, 6, c); } }
  { O b; uint32_t n = 0;
    auto ex = [&](const std::string &s, int k, uint32_t i) { n++; str(b, s); b.push_back(k); u(b, i); };
    for (size_t i = 0; i < d.ftype.size(); i++) ex("f" + std::to_string(i), 0, i);
    for (size_t i = 0; i < d.tabs.size(); i++) ex("t" + std::to_string(i), 1, i);
    for (size_t i = 0; i < d.mems.size(); i++) ex("m" + std::to_string(i), 2, d.mx(i));
    for (size_t i = 0; i < d.globs.size(); i++) ex("g" + std::to_string(i), 3, i);
    for (auto &e : d.extra_exports) ex(e.first, e.second.first, e.second.first == 2 ? d.mx(e.second.second) : e.second.second);
    O c; u(c, n); c.insert(c.end(), b.begin(), b.end()); sect(o, 7, c); }
  if (d.start >= 0) { O b; u(b, d.start); sect(o, 8, b); }
  if (!d.elems.empty()) {
    O b; u(b, d.elems.size());
    for (auto &e : d.elems) {
      u(b, e.flags);
      if (e.flags & 2 && !(e.flags & 1)) u(b, e.table);
      if (!(e.flags & 1)) { ce.put(b, I32, e.offset, e.offset_global); b.push_back(0xb); }
      if (e.flags & 3) b.push_back(e.flags & 4 ? 0x70 : 0);
      u(b, e.f.size());
      for (uint32_t f : e.f) {
        if (e.flags & 4) { if (f == 0xffffffff) konst(b, FREF, 0); else { b.push_back(0xd2); u(b, f); } b.push_back(0xb); }
        else u(b, f);
      }
    }
    sect(o, 9, b);
  }
  if (!nocode) { O b; u(b, d.fn.size());
    for (auto &f : d.fn) {
      O code, c;
      Enc e{d, code, (uint32_t)f.locals.size()};
      e.body(f.body);
      for (auto &r : f.res) e.ex(*r);
      size_t np = (*d.types)[f.type].p.size();
      std::vector<std::pair<uint32_t, T>> g;
      for (size_t i = np; i < f.locals.size(); i++) { if (!g.empty() && g.back().second == f.locals[i]) g.back().first++; else g.push_back({1, f.locals[i]}); }
      if (e.fadd) { g.push_back({1, F32}); g.push_back({1, F64}); }
      u(c, g.size()); for (auto &x : g) { u(c, x.first); c.push_back(x.second); }
      c.insert(c.end(), code.begin(), code.end());
      c.push_back(0xb);
      u(b, c.size()); b.insert(b.end(), c.begin(), c.end());
    }
    sect(o, 10, b); }
  if (!d.datas.empty()) {
    O b; u(b, d.datas.size());
    for (auto &x : d.datas) {
      if (x.passive) { b.push_back(1); } else {
        if (d.mx(x.mem)) { b.push_back(2); u(b, d.mx(x.mem)); } else b.push_back(0);
        ce.put(b, I32, x.offset, x.offset_global);
        b.push_back(0xb);
      }
      u(b, x.bytes.size()); b.insert(b.end(), x.bytes.begin(), x.bytes.end());
    }
    sect(o, 11, b);
  }
  custom(o);
  return o;
}

// ---- reference interpreter ------------------------------------------------------
struct Fr { RMod *m; std::vector<uint64_t> L; };
struct Ctx {
  Inv *inv;
  std::vector<uint64_t> ret; RFunc *tf = nullptr;
  const Stmt *target = nullptr;
};
enum Sig { NEXT, BRK, CNT, RETN, TAIL };
struct Esc { Sig g; };                    // leaves an expression
static uint64_t ev(Ctx &c, Fr &f, const Expr &e);
static Sig run(Ctx &c, Fr &f, const Body &b);
static const int P_REFC = probe_kind("reference into a memory used"), P_NATIVE = probe_kind("native memory used");
static uint64_t g_steps;
static void stepc() { if (++g_steps > 1500000) truncated(); }
void interp_reset_steps() { g_steps = 0; }
static float f32(uint64_t v) { uint32_t x = v; float f; memcpy(&f, &x, 4); return f; }
static double f64(uint64_t v) { double f; memcpy(&f, &v, 8); return f; }
static uint64_t uf(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static uint64_t ud(double f) { uint64_t x; memcpy(&x, &f, 8); return x; }
uint64_t num_op(uint8_t op, uint64_t x, uint64_t y) {
  uint32_t a = x, b = y; int32_t sa = x, sb = y; int64_t la = x, lb = y;
  switch (op) {
    case 0x45: return a == 0;
    case 0x46: return a == b; case 0x47: return a != b; case 0x48: return sa < sb; case 0x49: return a < b;
    case 0x4a: return sa > sb; case 0x4b: return a > b; case 0x4c: return sa <= sb; case 0x4d: return a <= b; case 0x4e: return sa >= sb; case 0x4f: return a >= b;
    case 0x51: return x == y; case 0x52: return x != y; case 0x53: return la < lb; case 0x54: return x < y;
    case 0x55: return la > lb; case 0x56: return x > y; case 0x57: return la <= lb; case 0x58: return x <= y; case 0x59: return la >= lb; case 0x5a: return x >= y;
    case 0x6a: return (uint32_t)(a + b); case 0x6b: return (uint32_t)(a - b); case 0x6c: return (uint32_t)(a * b);
    case 0x71: return a & b; case 0x72: return a | b; case 0x73: return a ^ b;
    case 0x74: return (uint32_t)(a << (b & 31)); case 0x75: return (uint32_t)(sa >> (b & 31)); case 0x76: return a >> (b & 31);
    case 0x7c: return x + y; case 0x7d: return x - y; case 0x7e: return x * y; case 0x83: return x & y; case 0x84: return x | y; case 0x85: return x ^ y;
    case 0xa7: return a; case 0xac: return (uint64_t)(int64_t)sa; case 0xad: return a;
    case 0xb2: return uf((float)sa); case 0xb7: return ud((double)sa);
    case 0xbc: case 0xbe: return a; case 0xbd: case 0xbf: return x;
    // everything that is not in the short list the other generators need
    case 0x67: return (uint32_t)a ? __builtin_clz(a) : 32; case 0x68: return (uint32_t)a ? __builtin_ctz(a) : 32; case 0x69: return __builtin_popcount(a);
    case 0x6d: return (uint32_t)(sa / sb); case 0x6e: return a / b; case 0x6f: return (uint32_t)(sa % sb); case 0x70: return a % b;
    case 0x77: return (uint32_t)(b & 31 ? a << (b & 31) | a >> (32 - (b & 31)) : a); case 0x78: return (uint32_t)(b & 31 ? a >> (b & 31) | a << (32 - (b & 31)) : a);
    case 0x7f: return la / lb; case 0x80: return x / y; case 0x81: return la % lb; case 0x82: return x % y;
    case 0x86: return x << (y & 63); case 0x87: return la >> (y & 63); case 0x88: return x >> (y & 63);
    case 0x89: return y & 63 ? x << (y & 63) | x >> (64 - (y & 63)) : x; case 0x8a: return y & 63 ? x >> (y & 63) | x << (64 - (y & 63)) : x;
    case 0xc0: return (uint32_t)(int8_t)a; case 0xc1: return (uint32_t)(int16_t)a; case 0xc2: return (uint64_t)(int64_t)(int8_t)x;
    case 0x8b: return a & 0x7fffffffu; case 0x8c: return a ^ 0x80000000u; case 0x99: return x & ~(1ull << 63); case 0x9a: return x ^ 1ull << 63;
    case 0xa8: case 0xa9: return (uint32_t)(int32_t)f32(x); case 0xaa: case 0xab: return (uint32_t)(int32_t)f64(x);
    case 0xae: case 0xaf: return (uint64_t)(int64_t)f32(x); case 0xb0: case 0xb1: return (uint64_t)(int64_t)f64(x);
    case 0xb3: return uf((float)a); case 0xb4: return uf((float)la); case 0xb5: return uf((float)x);
    case 0xb8: return ud((double)a); case 0xb9: return ud((double)la); case 0xba: return ud((double)x);
  }
  if (op >= 0x5b && op <= 0x66) {
    double p = op <= 0x60 ? f32(x) : f64(x), q = op <= 0x60 ? f32(y) : f64(y);
    switch ((op - 0x5b) % 6) { case 0: return p == q; case 1: return p != q; case 2: return p < q; case 3: return p > q; case 4: return p <= q; default: return p >= q; }
  }
  if ((op >= 0x8d && op <= 0x97) || op == 0xb6) {
    float p = op == 0xb6 ? (float)f64(x) : f32(x), q = f32(y), z;
    switch (op) { case 0x8d: z = ceilf(p); break; case 0x8e: z = floorf(p); break; case 0x8f: z = truncf(p); break; case 0x90: z = rintf(p); break; case 0x91: z = sqrtf(p); break;
      case 0x92: z = p + q; break; case 0x93: z = p - q; break; case 0x94: z = p * q; break; case 0x95: z = p / q; break; case 0x96: z = p < q ? p : q; break; case 0x97: z = p > q ? p : q; break; default: z = p; }
    return z == z ? uf(z) : 0;
  }
  if ((op >= 0x9b && op <= 0xa5) || op == 0xbb) {
    double p = op == 0xbb ? (double)f32(x) : f64(x), q = f64(y), z;
    switch (op) { case 0x9b: z = ceil(p); break; case 0x9c: z = floor(p); break; case 0x9d: z = trunc(p); break; case 0x9e: z = rint(p); break; case 0x9f: z = sqrt(p); break;
      case 0xa0: z = p + q; break; case 0xa1: z = p - q; break; case 0xa2: z = p * q; break; case 0xa3: z = p / q; break; case 0xa4: z = p < q ? p : q; break; case 0xa5: z = p > q ? p : q; break; default: z = p; }
    return z == z ? ud(z) : 0;
  }
  harness_error("numeric opcode %x", op);
}
static RMem *mem_at(Fr &f, uint32_t i) { return f.m->mems[i]; }
static uint8_t *addr(RMem *m, uint64_t a, uint64_t n) { if (a + n > (uint64_t)m->pages * 65536) truncated(); return m->d.data() + a; }
static void call(Ctx &c, RFunc *f, std::vector<uint64_t> args, std::vector<uint64_t> &res);
static uint64_t ev(Ctx &c, Fr &f, const Expr &e);
static RFunc *table_fn(Fr &f, uint32_t t, uint32_t ix, uint32_t type) {
  RTab *tb = f.m->tabs[t];
  if (ix >= tb->e.size()) truncated();
  RFunc *x = tb->e[ix];
  if (!x || !(x->type == types[type])) truncated();
  if (fn_gone(x)) truncated();
  return x;
}
static void check_alive(RFunc *x) { if (fn_gone(x)) truncated(); }
static uint64_t load(RMem *m, uint8_t op, uint64_t a) {
  uint64_t v = 0;
  auto g = [&](int n) { memcpy(&v, addr(m, a, n), n); };
  switch (op) {
    case 0x28: g(4); return v; case 0x29: g(8); return v; case 0x2a: g(4); return v; case 0x2b: g(8); return v;
    case 0x2c: g(1); return (uint32_t)(int8_t)v; case 0x2d: g(1); return v; case 0x2e: g(2); return (uint32_t)(int16_t)v; case 0x2f: g(2); return v;
    case 0x30: g(1); return (uint64_t)(int64_t)(int8_t)v; case 0x31: g(1); return v; case 0x32: g(2); return (uint64_t)(int64_t)(int16_t)v; case 0x33: g(2); return v;
    case 0x34: g(4); return (uint64_t)(int64_t)(int32_t)v; case 0x35: g(4); return v;
  }
  harness_error("load opcode");
}
static int width(uint8_t op) { switch (op) { case 0x37: case 0x39: return 8; case 0x3a: case 0x3c: return 1; case 0x3b: case 0x3d: return 2; default: return 4; } }
static uint64_t ev(Ctx &c, Fr &f, const Expr &e) {
  stepc();
  switch (e.k) {
    case Expr::CONST: return e.t == I32 || e.t == F32 ? (uint32_t)e.c : e.c;
    case Expr::LGET: return f.L[e.a];
    case Expr::LTEE: return f.L[e.a] = ev(c, f, *e.kids[0]);
    case Expr::GGET: return f.m->globs[e.a]->v;
    case Expr::NUM: { uint64_t x = ev(c, f, *e.kids[0]), y = e.kids.size() > 1 ? ev(c, f, *e.kids[1]) : 0; return num_op(e.a, x, y); }
    case Expr::LOAD: { uint64_t a = (uint32_t)ev(c, f, *e.kids[0]); return load(mem_at(f, e.b), e.a, a + e.c); }
    case Expr::MSIZE: return mem_at(f, e.a)->pages;
    case Expr::MGROW: {
      uint32_t dlt = ev(c, f, *e.kids[0]);
      RMem *m = mem_at(f, e.a);
      uint64_t np = (uint64_t)m->pages + dlt;
      if (np > m->max || np > cfg.cap) return 0xffffffff;
      uint32_t old = m->pages;
      m->pages = np; m->d.resize(np * 65536, 0);
      if (dlt) c.inv->deferred++;
      hit(P_DEFER);
      return old;
    }
    case Expr::CALL: case Expr::CALLI: {
      std::vector<uint64_t> a;
      size_t n = e.k == Expr::CALLI ? e.kids.size() - 1 : e.kids.size();
      for (size_t i = 0; i < n; i++) a.push_back(ev(c, f, *e.kids[i]));
      RFunc *g;
      if (e.k == Expr::CALLI) { g = table_fn(f, e.a, ev(c, f, *e.kids[n]), e.b); hit(P_INDIRECT); } else { g = f.m->fn[e.a]; check_alive(g); }
      std::vector<uint64_t> r;
      call(c, g, a, r);
      if (e.c) hit(P_DIRECT);
      if (e.c & 256) return e.t == I32 ? (uint32_t)(r[0] + r[1]) : r[0] + r[1];
      return r.empty() ? 0 : r[0];
    }
    case Expr::SELECT: { uint64_t x = ev(c, f, *e.kids[0]), y = ev(c, f, *e.kids[1]); return (uint32_t)ev(c, f, *e.kids[2]) ? x : y; }
    case Expr::TGET: { uint32_t ix = ev(c, f, *e.kids[0]); RTab *t = f.m->tabs[e.a]; if (ix >= t->e.size()) truncated(); return (uint64_t)t->e[ix]; }
    case Expr::TSIZE: return f.m->tabs[e.a]->e.size();
    case Expr::RFUNC: return (uint64_t)f.m->fn[e.a];
    case Expr::RNULL: return 0;
    case Expr::BCONST: if (e.b) f.m->tabs[e.b - 1]->e.back() = f.m->fn[f.m->def->bi[e.a]]; return e.c;
    case Expr::TGROW: ev(c, f, *e.kids[0]); ev(c, f, *e.kids[1]); return 0xffffffff;
    case Expr::OPAQ: {
      uint64_t v = ev(c, f, *e.kids[0]);
      if (e.b & 1) f.m->tabs[e.a]->e.back() = f.m->fn[f.m->def->bi[B_FROMI64]];
      if (e.b & 2) f.m->tabs[e.a]->e.back() = f.m->fn[f.m->def->bi[B_I64FROM]];
      return v;
    }
    case Expr::ISNULL: return ev(c, f, *e.kids[0]) == 0;
    case Expr::SEQ: {
      uint64_t v = ev(c, f, *e.kids[0]);
      hit(P_SEQ);
      Sig g = run(c, f, e.body);
      if (g != NEXT) { hit(P_ESC); throw Esc{g}; }
      return v;
    }
    case Expr::BLKE: {
      if (e.a >= 6) { uint64_t v = ev(c, f, *e.kids[1]); return ev(c, f, *e.kids[0]) & 3 ? v : ev(c, f, *e.kids[2]); }
      if (e.a >= 4) return ev(c, f, *e.kids[0]);
      if (e.a == 2) return (uint32_t)ev(c, f, *e.kids[0]) ? ev(c, f, *e.kids[1]) : ev(c, f, *e.kids[2]);
      uint64_t v = ev(c, f, *e.kids[1]);
      return (uint32_t)ev(c, f, *e.kids[0]) ? v : ev(c, f, *e.kids[2]);
    }
    case Expr::IFE: return (uint32_t)ev(c, f, *e.kids[0]) ? ev(c, f, *e.kids[1]) : ev(c, f, *e.kids[2]);
  }
  return 0;
}
static Sig st1(Ctx &c, Fr &f, const Stmt &s) {
  stepc();
  switch (s.k) {
    case Stmt::RAW: harness_error("refused code runs");
    case Stmt::REFCOPY: {
      uint64_t d = (uint32_t)ev(c, f, *s.ex[0]); uint64_t x = (uint32_t)ev(c, f, *s.ex[1]), n = (uint32_t)ev(c, f, *s.ex[2]);
      memmove(addr(mem_at(f, s.a), d, n), addr(mem_at(f, s.b), x, n), n);
      hit(P_REFC);
      return NEXT;
    }
    case Stmt::STRLEN: {
      uint64_t a = (uint32_t)ev(c, f, *s.ex[0]);
      RMem *m = mem_at(f, s.a);
      uint64_t n = 0; while (*addr(m, a + n, 1)) n++;
      f.L[s.b] = n; hit(P_REFC);
      return NEXT;
    }
    case Stmt::NATIVE: f.L[s.b] = ev(c, f, *s.ex[0]); f.L[s.a] = 0; hit(P_NATIVE); return NEXT;
    case Stmt::BUILTIN: {
      uint64_t id = 0; while (sites[id] != &s) id++;
      Inv *inv = c.inv;
      inv->site = (Stmt *)&s; inv->hm = f.m;
      inv->host = nplain; inv->hargs = {id}; inv->st = Inv::HOST;
      co_suspend();
      for (int i = 0; i < 3; i++) f.L[s.regs[i]] = inv->hres[i];
      inv->host = nplain + 1; inv->hargs = {id}; inv->st = Inv::HOST;
      co_suspend();
      f.L[s.regs[3]] = inv->hres[0]; f.L[s.regs[4]] = inv->hres[1];
      return NEXT;
    }
    case Stmt::NOP: return NEXT;
    case Stmt::LSET: f.L[s.a] = ev(c, f, *s.ex[0]); return NEXT;
    case Stmt::GSET: f.m->globs[s.a]->v = ev(c, f, *s.ex[0]); return NEXT;
    case Stmt::STORE: {
      uint64_t a = (uint32_t)ev(c, f, *s.ex[0]), v = ev(c, f, *s.ex[1]);
      int n = width(s.a);
      memcpy(addr(mem_at(f, s.b), a + s.c, n), &v, n);
      return NEXT;
    }
    case Stmt::DROP: ev(c, f, *s.ex[0]); return NEXT;
    case Stmt::IF: {
      bool x = (uint32_t)ev(c, f, *s.ex[0]);
      Sig g = x ? run(c, f, s.bodies[0]) : s.bodies.size() > 1 ? run(c, f, s.bodies[1]) : NEXT;
      return g == BRK && c.target == &s ? NEXT : g;
    }
    case Stmt::LOOP:
      f.L[s.a] = s.b;
      for (;;) {
        Sig g = run(c, f, s.bodies[0]);
        if (g == BRK && c.target == &s) return NEXT;
        if (g == CNT && c.target == &s) { stepc(); continue; }
        if (g != NEXT) return g;
        f.L[s.a] = (uint32_t)(f.L[s.a] - 1);
        if (!f.L[s.a]) return NEXT;
        stepc();
      }
    case Stmt::BLOCK: { Sig g = run(c, f, s.bodies[0]); return g == BRK && c.target == &s ? NEXT : g; }
    case Stmt::BRIF: if ((uint32_t)ev(c, f, *s.ex[0])) { c.target = s.target; return BRK; } return NEXT;
    case Stmt::BR: c.target = s.target; return BRK;
    case Stmt::CONT: if (f.L[s.a] == 1) return NEXT; f.L[s.a]--; c.target = s.target; return CNT;
    case Stmt::SWITCH: {
      uint32_t i = ev(c, f, *s.ex[0]);
      if (i > s.bodies.size()) i = s.bodies.size();
      if (s.b >> i & 1) { c.ret.clear(); return RETN; }
      if (i == s.bodies.size()) return NEXT;
      Sig g = run(c, f, s.bodies[i]);
      return g == BRK && c.target == &s ? NEXT : g;
    }
    case Stmt::CALLM: {
      std::vector<uint64_t> a, r;
      size_t n = s.b ? s.ex.size() - 1 : s.ex.size();
      for (size_t i = 0; i < n; i++) a.push_back(ev(c, f, *s.ex[i]));
      RFunc *g;
      if (s.b) { g = table_fn(f, s.a, ev(c, f, *s.ex[n]), s.c); hit(P_INDIRECT); } else { g = f.m->fn[s.a]; check_alive(g); }
      call(c, g, a, r);
      for (size_t i = s.regs.size(); i-- > 0;) f.L[s.regs[i]] = r[i];
      if (r.size() > 1) hit(P_MULTI);
      return NEXT;
    }
    case Stmt::BRIFRET: {
      std::vector<uint64_t> r;
      for (auto &e : s.ex) r.push_back(ev(c, f, *e));
      bool t = (uint32_t)r.back();
      r.pop_back();
      if (!t) return NEXT;
      c.ret = r;
      return RETN;
    }
    case Stmt::RET: { std::vector<uint64_t> r; for (auto &e : s.ex) r.push_back(ev(c, f, *e)); c.ret = r; return RETN; }
    case Stmt::RCALL: case Stmt::RCALLI: {
      std::vector<uint64_t> a;
      size_t n = s.k == Stmt::RCALLI ? s.ex.size() - 1 : s.ex.size();
      for (size_t i = 0; i < n; i++) a.push_back(ev(c, f, *s.ex[i]));
      RFunc *g;
      if (s.k == Stmt::RCALLI) g = table_fn(f, s.a, ev(c, f, *s.ex[n]), s.c); else { g = f.m->fn[s.a]; check_alive(g); }
      c.tf = g; c.ret = a; hit(P_TAIL);
      return TAIL;
    }
    case Stmt::GROWI: {
      uint32_t dlt = ev(c, f, *s.ex[0]);
      f.L[s.b] = dlt;
      Inv *inv = c.inv;
      inv->host = 0; inv->hargs = {s.a, dlt}; inv->growmem = f.m->mems[s.a];
      inv->st = Inv::HOST;
      co_suspend();
      f.L[s.c] = inv->hres[0];
      return NEXT;
    }
    case Stmt::MCOPY: {
      uint64_t d = (uint32_t)ev(c, f, *s.ex[0]), x = (uint32_t)ev(c, f, *s.ex[1]), n = (uint32_t)ev(c, f, *s.ex[2]);
      memmove(addr(mem_at(f, s.a), d, n), addr(mem_at(f, s.b), x, n), n);
      return NEXT;
    }
    case Stmt::MFILL: {
      uint64_t d = (uint32_t)ev(c, f, *s.ex[0]), v = ev(c, f, *s.ex[1]), n = (uint32_t)ev(c, f, *s.ex[2]);
      memset(addr(mem_at(f, s.a), d, n), (int)(uint8_t)v, n);
      return NEXT;
    }
    case Stmt::TSET: {
      uint32_t ix = ev(c, f, *s.ex[0]); uint64_t v = ev(c, f, *s.ex[1]);
      RTab *t = f.m->tabs[s.a]; if (ix >= t->e.size()) truncated();
      t->e[ix] = (RFunc *)v; hit(P_TSET);
      return NEXT;
    }
    case Stmt::TCOPY: {
      uint64_t d = (uint32_t)ev(c, f, *s.ex[0]), x = (uint32_t)ev(c, f, *s.ex[1]), n = (uint32_t)ev(c, f, *s.ex[2]);
      RTab *a = f.m->tabs[s.a], *b = f.m->tabs[s.b];
      if (d + n > a->e.size() || x + n > b->e.size()) truncated();
      memmove(a->e.data() + d, b->e.data() + x, n * sizeof(RFunc *)); hit(P_TCOPY);
      return NEXT;
    }
    case Stmt::TFILL: {
      uint64_t d = (uint32_t)ev(c, f, *s.ex[0]), v = ev(c, f, *s.ex[1]), n = (uint32_t)ev(c, f, *s.ex[2]);
      RTab *a = f.m->tabs[s.a];
      if (d + n > a->e.size()) truncated();
      for (uint64_t i = 0; i < n; i++) a->e[d + i] = (RFunc *)v;
      hit(P_TFILL);
      return NEXT;
    }
  }
  return NEXT;
}
static Sig st(Ctx &c, Fr &f, const Stmt &s) { try { return st1(c, f, s); } catch (Esc &e) { return e.g; } }
static Sig run(Ctx &c, Fr &f, const Body &b) {
  for (auto &s : b) { Sig g = st(c, f, *s); if (g != NEXT) return g; }
  return NEXT;
}
static void call(Ctx &c, RFunc *fn, std::vector<uint64_t> args, std::vector<uint64_t> &res) {
  RMod *from = nullptr;
  for (;;) {
    stepc();
    if (fn->host >= 0) {
      Inv *inv = c.inv;
      inv->host = fn->host; inv->hargs = args; inv->hres.clear(); inv->st = Inv::HOST;
      co_suspend();
      res = inv->hres;
      return;
    }
    if (from && from != fn->m) hit(P_TAILX);
    from = fn->m;
    Fr f; f.m = fn->m;
    f.L = args; f.L.resize(fn->def->locals.size(), 0);
    f.m->active++;
    Sig g = run(c, f, fn->def->body);
    if (g == NEXT) try { std::vector<uint64_t> r; for (auto &e : fn->def->res) r.push_back(ev(c, f, *e)); c.ret = r; } catch (Esc &e) { g = e.g; }
    f.m->active--;
    if (g == TAIL) { fn = c.tf; args = c.ret; continue; }
    res = c.ret;
    return;
  }
}
void interp_main(Inv *inv) {
  Ctx c; c.inv = inv;
  std::vector<uint64_t> r;
  call(c, inv->f, inv->args, r);
  inv->res = r;
  inv->st = Inv::DONE;
}
}  // namespace w
