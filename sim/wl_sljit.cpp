// J01/J02: the low-level compiler library.  Random instruction sequences are kept as a list of
// steps (about one API call each); a small interpreter over the same steps says what the generated
// code has to compute.  Allocations are refused, the compilation is serialized, lost and restored
// between any two steps.
#include "redirect.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <vector>
#include <sys/mman.h>
extern "C" {
#include "sljitLir.h"
}
using namespace sim;
namespace {
typedef sljit_sw sw; typedef sljit_uw uw; typedef sljit_s32 s32; typedef sljit_u32 u32;
const int F_HEAP = fault_kind("allocation refused while code is emitted or generated");
const int F_ALL = fault_kind("every further allocation refused");
const int F_EXEC = fault_kind("executable memory refused");
const int F_USER = fault_kind("memory error set by the program");
const int F_SER = fault_kind("serialization refused memory");
const int F_DES = fault_kind("restore refused memory");
const int F_CRASH = fault_kind("process died between two emitted instructions");
const int F_TRUNC = fault_kind("truncated serialization restored");
const int F_KIND = fault_kind("serialization of another kind or version restored");
const int P_RUN = probe_kind("generated code executed");
const int P_RESTORED = probe_kind("compilation restored");
const int P_BIG = probe_kind("program above one instruction buffer");
const int P_CALL = probe_kind("C function called by generated code");
const int P_FCALL = probe_kind("generated function called by generated code");
const int P_FAST = probe_kind("fast call executed");
const int P_TAILC = probe_kind("tail call"), P_RETTO = probe_kind("return to an address"), P_EARLY = probe_kind("return from the middle of a function");
const int P_TABLE = probe_kind("jump table used");
const int P_PATCH = probe_kind("constant or jump changed after generation");
const int P_LATE = probe_kind("serialized with a flag pending or a jump without target");
const int P_VEC = probe_kind("vector instruction executed"), P_VEC256 = probe_kind("256-bit vector instruction executed"), P_VEXT = probe_kind("vector elements extended"), P_SELDEP = probe_kind("select from memory addressed by its destination");
const int P_MULTI = probe_kind("restored more than once");

const int BUFN = 1024, IEND = 704, FBEG = 768;       // [0,IEND) integers, [FBEG,BUFN) floating point only
const int NSLOT = 8;
uint8_t *const BUFS = (uint8_t *)0x123456780000ull;  // buffers of the fibers, one page each

// ------------------------------------------------------------------ program
enum OK : uint8_t { O_NONE, O_R, O_F, O_V, O_IMM, O_BUF, O_BUFX, O_LOC };
struct Opnd { OK k = O_NONE; uint8_t form = 0; int r = 0; int sh = 0; int tmp = 0; int64_t v = 0; int64_t delta = 0; };
Opnd oR(int r) { Opnd o; o.k = O_R; o.r = r; return o; }
Opnd oF(int r) { Opnd o; o.k = O_F; o.r = r; return o; }
Opnd oV(int r) { Opnd o; o.k = O_V; o.r = r; return o; }
Opnd oI(int64_t v) { Opnd o; o.k = O_IMM; o.v = v; return o; }
Opnd oB(int64_t off) { Opnd o; o.k = O_BUF; o.v = off; return o; }
Opnd oL(int64_t off) { Opnd o; o.k = O_LOC; o.v = off; return o; }
enum T : uint8_t {
  T_ENTER, T_CTX, T_OP0, T_OP1, T_OP2, T_OP2U, T_OP2R, T_SHI, T_FOP1, T_FOP2, T_FOP2R, T_FSET64, T_FSET32, T_FCOPY,
  T_LABEL, T_ALABEL, T_JUMP, T_SETLAB, T_CMP, T_FCMP, T_OP2CMPZ, T_OPFLAGS, T_SELECT, T_FSELECT, T_CONST,
  T_ADDR, T_IJUMP, T_FENTER, T_FRET, T_CALLC, T_ICALLC, T_CALLF, T_RET, T_RETV, T_HINT, T_PRES0, T_PRELOC, T_PAIR, T_EMEM, T_FMEM,
  T_ALOAD, T_ASTORE, T_VMOV, T_VOP2, T_VREPL, T_VLANE, T_VLREP, T_VSIGN, T_VEXT, T_CUSTOM, T_TABADDR, T_RETC, T_TAILF, T_RETTO
};
struct Step { T t; int op = 0; Opnd a[4]; int lab = -1, alt = -1, jmp = -1, x = 0, y = 0; int64_t v = 0; double d = 0; };
struct Fn { int opts = 0, args = 0, scr = 0, sav = 0, fl = 0, vec = 0, vw = 16, local = 0, entry = -1, elab = -1; bool reg = false, keep = false, isvoid = false, thrower = false; int n = 0; };      // thrower: its first argument is an address in the caller
struct Table { int lab; std::vector<int> to; std::vector<int> sizes; int align; };
struct Prog {
  std::vector<Step> s;
  int nlab = 0, njmp = 0, ncon = 0;
  std::vector<Fn> fn;
  std::vector<Table> tab;
  std::vector<int> labpos;                  // label -> step
  std::vector<int64_t> con;                 // current values of constants
  std::vector<int> conop;
  std::vector<uint8_t> alt;                 // rewritable jump goes to its alternative
  std::vector<int> jmpstep;
};

// ------------------------------------------------------------------ C functions called by the code
uint64_t *trace_of();
uint64_t fbits(double d) { if (d != d) return 0x7ff8dead; uint64_t u; memcpy(&u, &d, 8); return u; }
void tr(uint64_t *t, uint64_t v) { *t = mix64(*t ^ v) + 1; }
sw m_w3(uint64_t *t, sw a, sw b, sw c) { tr(t, 1); tr(t, a); tr(t, b); tr(t, c); return (sw)(a * 3ull + (uw)(b ^ c)); }
sw m_w3b(uint64_t *t, sw a, sw b, sw c) { tr(t, 2); tr(t, a); tr(t, b); tr(t, c); return (sw)((uw)a - (uw)b * 5 + (uw)c); }
double m_fd(uint64_t *t, double a, sw b) { tr(t, 3); tr(t, fbits(a)); tr(t, b); return a * 0.5 + (double)(int16_t)b; }
s32 m_w32(uint64_t *t, s32 a, s32 b) { tr(t, 4); tr(t, (u32)a); tr(t, (u32)b); return (s32)((u32)a * 7 - (u32)b); }
sw m_w4(uint64_t *t, sw a, sw b, sw c, sw d) { tr(t, 5); tr(t, a); tr(t, b); tr(t, c); tr(t, d); return (sw)((uw)a + 2 * (uw)b + 3 * (uw)c + 4 * (uw)d); }
void m_v(uint64_t *t) { tr(t, 6); }
float m_fs(uint64_t *t, float a) { tr(t, 7); tr(t, fbits(a)); return a + 1.5f; }
void in_call() { hit(P_CALL); yield_point("C function"); }
sw c_w3(sw a, sw b, sw c) { in_call(); return m_w3(trace_of(), a, b, c); }
sw c_w3b(sw a, sw b, sw c) { in_call(); return m_w3b(trace_of(), a, b, c); }
double c_fd(double a, sw b) { in_call(); return m_fd(trace_of(), a, b); }
s32 c_w32(s32 a, s32 b) { in_call(); return m_w32(trace_of(), a, b); }
sw c_w4(sw a, sw b, sw c, sw d) { in_call(); return m_w4(trace_of(), a, b, c, d); }
void c_v() { in_call(); m_v(trace_of()); }
float c_fs(float a) { in_call(); return m_fs(trace_of(), a); }
struct CF { void *p; int args; int nw, nf; char ret; };
const CF cfs[] = {
  {(void *)c_w3, SLJIT_ARGS3(W, W, W, W), 3, 0, 'w'}, {(void *)c_w3b, SLJIT_ARGS3(W, W, W, W), 3, 0, 'w'},
  {(void *)c_fd, SLJIT_ARGS2(F64, F64, W), 1, 1, 'd'}, {(void *)c_w32, SLJIT_ARGS2(32, 32, 32), 2, 0, 'i'},
  {(void *)c_w4, SLJIT_ARGS4(W, W, W, W, W), 4, 0, 'w'}, {(void *)c_v, SLJIT_ARGS0V(), 0, 0, 'v'}, {(void *)c_fs, SLJIT_ARGS1(F32, F32), 0, 2, 'f'}};
const int NCF = 7;

bool g_sse41, g_avx2, g_atomic;

// ------------------------------------------------------------------ generator
const int64_t INTS[] = {0, 1, -1, 2, 3, 5, 7, 8, 15, 31, 32, 63, 64, 100, 127, 128, 255, 256, -128, -129, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ll, 0xffffffffll, -0x80000000ll, -0x80000001ll, 0x100000000ll,
  0x123456789abcdefll, (int64_t)0x8000000000000000ull, 0x7fffffffffffffffll, -77, 1000003};
const double FLTS[] = {0.0, -0.0, 1.0, -1.0, 0.5, 3.25, -1234.5, 1e10, -1e-10, 65536.0, 2147483648.0, 1e100};
const int NINT = sizeof(INTS) / 8, NFLT = sizeof(FLTS) / 8;
struct Gen {
  Prog &p;
  Fn *f = nullptr;
  int budget, fdepth = 0, loops = 0;
  std::vector<int> pend_set;                // jumps whose label is set later: SETLAB steps to be placed
  struct Late { int jmp, lab; };
  std::vector<Late> late;
  struct Sub { int lab, level, form, reg; };      // form: 1 entered through a register, 2 left through one
  std::vector<Sub> subs;
  int sublevel = 0, nsubs = 0;
  int S0;
  Gen(Prog &p, int b) : p(p), budget(b) { S0 = SLJIT_S0; }
  Step &push(T t, int op = 0) { p.s.emplace_back(); p.s.back().t = t; p.s.back().op = op; budget--; return p.s.back(); }
  int64_t imm() { switch (draw(OP, 4)) { case 0: return INTS[draw(OP, NINT)]; case 1: return (int64_t)draw(OP, 64) - 16; case 2: return (int32_t)mix64(draw(OP, 1 << 20)); default: return (int64_t)mix64(draw(OP, 1 << 20)); } }
  int reg() { int n = f->scr + f->sav - 1; int i = draw(OP, n); return i < f->scr ? SLJIT_R(i) : SLJIT_S(i - f->scr + 1); }
  int regx(std::initializer_list<int> no) { for (int i = 0; i < 30; i++) { int r = reg(); if (std::find(no.begin(), no.end(), r) == no.end()) return r; } return -1; }
  int fr64() { return SLJIT_FR(draw(OP, 3)); }
  int fr32() { return SLJIT_FR(3 + draw(OP, 3)); }
  int vr() { return SLJIT_VR(7 + draw(OP, 3)); }
  static int vty(const Fn &g) { return g.vw == 32 ? SLJIT_SIMD_REG_256 : SLJIT_SIMD_REG_128; }
  int64_t locoff(int al = 8) {               // initialised words of the local area
    int64_t o = 64 + 8 * draw(OP, NSLOT);
    if (al < 8) o += al * draw(OP, 8 / al);
    if (f->local > 1024 && draw(OP, 2)) o += f->local - 64 - 64;
    return o;
  }
  int64_t bufoff(int sz) { int64_t o = draw(OP, (IEND - 8) / 8) * 8; if (sz < 8) o += sz * draw(OP, 8 / sz); else if (draw(OP, 8) == 7) o += draw(OP, 8); return o; }
  Opnd mem(int sz) {
    if (draw(OP, 3) == 2) return oL(locoff(sz));
    if (draw(OP, 4) == 3) { Opnd o; o.k = O_BUFX; o.r = reg(); o.sh = draw(OP, 4); return o; }
    return oB(bufoff(sz));
  }
  Opnd src(int sz = 8, bool im = true) { uint32_t k = draw(OP, 8); if (k < 4) return oR(reg()); if (k < 6 && im) return oI(imm()); return mem(sz); }
  Opnd dst(int sz = 8) { return draw(OP, 4) == 3 ? mem(sz) : oR(reg()); }
  std::vector<int> clean;
  void prep(std::initializer_list<Opnd *> os, std::initializer_list<int> extra = {}) {
    std::vector<int> used(extra);
    for (auto *o : os) if (o->k == O_R || o->k == O_BUFX) used.push_back(o->r);
    clean.clear();
    for (auto *o : os) if (o->k == O_BUFX) {
      bool done = false;
      for (auto *q : os) if (q < o && q->k == O_BUFX && q->r == o->r) { o->sh = q->sh; done = true; }
      if (done) continue;
      Step &s = push(T_OP2, SLJIT_AND); s.a[0] = s.a[1] = oR(o->r); s.a[2] = oI((511 >> o->sh));
    }
    for (auto *o : os) {
      if (o->k != O_BUF && o->k != O_LOC) continue;
      o->form = draw(OP, 6);
      if ((o->form == 1 || o->form == 2) && o->k == O_LOC) o->form = 0;
      if (o->form >= 4) o->form = 0;
      if (o->form < 2) continue;
      int t = -1;
      for (int i = 0; i < 12 && t < 0; i++) { int r = reg(); if (std::find(used.begin(), used.end(), r) == used.end()) t = r; }
      if (t < 0) { o->form = 0; continue; }
      used.push_back(t); clean.push_back(t);
      o->tmp = t;
      if (o->form == 2) {
        o->sh = 0;
        if (o->k == O_BUF) while (o->sh < 3 && !((o->v >> o->sh) & 1) && draw(OP, 2)) o->sh++;
        Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oR(t); s.a[1] = oI(o->v >> o->sh);
      } else {
        static const int64_t D[] = {0, 8, 127, -128, 128, 4096, 0x7ffffff0, -0x7ffffff0ll, 0x80000000ll, 0x123456789all, -0x123456789all};
        o->delta = D[draw(OP, 11)];
        if (o->k == O_BUF) { Step &s = push(T_PRES0); s.a[0] = oR(t); s.v = o->delta; }
        else { Step &s = push(T_PRELOC); s.a[0] = oR(t); s.v = o->v - o->delta; }
      }
    }
  }
  void tidy() { for (int t : clean) { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oR(t); s.a[1] = oI(imm()); } clean.clear(); }
  void fix(const Opnd &d) { if (d.k == O_R) { Step &s = push(T_OP1, draw(OP, 2) ? SLJIT_MOV_U32 : SLJIT_MOV_S32); s.a[0] = s.a[1] = oR(d.r); } }
  static int op1size(int op) {
    switch (op & ~SLJIT_32) { case SLJIT_MOV_U8: case SLJIT_MOV_S8: return 1; case SLJIT_MOV_U16: case SLJIT_MOV_S16: case SLJIT_REV_U16: case SLJIT_REV_S16: return 2;
      case SLJIT_MOV_U32: case SLJIT_MOV_S32: case SLJIT_MOV32: case SLJIT_REV_U32: case SLJIT_REV_S32: return 4; }
    return op & SLJIT_32 ? 4 : 8;
  }
  void st_mov() {
    static const int M[] = {SLJIT_MOV, SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16};
    int op = M[draw(OP, 14)], sz = op1size(op);
    Opnd d = dst(sz), a = src(sz);
    prep({&d, &a});
    Step &s = push(T_OP1, op); s.a[0] = d; s.a[1] = a;
    if (op & SLJIT_32 || op == SLJIT_MOV32) fix(d);
    tidy();
  }
  void st_unary() {
    static const int M[] = {SLJIT_CLZ, SLJIT_CLZ32, SLJIT_CTZ, SLJIT_CTZ32, SLJIT_REV, SLJIT_REV32, SLJIT_REV_U16, SLJIT_REV_S16, SLJIT_REV32_U16, SLJIT_REV32_S16, SLJIT_REV_U32, SLJIT_REV_S32};
    int op = M[draw(OP, 12)], sz = op1size(op);
    Opnd d = sz == 8 || (op & SLJIT_32 && sz == 4) ? dst(sz) : oR(reg()), a = src(sz, false);
    prep({&d, &a});
    Step &s = push(T_OP1, op); s.a[0] = d; s.a[1] = a;
    if (op & SLJIT_32) fix(d);
    tidy();
  }
  void shift_arg(int op, Opnd &b, bool w32) {
    int o = op & 0xff;
    if (o == SLJIT_SHL || o == SLJIT_LSHR || o == SLJIT_ASHR) {
      if (b.k != O_IMM && b.k != O_R) b = oI(imm());
      if (b.k == O_R) { Step &s = push(T_OP2, SLJIT_AND); s.a[0] = s.a[1] = b; s.a[2] = oI(w32 ? 31 : 63); }
    }
  }
  void st_op2() {
    static const int M[] = {SLJIT_ADD, SLJIT_SUB, SLJIT_ADD, SLJIT_SUB, SLJIT_MUL, SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR, SLJIT_ASHR, SLJIT_MASHR, SLJIT_ROTL, SLJIT_ROTR};
    int op = M[draw(OP, 16)]; bool w32 = draw(OP, 3) == 2;
    int sz = w32 ? 4 : 8;
    Opnd d = dst(sz), a = src(sz), b = src(sz);
    if (draw(OP, 3) == 0 && d.k == O_R) a = d;
    if (draw(OP, 6) == 0) b = d;
    shift_arg(op, b, w32);
    prep({&d, &a, &b});
    if (b.k == O_BUFX && a.k == O_BUFX && a.r == b.r) b.sh = a.sh;
    Step &s = push(T_OP2, op | (w32 ? SLJIT_32 : 0)); s.a[0] = d; s.a[1] = a; s.a[2] = b;
    if (w32) fix(d);
    tidy();
  }
  void st_muladd() {
    bool w32 = draw(OP, 3) == 2;
    Opnd d = oR(reg()), a = src(w32 ? 4 : 8), b = src(w32 ? 4 : 8);
    prep({&d, &a, &b});
    Step &s = push(T_OP2R, w32 ? SLJIT_MULADD32 : SLJIT_MULADD); s.a[0] = d; s.a[1] = a; s.a[2] = b;
    if (w32) fix(d);
    tidy();
  }
  void st_shi() {
    static const int M[] = {SLJIT_SHL, SLJIT_MSHL, SLJIT_LSHR, SLJIT_MLSHR};
    int op = M[draw(OP, 4)]; bool w32 = draw(OP, 3) == 2;
    int d = reg(), s1 = reg(), s2 = regx({d});
    if (s2 < 0) return;
    Opnd c = draw(OP, 2) ? oR(reg()) : oI(draw(OP, w32 ? 32 : 64));
    if (op == SLJIT_SHL || op == SLJIT_LSHR) c = oI(draw(OP, w32 ? 32 : 64));
    if (c.k == O_IMM && draw(OP, 4) == 0 && op != SLJIT_SHL && op != SLJIT_LSHR) c = mem(w32 ? 4 : 8);
    Opnd od = oR(d), o1 = oR(s1), o2 = oR(s2);
    prep({&od, &o1, &o2, &c});
    Step &s = push(T_SHI, op | (w32 ? SLJIT_32 : 0)); s.a[0] = od; s.a[1] = o1; s.a[2] = o2; s.a[3] = c;
    if (w32) fix(od);
    tidy();
  }
  void movr(int r, int64_t v) { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oR(r); s.a[1] = oI(v); }
  void st_op0() {
    if (f->scr < 2) return;
    static const int M[] = {SLJIT_LMUL_UW, SLJIT_LMUL_SW, SLJIT_DIVMOD_UW, SLJIT_DIVMOD_U32, SLJIT_DIVMOD_SW, SLJIT_DIVMOD_S32, SLJIT_DIV_UW, SLJIT_DIV_U32, SLJIT_DIV_SW, SLJIT_DIV_S32};
    int op = M[draw(OP, 10)];
    if (op != SLJIT_LMUL_UW && op != SLJIT_LMUL_SW) {
      bool sg = (op & ~SLJIT_32) == SLJIT_DIVMOD_SW || (op & ~SLJIT_32) == SLJIT_DIV_SW;
      if (sg) { Step &s = push(T_OP2, SLJIT_AND); s.a[0] = s.a[1] = oR(SLJIT_R1); s.a[2] = oI(draw(OP, 2) ? 0x7fffffff : 0xff); }
      Step &s = push(T_OP2, SLJIT_OR); s.a[0] = s.a[1] = oR(SLJIT_R1); s.a[2] = oI(1);
    }
    push(T_OP0, op);
    if (op & SLJIT_32) { fix(oR(SLJIT_R0)); fix(oR(SLJIT_R1)); }
  }
  // ---- flags
  int bare(int sz) { (void)sz; return 0; }
  Opnd simple_mem(int sz) { Opnd o = draw(OP, 2) ? oL(locoff(sz)) : oB(bufoff(sz)); o.form = o.k == O_BUF ? draw(OP, 2) : 0; return o; }
  Opnd simple_src(int sz) { uint32_t k = draw(OP, 6); return k < 3 ? oR(reg()) : k < 5 ? oI(imm()) : simple_mem(sz); }
  void neutral() {                            // instructions that do not touch flags
    while (draw(OP, 3) == 2) {
      switch (draw(OP, 4)) {
        case 0: movr(reg(), imm()); break;
        case 1: { Step &s = push(T_OP1, SLJIT_MOV_U8); s.a[0] = oR(reg()); s.a[1] = simple_mem(1); break; }
        case 2: { Step &s = push(T_OP1, SLJIT_MOV32); s.a[0] = simple_mem(4); s.a[1] = oR(reg()); break; }
        default: { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oR(reg()); s.a[1] = oR(reg()); break; }
      }
    }
  }
  struct FT { int var; bool z; };
  FT flag_op() {
    FT t{-1, false};
    if (draw(OP, 6) == 5) {
      bool w32 = draw(OP, 2);
      static const int C[] = {SLJIT_F_EQUAL, SLJIT_F_LESS, SLJIT_F_GREATER, SLJIT_UNORDERED, SLJIT_ORDERED_EQUAL, SLJIT_ORDERED_LESS, SLJIT_ORDERED_GREATER, SLJIT_UNORDERED_OR_EQUAL, SLJIT_UNORDERED_OR_LESS, SLJIT_UNORDERED_OR_GREATER};
      t.var = C[3 + draw(OP, 7)];
      Step &s = push(T_FOP1, (w32 ? SLJIT_CMP_F32 : SLJIT_CMP_F64) | SLJIT_SET(t.var));
      s.a[0] = fop(w32); s.a[1] = fop(w32);
      if (s.a[0].k != O_F) s.a[0] = oF(w32 ? fr32() : fr64());
      s.a[0].form = s.a[1].form = 0;
      return t;
    }
    static const int M[] = {SLJIT_SUB, SLJIT_SUB, SLJIT_SUB, SLJIT_ADD, SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_MUL, SLJIT_SHL, SLJIT_LSHR, SLJIT_ASHR};
    int op = M[draw(OP, 11)]; bool w32 = draw(OP, 3) == 2; int sz = w32 ? 4 : 8, fl = 0;
    static const int CS[] = {SLJIT_LESS, SLJIT_GREATER, SLJIT_SIG_LESS, SLJIT_SIG_GREATER, SLJIT_OVERFLOW, SLJIT_CARRY};
    if (op == SLJIT_SUB) { t.var = draw(OP, 8) == 7 ? -1 : CS[draw(OP, 6)]; t.z = t.var < 0 || draw(OP, 2); }
    else if (op == SLJIT_ADD) { t.var = draw(OP, 3) == 2 ? -1 : draw(OP, 2) ? SLJIT_OVERFLOW : SLJIT_CARRY; t.z = t.var < 0 || draw(OP, 2); }
    else if (op == SLJIT_MUL) t.var = SLJIT_OVERFLOW;
    else t.z = true;
    if (t.var >= 0) fl |= SLJIT_SET(t.var);
    if (t.z) fl |= SLJIT_SET_Z;
    bool u = op != SLJIT_MUL && draw(OP, 2);
    Opnd d = dst(sz), a = src(sz), b = src(sz);
    if (draw(OP, 3) == 0 && d.k == O_R) a = d;
    shift_arg(op, b, w32);
    if (u) prep({&a, &b}); else prep({&d, &a, &b});
    Step &s = push(u ? T_OP2U : T_OP2, op | (w32 ? SLJIT_32 : 0) | fl); s.a[0] = d; s.a[1] = a; s.a[2] = b;
    if (w32 && !u) fix(d);                   // moves leave the flags alone
    tidy();
    return t;
  }
  int cond(const FT &t) { if (t.var < 0 || (t.z && draw(OP, 2))) return draw(OP, 2); return t.var + draw(OP, 2); }
  // a carry can be used once by anything but op_flags
  void consume_value(FT &&t, bool last = true) { consume_value(t, last); }
  void consume_value(FT &t, bool last) {
    int c = cond(t);
    uint32_t how = draw(OP, 4);
    if (how >= 2 && (c & ~1) == SLJIT_CARRY && !last) how = 0;
    switch (how) {
      case 0: case 1: {
        static const int M[] = {SLJIT_MOV, SLJIT_MOV32};
        int op = M[draw(OP, 2)];
        Step &s = push(T_OPFLAGS, op); s.a[0] = draw(OP, 4) == 3 ? simple_mem(op == SLJIT_MOV ? 8 : 4) : oR(reg()); s.x = c;
        Opnd d = s.a[0];
        if (op == SLJIT_MOV32) fix(d);
        break; }
      case 2: {
        bool w32 = draw(OP, 2);
        Opnd d = oR(reg()), m = simple_src(w32 ? 4 : 8), e = oR(draw(OP, 2) ? d.r : reg());
        if (m.k == O_BUF && draw(OP, 2)) {       // the address needs a register, perhaps the destination
          int t = draw(OP, 2) && e.r != d.r ? d.r : regx({d.r, e.r});
          if (t >= 0) { m.form = 2; m.tmp = t; m.sh = 0; while (m.sh < 3 && !((m.v >> m.sh) & 1) && draw(OP, 2)) m.sh++; movr(t, m.v >> m.sh); if (t == d.r) hit(P_SELDEP); }
        }
        { Step &s = push(T_SELECT, c | (w32 ? SLJIT_32 : 0)); s.a[0] = d; s.a[1] = m; s.a[2] = e; }
        if (w32) fix(d);
        break; }
      default: {
        bool w32 = draw(OP, 2);
        Step &s = push(T_FSELECT, c | (w32 ? SLJIT_32 : 0)); s.a[0] = oF(w32 ? fr32() : fr64()); s.a[1] = fop(w32); s.a[1].form = 0; s.a[2] = oF(w32 ? fr32() : fr64());
        break; }
    }
  }
  void st_flags() {
    FT t = flag_op();
    neutral();
    int n = 1 + draw(OP, 2);
    for (int i = 0; i < n; i++) { consume_value(t, false); neutral(); }
    if (draw(OP, 3) == 0) {
      static const int M[] = {SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_AND32, SLJIT_OR32, SLJIT_XOR32};
      int op = M[draw(OP, 6)]; bool z = draw(OP, 2);
      Step &s = push(T_OPFLAGS, op | (z ? SLJIT_SET_Z : 0)); s.x = cond(t);
      s.a[0] = draw(OP, 4) == 3 ? simple_mem(op & SLJIT_32 ? 4 : 8) : oR(reg());
      Opnd d = s.a[0];
      if (op & SLJIT_32) fix(d);
      if (z) { neutral(); consume_value(FT{-1, true}); }
    }
  }
  void st_carry() {
    bool sub = draw(OP, 2), w32 = draw(OP, 3) == 2; int sz = w32 ? 4 : 8, w = w32 ? SLJIT_32 : 0;
    Opnd d = oR(reg()), a = src(sz), b = src(sz);
    prep({&d, &a, &b});
    // the flag has to be consumed at once: what has to be tidied up is tidied by plain moves
    { Step &s = push(T_OP2, (sub ? SLJIT_SUB : SLJIT_ADD) | w | SLJIT_SET_CARRY); s.a[0] = d; s.a[1] = a; s.a[2] = b; }
    if (w32) fix(d);
    tidy();
    int n = 1 + draw(OP, 3);
    for (int i = 0; i < n; i++) {
      Step &s = push(T_OP2, (sub ? SLJIT_SUBC : SLJIT_ADDC) | w | (i + 1 < n || draw(OP, 2) ? SLJIT_SET_CARRY : 0));
      s.a[0] = oR(reg()); s.a[1] = simple_src(sz); s.a[2] = simple_src(sz);
      bool c = s.op & SLJIT_SET(SLJIT_CARRY) ? true : false;
      Opnd dd = s.a[0];
      if (w32) fix(dd);
      if (i + 1 == n && c) consume_value(FT{SLJIT_CARRY, false});
    }
  }
  // ---- floating point
  Opnd fmemo(bool w32) { return oB(FBEG + (w32 ? 128 + 4 * draw(OP, 32) : 8 * draw(OP, 16))); }
  Opnd fop(bool w32) { return draw(OP, 3) == 2 ? fmemo(w32) : oF(w32 ? fr32() : fr64()); }
  void st_fset(int r, bool w32) {
    Step &s = push(w32 ? T_FSET32 : T_FSET64); s.a[0] = oF(r); s.d = FLTS[draw(OP, w32 ? NFLT - 1 : NFLT)];
  }
  void st_float() {
    bool w32 = draw(OP, 2); int w = w32 ? SLJIT_32 : 0;
    switch (draw(OP, 9)) {
      case 0: st_fset(w32 ? fr32() : fr64(), w32); break;
      case 1: { Opnd d = fop(w32), a = fop(w32); prep({&d, &a}); Step &s = push(T_FOP1, SLJIT_MOV_F64 | w); s.a[0] = d; s.a[1] = a; tidy(); break; }
      case 2: case 3: {
        static const int M[] = {SLJIT_ADD_F64, SLJIT_SUB_F64, SLJIT_MUL_F64, SLJIT_DIV_F64};
        Opnd d = fop(w32), a = fop(w32), b = fop(w32);
        prep({&d, &a, &b});
        Step &s = push(T_FOP2, M[draw(OP, 4)] | w); s.a[0] = d; s.a[1] = a; s.a[2] = b; tidy(); break; }
      case 4: { Opnd d = fop(w32), a = fop(w32); prep({&d, &a}); Step &s = push(T_FOP1, (draw(OP, 2) ? SLJIT_NEG_F64 : SLJIT_ABS_F64) | w); s.a[0] = d; s.a[1] = a; tidy(); break; }
      case 5: { Opnd d = fop(w32), a = fop(!w32); prep({&d, &a}); Step &s = push(T_FOP1, w32 ? SLJIT_CONV_F32_FROM_F64 : SLJIT_CONV_F64_FROM_F32); s.a[0] = d; s.a[1] = a; tidy(); break; }
      case 6: {
        static const int M[] = {SLJIT_CONV_F64_FROM_SW, SLJIT_CONV_F64_FROM_S32, SLJIT_CONV_F64_FROM_UW, SLJIT_CONV_F64_FROM_U32};
        int k = draw(OP, 4);
        Opnd d = fop(w32), a = src(k & 1 ? 4 : 8);
        prep({&d, &a});
        { Step &s = push(T_FOP1, M[k] | w); s.a[0] = d; s.a[1] = a; }
        tidy();
        break; }
      case 7: {                               // a small integer there and back
        int r = reg(), fr = w32 ? fr32() : fr64();
        { Step &s = push(T_FOP1, SLJIT_CONV_F64_FROM_S32 | w); s.a[0] = oF(fr); s.a[1] = simple_src(4); }
        { Step &s = push(T_FOP2, SLJIT_DIV_F64 | w); s.a[0] = oF(fr); s.a[1] = oF(fr); s.a[2] = fmemo(w32); Opnd c = s.a[2]; s.t = T_FOP1; s.op = SLJIT_MOV_F64 | w; s.a[0] = c; s.a[1] = oF(fr); }
        bool sx = draw(OP, 2);
        Opnd d = draw(OP, 4) == 3 ? simple_mem(sx ? 8 : 4) : oR(r);
        { Step &s = push(T_FOP1, (sx ? SLJIT_CONV_SW_FROM_F64 : SLJIT_CONV_S32_FROM_F64) | w); s.a[0] = d; s.a[1] = oF(fr); s.x = w32; }
        if (!sx) fix(d);
        if (draw(OP, 3) == 0) { Step &s = push(T_FCOPY, (w32 ? SLJIT_COPY32_FROM_F32 : SLJIT_COPY_FROM_F64)); s.a[0] = oF(fr); s.a[1] = oR(r); if (w32) fix(oR(r)); }
        break; }
      default: {
        int r = reg(), fr = w32 ? fr32() : fr64();
        if (draw(OP, 2)) { Step &s = push(T_FCOPY, w32 ? SLJIT_COPY32_TO_F32 : SLJIT_COPY_TO_F64); s.a[0] = oF(fr); movr(r, (int64_t)(fbits(1.0 + draw(OP, 50)))); std::swap(p.s[p.s.size() - 1], p.s[p.s.size() - 2]); p.s[p.s.size() - 1].a[1] = oR(r); }
        else {
          st_fset(fr, w32);
          int fd = w32 ? fr32() : fr64();
          Step &s = push(T_FOP2R, SLJIT_COPYSIGN_F64 | w); s.a[0] = oF(fd); s.a[1] = fop(w32); s.a[1].form = 0; s.a[2] = oF(fr);
        }
        break; }
    }
  }
  // ---- vectors
  void st_vec() {
    if (!f->vec) return;
    for (int n = 1 + draw(OP, 8); n > 0; n--) {
      st_vec1();
      if (draw(OP, 2)) { int o = draw(OP, IEND / 8 - 4) * 8; Step &s = push(T_VMOV, vty(*f) | SLJIT_SIMD_STORE); s.a[0] = oV(vr()); s.a[1] = oB(o); }
    }
  }
  void st_vec1() {
    const int W = f->vw, fl = draw(OP, 4) == 3;                     // elements of 32 or 64 bits may also be floating point ones
    int es = fl ? 2 + draw(OP, 2) : draw(OP, 4); int ty = vty(*f) | (es << 18) | (fl ? SLJIT_SIMD_FLOAT : 0);
    auto vmem = [&](int n, bool wr) { Opnd o = draw(OP, 3) ? oB(bufoff(8) & (wr ? -1 : ~7)) : oL(locoff()); if (o.k == O_LOC) o.v = std::min<int64_t>(o.v, 128 - n); else if (o.v + n > IEND) o.v = wr ? 32 : 16; return o; };
    // a floating point register's bits may be anything once a lane went there: it is read as an integer and set again
    auto fsettle = [&](int r) { if (draw(OP, 2)) { Step &s = push(T_FCOPY, r >= SLJIT_FR(3) ? SLJIT_COPY32_FROM_F32 : SLJIT_COPY_FROM_F64); s.a[0] = oF(r); int q = reg(); s.a[1] = oR(q); if (r >= SLJIT_FR(3)) fix(oR(q)); } st_fset(r, r >= SLJIT_FR(3)); };
    auto scal = [&]() { return draw(OP, 2) ? simple_mem(1 << es) : fl ? oF(es == 2 ? fr32() : fr64()) : oR(reg()); };
    switch (draw(OP, 9)) {
      case 0: { Step &s = push(T_VMOV, ty | SLJIT_SIMD_LOAD); s.a[0] = oV(vr()); s.a[1] = vmem(W, false); break; }
      case 1: { Step &s = push(T_VMOV, ty | SLJIT_SIMD_STORE); s.a[0] = oV(vr()); s.a[1] = vmem(W, true); break; }
      case 2: { Step &s = push(T_VMOV, ty | SLJIT_SIMD_LOAD); s.a[0] = oV(vr()); s.a[1] = oV(vr()); break; }
      case 3: if (W == 16 && draw(OP, 4) == 3) {    // bytes picked by index
        int x = vr();
        { Step &s = push(T_VREPL, vty(*f) | SLJIT_SIMD_ELEM_64); s.a[0] = oV(x); s.a[1] = oI(imm() & 0x0f0f0f0f0f0f0f0fll); }
        { Step &s = push(T_VOP2, vty(*f) | SLJIT_SIMD_OP2_SHUFFLE); s.a[0] = oV(vr()); s.a[1] = oV(vr()); s.a[2] = oV(x); if (s.a[1].r == x) s.a[1].r = x == SLJIT_VR(7) ? SLJIT_VR(8) : SLJIT_VR(7); }
        break; }
        { Step &s = push(T_VOP2, ty | (1 + draw(OP, 3))); s.a[0] = oV(vr()); s.a[1] = oV(vr()); s.a[2] = draw(OP, 3) == 2 ? vmem(W, true) : oV(vr()); break; }
      case 4: { Step &s = push(T_VREPL, ty); s.a[0] = oV(vr()); s.a[1] = draw(OP, 3) == 2 ? oI(fl || draw(OP, 2) ? 0 : imm()) : scal(); break; }
      case 5: {
        bool st = draw(OP, 2);
        int op = ty | (st ? SLJIT_SIMD_STORE : draw(OP, 2) ? SLJIT_SIMD_LANE_ZERO : 0);
        if (st && !fl && draw(OP, 2)) op |= SLJIT_SIMD_LANE_SIGNED;
        Opnd d = !st && !fl && draw(OP, 6) == 5 ? oI(imm()) : scal();
        bool w32 = st && !fl && es <= 2 && d.k == O_R && draw(OP, 3) == 2;
        { Step &s = push(T_VLANE, op | (w32 ? SLJIT_32 : 0)); s.a[0] = oV(vr()); s.x = draw(OP, W >> es); s.a[1] = d; }
        if (w32) fix(d);
        if (st && d.k == O_F) fsettle(d.r);
        break; }
      case 6: { Step &s = push(T_VLREP, ty); s.a[0] = oV(vr()); s.a[1] = oV(vr()); s.x = draw(OP, W >> es); break; }
      case 7: {
        int e2;
        if (fl) { es = 2; e2 = 3; } else { es = draw(OP, 3); e2 = es + 1 + draw(OP, 3 - es); }
        Step &s = push(T_VEXT, vty(*f) | (es << 18) | (e2 << 24) | (fl ? SLJIT_SIMD_FLOAT : draw(OP, 2) ? SLJIT_SIMD_EXTEND_SIGNED : 0));
        s.a[0] = oV(vr()); s.a[1] = draw(OP, 2) ? oV(vr()) : vmem(16, true); s.x = e2;
        break; }
      default: {
        Opnd d = draw(OP, 3) == 2 ? simple_mem(8) : oR(reg());
        bool w32 = d.k == O_R && draw(OP, 3) == 2;
        { Step &s = push(T_VSIGN, ty | (w32 ? SLJIT_32 : 0)); s.a[0] = oV(vr()); s.a[1] = d; }
        if (w32) fix(d);
      }
    }
  }
  // ---- memory
  void st_mem() {
    switch (draw(OP, 4)) {
      case 0: {
        int a = reg(), b = regx({a});
        if (b < 0) return;
        Step &s = push(T_PAIR, SLJIT_MOV | (draw(OP, 2) ? SLJIT_MEM_STORE : 0) | (draw(OP, 2) ? SLJIT_MEM_UNALIGNED : 0));
        s.x = a; s.y = b; s.a[0] = draw(OP, 3) == 2 ? oL(64 + 8 * draw(OP, NSLOT - 1)) : oB(draw(OP, IEND / 8 - 2) * 8 + (s.op & SLJIT_MEM_UNALIGNED ? draw(OP, 8) : 0));
        s.a[0].form = 0;
        if (draw(OP, 2)) {                     // with a base or an index in another register, which a load may overwrite
          int op = s.op; Opnd o = s.a[0];
          p.s.pop_back(); budget++;
          int t = op & SLJIT_MEM_STORE || draw(OP, 2) ? regx({a, b}) : draw(OP, 2) ? a : b;
          if (t < 0) return;
          o.form = o.k == O_BUF ? 2 + draw(OP, 2) : 3; o.tmp = t;
          if (o.form == 2) { o.sh = 0; while (o.sh < 3 && !((o.v >> o.sh) & 1) && draw(OP, 2)) o.sh++; movr(t, o.v >> o.sh); }
          else {
            static const int64_t D[] = {0, 8, 127, -128, 128, 120, 0x7ffffff8, 0x7ffffff0, -0x7ffffff0ll, 0x80000000ll, 0x123456789all, -0x123456789all};
            o.delta = D[draw(OP, 12)];
            if (o.k == O_BUF) { o.delta -= o.v * draw(OP, 2); Step &q = push(T_PRES0); q.a[0] = oR(t); q.v = o.delta; }
            else { Step &q = push(T_PRELOC); q.a[0] = oR(t); q.v = o.v - o.delta; }
          }
          Step &q = push(T_PAIR, op); q.x = a; q.y = b; q.a[0] = o;
          if (t != a && t != b) movr(t, imm());
        }
        break; }
      case 1: {
        static const int M[] = {SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32};
        Step &s = push(T_EMEM, M[draw(OP, 7)] | (draw(OP, 2) ? SLJIT_MEM_STORE : 0) | SLJIT_MEM_UNALIGNED);
        s.a[0] = oR(reg()); s.a[1] = oB(draw(OP, IEND - 8));
        break; }
      case 2: {
        bool w32 = draw(OP, 2);
        Step &s = push(T_FMEM, (w32 ? SLJIT_MOV_F32 : SLJIT_MOV_F64) | (draw(OP, 2) ? SLJIT_MEM_STORE : 0) | SLJIT_MEM_UNALIGNED);
        s.a[0] = oF(w32 ? fr32() : fr64()); s.a[1] = fmemo(w32);
        break; }
      default: {
        if (!g_atomic) return;
        static const int M[] = {SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_U16, SLJIT_MOV_U32, SLJIT_MOV32};
        int op = M[draw(OP, 5)], m = reg(), t = regx({m}), n = regx({m, t});
        if (t < 0 || n < 0) return;
        int sz = op1size(op);
        int64_t off = draw(OP, IEND / 8) * 8 + sz * draw(OP, 8 / sz);
        { Step &s = push(T_PRES0); s.a[0] = oR(m); s.v = -off; }
        { Step &s = push(T_ALOAD, op); s.a[0] = oR(t); s.x = m; s.v = off; }
        { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oR(n); s.a[1] = oR(t); }
        { Step &s = push(T_OP2, SLJIT_ADD); s.a[0] = s.a[1] = oR(n); s.a[2] = oI(1 + draw(OP, 100)); }
        bool fl = draw(OP, 2);
        { Step &s = push(T_ASTORE, op | (fl ? SLJIT_SET_ATOMIC_STORED : 0)); s.a[0] = oR(n); s.x = m; s.y = t; s.v = off; }
        movr(m, imm()); movr(t, imm()); movr(n, imm());
        if (fl) consume_value(FT{SLJIT_ATOMIC_STORED, false});
        break; }
    }
  }
  // ---- control
  int newlab() { p.labpos.push_back(-1); return p.nlab++; }
  void label(int l) {
    if (draw(OP, 8) == 7) { Step &s = push(T_ALABEL); s.lab = l; s.x = draw(OP, 5); s.y = -1; }
    else { Step &s = push(T_LABEL); s.lab = l; }
    p.labpos[l] = (int)p.s.size() - 1;
    while (draw(OP, 10) == 9) { int e = newlab(); Step &s = push(T_LABEL); s.lab = e; p.labpos[e] = (int)p.s.size() - 1; }   // often the same label again
  }
  int newjmp() { p.alt.push_back(0); p.jmpstep.push_back((int)p.s.size() - 1); return p.njmp++; }
  void attach(Step &s, int lab) { s.lab = lab; s.jmp = newjmp(); }
  // where a forward jump gets its label: usually right after the label is emitted, sometimes much later
  void settle(int jmp, int lab) { if (draw(OP, 4) == 3) late.push_back({jmp, lab}); else { Step &s = push(T_SETLAB); s.jmp = jmp; s.lab = lab; } }
  void flush_late(bool all) { while (!late.empty() && (all || draw(OP, 6) == 5)) { Step &s = push(T_SETLAB); s.jmp = late.back().jmp; s.lab = late.back().lab; late.pop_back(); } }
  int cond_jump(int lab) {                     // returns the jump
    switch (draw(OP, 5)) {
      case 0: case 1: { FT t = flag_op(); neutral(); if (draw(OP, 3) == 2) consume_value(t, false); int c = cond(t); Step &s = push(T_JUMP, c); attach(s, lab); return s.jmp; }
      case 2: {
        bool w32 = draw(OP, 3) == 2; int sz = w32 ? 4 : 8;
        Opnd a = src(sz), b = src(sz);
        if (a.k == O_IMM && b.k == O_IMM) a = oR(reg());
        prep({&a, &b});
        std::vector<int> cl; cl.swap(clean);
        Step &s = push(T_CMP, (int)draw(OP, 10) | (w32 ? SLJIT_32 : 0)); s.a[0] = a; s.a[1] = b; attach(s, lab);
        int j = s.jmp; (void)cl;
        // temporaries hold addresses on both paths: overwritten at both ends by the caller
        dirty.insert(dirty.end(), cl.begin(), cl.end());
        return j; }
      case 3: {
        bool w32 = draw(OP, 2);
        static const int C[] = {SLJIT_UNORDERED, SLJIT_ORDERED, SLJIT_ORDERED_EQUAL, SLJIT_UNORDERED_OR_NOT_EQUAL, SLJIT_ORDERED_LESS, SLJIT_UNORDERED_OR_GREATER_EQUAL, SLJIT_ORDERED_GREATER, SLJIT_UNORDERED_OR_LESS_EQUAL, SLJIT_UNORDERED_OR_EQUAL, SLJIT_ORDERED_NOT_EQUAL, SLJIT_UNORDERED_OR_LESS, SLJIT_ORDERED_GREATER_EQUAL, SLJIT_UNORDERED_OR_GREATER, SLJIT_ORDERED_LESS_EQUAL};
        Step &s = push(T_FCMP, C[draw(OP, 14)] | (w32 ? SLJIT_32 : 0)); s.a[0] = fop(w32); s.a[1] = fop(w32); s.a[0].form = s.a[1].form = 0; attach(s, lab); return s.jmp; }
      default: {
        bool w32 = draw(OP, 3) == 2; int sz = w32 ? 4 : 8;
        static const int M[] = {SLJIT_ADD, SLJIT_SUB, SLJIT_AND, SLJIT_OR, SLJIT_XOR};
        Step &s = push(T_OP2CMPZ, M[draw(OP, 5)] | (w32 ? SLJIT_32 : 0) | (draw(OP, 2) ? SLJIT_JUMP_IF_ZERO : 0)); s.a[0] = simple_mem(sz); s.a[1] = simple_src(sz); s.a[2] = simple_src(sz); attach(s, lab);
        if (!w32 && draw(OP, 2)) s.a[0] = oR(reg());
        return s.jmp; }
    }
  }
  std::vector<int> dirty;
  void scrub() { std::vector<int> d; d.swap(dirty); for (int r : d) movr(r, imm()); }
  void rescrub(const std::vector<int> &d) { for (int r : d) movr(r, imm()); }
  void st_if(int depth) {
    bool has_else = draw(OP, 2);
    int le = newlab(), lend = has_else ? newlab() : -1;
    dirty.clear();
    int j = cond_jump(le);
    std::vector<int> d; d.swap(dirty);
    rescrub(d);
    block(depth + 1, 1 + draw(OP, 4));
    int j2 = -1;
    if (has_else) { Step &s = push(T_JUMP, SLJIT_JUMP); attach(s, lend); j2 = s.jmp; }
    label(le); settle(j, le);
    rescrub(d);
    if (has_else) { block(depth + 1, 1 + draw(OP, 3)); label(lend); settle(j2, lend); }
  }
  void st_loop(int depth) {
    if (loops >= 2) return;
    int slot = 16 + 8 * loops;
    loops++;
    { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oL(slot); s.a[1] = oI(1 + draw(OP, 5)); }
    int l = newlab(), out = -1, oj = -1;
    label(l);
    block(depth + 1, 1 + draw(OP, 4));
    if (draw(OP, 4) == 3) { out = newlab(); dirty.clear(); oj = cond_jump(out); std::vector<int> d; d.swap(dirty); outd = d; rescrub(d); }
    std::vector<int> od = outd; outd.clear();
    if (draw(OP, 2)) {
      Step &s = push(T_OP2, SLJIT_SUB | SLJIT_SET_Z); s.a[0] = s.a[1] = oL(slot); s.a[2] = oI(1);
      neutral();
      Step &q = push(T_JUMP, SLJIT_NOT_ZERO); attach(q, l); int j = q.jmp; { Step &z = push(T_SETLAB); z.jmp = j; z.lab = l; }
    } else {
      Step &q = push(T_OP2CMPZ, SLJIT_SUB | SLJIT_JUMP_IF_NON_ZERO); q.a[0] = q.a[1] = oL(slot); q.a[2] = oI(1); attach(q, l); int j = q.jmp; { Step &z = push(T_SETLAB); z.jmp = j; z.lab = l; }
    }
    loops--;
    if (out >= 0) { label(out); settle(oj, out); rescrub(od); }
  }
  std::vector<int> outd;
  void st_rewrite(int depth) {
    int la = newlab(), lb = newlab(), lend = newlab();
    int j; { Step &s = push(T_JUMP, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP); attach(s, la); s.alt = lb; j = s.jmp; }
    label(la); settle(j, la);
    block(depth + 1, 1 + draw(OP, 2));
    int j2; { Step &s = push(T_JUMP, SLJIT_JUMP); attach(s, lend); j2 = s.jmp; }
    label(lb);
    block(depth + 1, 1 + draw(OP, 2));
    label(lend); settle(j2, lend);
  }
  void st_table(int depth) {
    int n = 1 << (1 + draw(OP, 2));
    Table t; t.lab = newlab(); t.align = draw(OP, 2) ? SLJIT_LABEL_ALIGN_W : SLJIT_LABEL_ALIGN_16;
    int a = reg(), b = regx({a});
    if (b < 0) return;
    std::vector<int> js;
    int lend = newlab();
    { Step &s = push(T_OP2, SLJIT_AND); s.a[0] = oR(b); s.a[1] = src(); if (s.a[1].k != O_R) s.a[1] = oR(reg()); s.a[2] = oI(n - 1); }
    { Step &s = push(T_TABADDR, SLJIT_MOV_ABS_ADDR); s.a[0] = oR(a); attach(s, t.lab); s.x = (int)p.tab.size(); js.push_back(s.jmp); }
    int mode = draw(OP, 2);
    if (mode) { Step &s = push(T_HINT, 100); s.x = a; s.y = b; }       // load the entry (address: not modelled)
    { Step &s = push(T_IJUMP, SLJIT_JUMP); s.x = (int)p.tab.size(); s.a[0] = oR(a); s.a[1] = oR(b); s.y = mode; }
    int ti = (int)p.tab.size();
    p.tab.push_back(t);
    std::vector<int> ends, tl;
    for (int i = 0; i < n; i++) {
      int l = newlab(); tl.push_back(l);
      label(l);
      movr(a, imm());
      block(depth + 1, 1 + draw(OP, 2));
      if (i + 1 < n) { Step &s = push(T_JUMP, SLJIT_JUMP); attach(s, lend); ends.push_back(s.jmp); }
    }
    label(lend);
    for (int j : ends) settle(j, lend);
    p.tab[ti].to = tl;
    pendtab.push_back({ti, js[0]});
  }
  struct PT { int tab, jmp; };
  std::vector<PT> pendtab;
  void emit_tables() {                         // read-only data after the end of a function
    for (auto &q : pendtab) {
      Table &t = p.tab[q.tab];
      int nb = draw(OP, 3);
      t.sizes.push_back((int)t.to.size() * 8);
      static const int Z[] = {1, 3, 8, 17, 100, 300};
      for (int i = 0; i < nb; i++) t.sizes.push_back(Z[draw(OP, 6)]);
      if (draw(FAULT, 150) == 149) t.sizes.push_back(70000);
      Step &s = push(T_ALABEL); s.lab = t.lab; s.x = t.align; s.y = q.tab;
      p.labpos[t.lab] = (int)p.s.size() - 1;
      Step &z = push(T_SETLAB); z.jmp = q.jmp; z.lab = t.lab;
    }
    pendtab.clear();
  }
  void st_addr(int depth) {                    // address of a label, jumped to
    int a = reg(), l = newlab();
    int j; { Step &s = push(T_ADDR, SLJIT_MOV_ADDR); s.a[0] = draw(OP, 3) == 2 ? oL(0) : oR(a); attach(s, l); j = s.jmp; }
    Opnd where = p.s.back().a[0];
    if (draw(OP, 2) && where.k == O_LOC) movr(reg(), imm());
    { Step &s = push(T_IJUMP, SLJIT_JUMP); s.x = -1; s.a[0] = where; s.lab = l; }
    block(depth + 1, 1 + draw(OP, 2));
    label(l); settle(j, l);
    if (where.k == O_R) movr(where.r, imm());
  }
  void st_fast(int depth) {
    if (sublevel >= 2) return;
    int l;
    std::vector<int> c;
    for (auto &s : subs) if (s.level == sublevel + 1) c.push_back(s.lab);
    if (!c.empty() && draw(OP, 2)) l = c[draw(OP, c.size())];
    else { if (nsubs >= 5) return; nsubs++; l = newlab(); int fm = draw(OP, 4); subs.push_back({l, sublevel + 1, fm, fm ? reg() : 0}); }
    Step &s = push(T_JUMP, SLJIT_FAST_CALL); attach(s, l); int j = s.jmp;
    if (p.labpos[l] >= 0) { Step &z = push(T_SETLAB); z.jmp = j; z.lab = l; } else fwd.push_back({j, l});
    for (auto &q : subs) if (q.lab == l && q.form & 2) movr(q.reg, imm());
  }
  std::vector<Late> fwd;
  void after_call(char ret) {
    for (int i = 0; i < f->scr; i++) if (i > 0 || ret == 'v' || ret == 'd' || ret == 'f') movr(SLJIT_R(i), imm());
    if (ret == 'i') fix(oR(SLJIT_R0));
    for (int i = 0; i < 6; i++) {
      if (i == 0 && ret == 'd') continue;
      st_fset(SLJIT_FR(i), i >= 3);
    }
    if (f->vec) for (int i = 0; i < 3; i++) { Step &s = push(T_VREPL, vty(*f) | SLJIT_SIMD_ELEM_32); s.a[0] = oV(SLJIT_VR(7 + i)); s.a[1] = oI(0); }
  }
  void st_callc() {
    int k = draw(OP, NCF); const CF &c = cfs[k];
    if (c.nw > f->scr) return;
    for (int i = 0; i < c.nw; i++) { Step &s = push(T_OP1, c.ret == 'i' ? SLJIT_MOV32 : SLJIT_MOV); s.a[0] = oR(SLJIT_R(i)); s.a[1] = draw(OP, 3) ? oR(reg()) : simple_src(c.ret == 'i' ? 4 : 8); }
    if (c.nf == 1) { Step &s = push(T_FOP1, SLJIT_MOV_F64); s.a[0] = oF(SLJIT_FR0); s.a[1] = oF(fr64()); }
    if (c.nf == 2) { Step &s = push(T_FOP1, SLJIT_MOV_F32); s.a[0] = oF(SLJIT_FR0); s.a[1] = oF(fr32()); }
    int m = draw(OP, 4);
    if (m == 0) { Step &s = push(T_ICALLC, SLJIT_CALL); s.x = k; s.y = c.args; s.a[0] = oI(0); }
    else if (m == 1 && f->scr > c.nw && c.nw < 4) {
      int r = SLJIT_R(c.nw);
      { Step &s = push(T_HINT, 101); s.x = r; s.y = k; }
      Step &s = push(T_ICALLC, SLJIT_CALL); s.x = k; s.y = c.args; s.a[0] = oR(r);
    } else {
      Step &s = push(T_CALLC, SLJIT_CALL | (k == 0 && draw(OP, 2) ? SLJIT_REWRITABLE_JUMP : 0)); s.x = k; s.y = c.args; s.jmp = newjmp(); s.alt = s.op & SLJIT_REWRITABLE_JUMP ? 1 : -1;
    }
    if (c.ret == 'f') { Step &s = push(T_FOP1, SLJIT_MOV_F32); s.a[0] = oB(FBEG + 128); s.a[1] = oF(SLJIT_FR0); }
    after_call(c.ret);
    if (c.ret == 'd') { Step &s = push(T_FOP1, SLJIT_MOV_F64); s.a[0] = oB(FBEG); s.a[1] = oF(SLJIT_FR0); }
  }
  void st_callf() {
    int me = (int)(f - &p.fn[0]);
    if (me + 1 >= (int)p.fn.size()) return;
    int k = me + 1 + draw(OP, p.fn.size() - me - 1);
    Fn &g = p.fn[k];
    if (f->scr < 3) return;
    // arguments: buffer pointer (unless kept in S0) and two words
    int base = g.keep ? 0 : 1;
    for (int i = 0; i < 2; i++) { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oR(SLJIT_R(base + i)); s.a[1] = simple_src(8); if (!i && s.a[1].k == O_R && s.a[1].r == SLJIT_R0) s.a[1] = oI(5); }
    int hl = -1, hj = -1;
    if (g.thrower) { hl = newlab(); Step &s = push(T_ADDR, SLJIT_MOV_ADDR); s.a[0] = oR(SLJIT_R(base)); attach(s, hl); hj = s.jmp; }
    if (base) { Step &s = push(T_PRES0); s.a[0] = oR(SLJIT_R0); s.v = 0; }
    Step &s = push(T_CALLF, g.reg ? SLJIT_CALL_REG_ARG : SLJIT_CALL); s.x = k; s.jmp = newjmp(); s.lab = g.elab; s.v = hl;
    s.y = g.keep ? SLJIT_ARGS2(W, W, W) : SLJIT_ARGS3(W, P, W, W);
    if (g.isvoid) s.y = (s.y & ~0xf) | SLJIT_ARG_TYPE_RET_VOID;
    int j = s.jmp;
    if (p.labpos[g.elab] >= 0) { Step &z = push(T_SETLAB); z.jmp = j; z.lab = g.elab; } else fwd.push_back({j, g.elab});
    after_call(g.isvoid ? 'v' : 'w');
    if (hl < 0) return;
    int le = newlab();
    if (draw(OP, 2)) { Step &z = push(T_OP2, SLJIT_ADD); z.a[0] = z.a[1] = oL(64); z.a[2] = oI(1 + draw(OP, 9)); }
    { Step &z = push(T_JUMP, SLJIT_JUMP); attach(z, le); j = z.jmp; }
    label(hl); settle(hj, hl);
    after_call('v');
    label(le); settle(j, le);
  }
  void st_const() {
    static const int M[] = {SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8, SLJIT_MOV32_U8};
    int op = M[draw(OP, 5)];
    Step &s = push(T_CONST, op);
    s.a[0] = draw(OP, 4) == 3 ? simple_mem(consize(op)) : oR(reg());
    s.x = p.ncon++;
    p.con.push_back(constval(op)); p.conop.push_back(op);
    Opnd d = s.a[0];
    if (op == SLJIT_MOV32 || op == SLJIT_MOV32_U8) fix(d);
  }
  static int consize(int op) { return op == SLJIT_MOV_S32 ? 8 : op1size(op); }   // stored as a whole word
  static int64_t constval(int op) {
    uint64_t v = mix64(draw(OP, 1 << 16)); if (draw(OP, 2)) v &= 0xfff;
    return op == SLJIT_MOV ? (int64_t)v : op == SLJIT_MOV_S32 ? (int64_t)(int32_t)v : op == SLJIT_MOV32 ? (int64_t)(int32_t)v : (int64_t)(v & 0xff);
  }
  void st_hint() { Step &s = push(T_HINT, draw(OP, 5)); if (s.op == 4) { s.t = T_CUSTOM; s.x = draw(OP, 3); } s.a[0] = simple_mem(8); }
  void hit_early() { hit(P_EARLY); }
  void stmt(int depth) {
    uint32_t k = draw(OP, 40);
    if (k < 6) { if (f->vec && draw(OP, 6) == 5) st_vec(); else st_mov(); }
    else if (k < 14) st_op2();
    else if (k < 16) st_unary();
    else if (k < 17) st_muladd();
    else if (k < 18) st_shi();
    else if (k < 19) st_op0();
    else if (k < 22) st_flags();
    else if (k < 23) st_carry();
    else if (k < 26) st_float();
    else if (k < 27) st_vec();
    else if (k < 29) st_mem();
    else if (k < 31) st_const();
    else if (k < 32) st_hint();
    else if (depth >= 4 || budget <= 0) st_op2();
    else if (k < 34) st_if(depth);
    else if (k < 35) st_loop(depth);
    else if (k < 36) st_rewrite(depth);
    else if (k < 37) { if (draw(OP, 2)) st_table(depth); else st_addr(depth); }
    else if (k < 38) { if (depth && draw(OP, 3) == 2) { ret(); hit_early(); } else st_fast(depth); }
    else if (k < 39) st_callc();
    else st_callf();
    flush_late(false);
  }
  void block(int depth, int n) { for (int i = 0; i < n && (budget > 0 || i == 0); i++) stmt(depth); }
  void body(int k) {
    f = &p.fn[k];
    Fn &g = *f;
    subs.clear(); nsubs = 0; sublevel = 0; loops = 0;
    if (k) { Step &s = push(T_LABEL); s.lab = g.elab; p.labpos[g.elab] = (int)p.s.size() - 1; }
    g.entry = (int)p.s.size();
    { Step &s = push(T_ENTER); s.x = k; }
    if (draw(OP, 5) == 4) { Step &s = push(T_CTX); s.x = k; }
    if (g.reg) {                               // arguments arrive in scratch registers
      int base = g.keep ? 0 : 1;
      if (!g.keep) { Step &s = push(T_PRES0); s.a[0] = oR(SLJIT_S0); s.v = 0; s.op = SLJIT_R0; }
      for (int i = 0; i < 2; i++) if (g.sav > 1 + i) { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oR(SLJIT_S(1 + i)); s.a[1] = oR(SLJIT_R(base + i)); }
    }
    if (g.thrower) { { Step &s = push(T_HINT, 102); s.a[0] = oL(8); s.a[1] = oR(SLJIT_S1); } movr(SLJIT_S1, imm()); }
    for (int i = 0; i < g.scr; i++) movr(SLJIT_R(i), imm());
    for (int i = 3; i < g.sav; i++) movr(SLJIT_S(i), imm());
    for (int i = 0; i < 6; i++) st_fset(SLJIT_FR(i), i >= 3);
    if (g.vec) for (int i = 0; i < 3; i++) { Step &s = push(T_VREPL, vty(g) | SLJIT_SIMD_ELEM_32); s.a[0] = oV(SLJIT_VR(7 + i)); s.a[1] = oI(0); }
    for (int i = 0; i < NSLOT; i++) { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oL(64 + 8 * i); s.a[1] = i & 1 ? oR(SLJIT_S1) : oI(imm()); }
    if (g.local > 1024) for (int i = 0; i < NSLOT; i++) { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oL(g.local - 64 + 8 * i); s.a[1] = oI(imm()); }
    while (budget > 0) stmt(0);
    ret();
    sublevel = 0;
    for (size_t i = 0; i < subs.size(); i++) {
      Sub q = subs[i];
      sublevel = q.level; loops = 2;           // counters of the callers stay untouched
      label(q.lab);
      Opnd slot = oL(32 + 8 * q.level);
      { Step &s = push(T_FENTER); s.a[0] = q.form & 1 ? oR(q.reg) : slot; s.v = slot.v; }
      if (q.form & 1) { Step &s = push(T_HINT, 102); s.a[0] = slot; s.a[1] = oR(q.reg); movr(q.reg, imm()); }
      budget = 4 + draw(OP, 12);
      block(2, 1 + draw(OP, 4));
      if (q.form & 2) { Step &s = push(T_HINT, 102); s.a[0] = oR(q.reg); s.a[1] = slot; }
      { Step &s = push(T_FRET); s.a[0] = q.form & 2 ? oR(q.reg) : slot; s.v = slot.v; }
    }
    for (auto &q : fwd) if (p.labpos[q.lab] >= 0) { Step &s = push(T_SETLAB); s.jmp = q.jmp; s.lab = q.lab; }
    fwd.erase(std::remove_if(fwd.begin(), fwd.end(), [&](Late &q) { return p.labpos[q.lab] >= 0; }), fwd.end());
    emit_tables();
    flush_late(false);
  }
  // the function ends with a call that returns to its caller
  bool tail() {
    int me = (int)(f - &p.fn[0]), m = draw(OP, 6);
    if (m < 3 || f->scr < 4) return false;
    if (m == 3) {
      if (f->reg) return false;
      static const int K[] = {0, 1, 4};
      int k = f->isvoid ? 5 : K[draw(OP, 3)]; const CF &c = cfs[k];
      for (int i = 0; i < c.nw; i++) { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oR(SLJIT_R(i)); s.a[1] = simple_src(8); }
      Opnd to;
      switch (draw(OP, 4)) {
        case 0: to = oI(0); break;
        case 1: { int r = reg(); for (int i = 0; i < c.nw; i++) if (r == SLJIT_R(i)) r = SLJIT_S1; to = oR(r); { Step &s = push(T_HINT, 101); s.x = r; s.y = k; } break; }
        case 2: to = oL(0); { Step &s = push(T_HINT, 103); s.a[0] = to; s.y = k; } break;
      }
      Step &s = push(T_RETC, SLJIT_CALL | SLJIT_CALL_RETURN); s.x = k; s.y = c.args; s.a[0] = to;
      if (to.k == O_NONE) s.jmp = newjmp();
      return true;
    }
    std::vector<int> c;
    for (int k = me + 1; k < (int)p.fn.size(); k++) if (p.fn[k].isvoid == f->isvoid && !p.fn[k].thrower && p.fn[k].reg == f->reg) c.push_back(k);
    if (c.empty()) return false;
    int k = c[draw(OP, c.size())];
    Fn &g = p.fn[k];
    int base = g.keep ? 0 : 1;
    for (int i = 0; i < 2; i++) { Step &s = push(T_OP1, SLJIT_MOV); s.a[0] = oR(SLJIT_R(base + i)); s.a[1] = simple_src(8); if (!i && s.a[1].k == O_R && s.a[1].r == SLJIT_R0) s.a[1] = oI(5); }
    if (base) { Step &s = push(T_PRES0); s.a[0] = oR(SLJIT_R0); s.v = 0; }
    Step &s = push(T_TAILF, (g.reg ? SLJIT_CALL_REG_ARG : SLJIT_CALL) | SLJIT_CALL_RETURN); s.x = k; s.jmp = newjmp(); s.lab = g.elab;
    s.y = g.keep ? SLJIT_ARGS2(W, W, W) : SLJIT_ARGS3(W, P, W, W);
    if (g.isvoid) s.y = (s.y & ~0xf) | SLJIT_ARG_TYPE_RET_VOID;
    fwd.push_back({s.jmp, g.elab});            // functions that come later
    return true;
  }
  void ret() {
    if (f->thrower && draw(OP, 2)) {           // not to where it was called from
      Opnd at = oL(8);
      if (draw(OP, 3)) { Step &s = push(T_HINT, 102); s.a[0] = oR(reg()); s.a[1] = at; at = s.a[0]; }
      Step &s = push(T_RETTO); s.a[0] = at;
      return;
    }
    if (tail()) return;
    if (f->isvoid) { push(T_RETV); return; }
    Step &s = push(T_RET, SLJIT_MOV);
    static const int M[] = {SLJIT_MOV, SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32};
    s.op = M[draw(OP, 8)];
    s.a[0] = simple_src(op1size(s.op));
  }
  void program() {
    int nf = 1 + (draw(OP, 3) == 2 ? 1 + draw(OP, 2) : 0);
    int total = budget;
    for (int k = 0; k < nf; k++) {
      Fn g;
      g.scr = 4 + draw(OP, 3); g.sav = 3 + draw(OP, 4);
      if (draw(OP, 5) == 4) { g.scr = 7 + draw(OP, 3); g.sav = std::min(g.sav, 12 - g.scr); if (g.sav < 3) g.sav = 3; }
      g.fl = 6 + draw(OP, 2); g.vec = g_sse41 && draw(OP, 2) ? 10 : 0;
      if (g.vec && draw(OP, 3) == 2 && g_avx2) g.vw = 32;
      if (draw(OP, 3) == 2) g.opts |= SLJIT_ENTER_USE_VEX;
      g.local = 128 + 8 * draw(OP, 20);
      if (draw(OP, 6) == 5) g.local = 1032 + 8 * draw(OP, 1500);
      g.args = SLJIT_ARGS3(W, P, W, W);
      if (k) {
        g.elab = newlab();
        g.reg = draw(OP, 2); g.isvoid = draw(OP, 4) == 3; g.thrower = draw(OP, 3) == 2;
        if (g.reg) { g.keep = draw(OP, 2); g.opts |= SLJIT_ENTER_REG_ARG | (g.keep ? SLJIT_ENTER_KEEP(1) : 0); g.args = g.keep ? SLJIT_ARGS2(W, W_R, W_R) : SLJIT_ARGS3(W, P_R, W_R, W_R); }
        if (g.isvoid) g.args = (g.args & ~0xf) | SLJIT_ARG_TYPE_RET_VOID;
      }
      p.fn.push_back(g);
    }
    for (int k = 0; k < nf; k++) { budget = k ? 10 + draw(OP, 40) : total; body(k); }
    flush_late(true);
    for (auto &q : fwd) harness_error("label %d never placed", q.lab);
  }
};

// ------------------------------------------------------------------ reference interpreter
struct Frame { int64_t R[16] = {}; uint64_t F[16] = {}; uint8_t V[16][32] = {}; std::vector<uint8_t> loc; int ret = -1, fn = 0, thr = -1; std::vector<int> fast = std::vector<int>(4, -1); int64_t jloc = -1; };
struct Interp {
  const Prog &p; uint8_t *buf; uint64_t trace = 0x1234; uint64_t fuel = 60000; bool out = false;
  std::vector<Frame> st;
  bool Z = false, V = false;
  Interp(const Prog &p, uint8_t *b) : p(p), buf(b) {}
  Frame &fr() { return st.back(); }
  int vw() { return p.fn[fr().fn].vw; }
  uint8_t *ptr(const Opnd &o, int n) {
    int64_t off; uint8_t *b; int64_t lim;
    if (o.k == O_BUF) { off = o.v; b = buf; lim = BUFN; }
    else if (o.k == O_BUFX) { off = fr().R[o.r] << o.sh; b = buf; lim = BUFN; }
    else { off = o.v; b = fr().loc.data(); lim = (int64_t)fr().loc.size(); }
    if (off < 0 || off + n > lim) harness_error("reference access out of range: kind %d off %lld", o.k, (long long)off);
    return b + off;
  }
  uint64_t ld(const Opnd &o, int n) {
    if (o.k == O_IMM) return (uint64_t)o.v;
    if (o.k == O_R) return (uint64_t)fr().R[o.r];
    if (o.k == O_F) return fr().F[o.r];
    uint64_t v = 0; memcpy(&v, ptr(o, n), n); return v;
  }
  void stv(const Opnd &o, uint64_t v, int n) { if (o.k == O_R) { fr().R[o.r] = (int64_t)v; return; } if (o.k == O_F) { fr().F[o.r] = v; return; } uint8_t *q = ptr(o, n); memcpy(q, &v, n); if (o.k != O_LOC) for (int i = 0; i < n; i++) wr[q - buf + i] = at; }
  double d(const Opnd &o) { uint64_t v = ld(o, 8); double x; memcpy(&x, &v, 8); return x; }
  float s(const Opnd &o) { uint32_t v = (uint32_t)ld(o, 4); float x; memcpy(&x, &v, 4); return x; }
  void sd(const Opnd &o, double x) { uint64_t v; memcpy(&v, &x, 8); stv(o, v, 8); }
  void ss(const Opnd &o, float x) { uint32_t v; memcpy(&v, &x, 4); stv(o, v, 4); }
  static bool fcond(int c, double a, double b) {
    bool un = a != a || b != b;
    switch (c) {
      case SLJIT_UNORDERED: return un; case SLJIT_ORDERED: return !un;
      case SLJIT_ORDERED_EQUAL: return !un && a == b; case SLJIT_UNORDERED_OR_NOT_EQUAL: return un || a != b;
      case SLJIT_ORDERED_LESS: return !un && a < b; case SLJIT_UNORDERED_OR_GREATER_EQUAL: return un || a >= b;
      case SLJIT_ORDERED_GREATER: return !un && a > b; case SLJIT_UNORDERED_OR_LESS_EQUAL: return un || a <= b;
      case SLJIT_UNORDERED_OR_EQUAL: return un || a == b; case SLJIT_ORDERED_NOT_EQUAL: return !un && a != b;
      case SLJIT_UNORDERED_OR_LESS: return un || a < b; case SLJIT_ORDERED_GREATER_EQUAL: return !un && a >= b;
      case SLJIT_UNORDERED_OR_GREATER: return un || a > b; case SLJIT_ORDERED_LESS_EQUAL: return !un && a <= b;
    }
    harness_error("float condition %d", c);
  }
  static bool icond(int c, uint64_t a, uint64_t b, bool w32) {
    if (w32) { a = (uint32_t)a; b = (uint32_t)b; }
    int64_t x = w32 ? (int32_t)a : (int64_t)a, y = w32 ? (int32_t)b : (int64_t)b;
    switch (c) {
      case SLJIT_EQUAL: return a == b; case SLJIT_NOT_EQUAL: return a != b; case SLJIT_LESS: return a < b; case SLJIT_GREATER_EQUAL: return a >= b;
      case SLJIT_GREATER: return a > b; case SLJIT_LESS_EQUAL: return a <= b; case SLJIT_SIG_LESS: return x < y; case SLJIT_SIG_GREATER_EQUAL: return x >= y;
      case SLJIT_SIG_GREATER: return x > y; case SLJIT_SIG_LESS_EQUAL: return x <= y;
    }
    harness_error("condition %d", c);
  }
  bool cond(int c) { if (c == SLJIT_ZERO) return Z; if (c == SLJIT_NOT_ZERO) return !Z; return c & 1 ? !V : V; }
  uint64_t op1(int op, uint64_t v) {
    switch (op) {
      case SLJIT_MOV: case SLJIT_MOV_P: case SLJIT_MOV32: return v;
      case SLJIT_MOV_U8: case SLJIT_MOV32_U8: return (uint8_t)v; case SLJIT_MOV_S8: case SLJIT_MOV32_S8: return (int64_t)(int8_t)v;
      case SLJIT_MOV_U16: case SLJIT_MOV32_U16: return (uint16_t)v; case SLJIT_MOV_S16: case SLJIT_MOV32_S16: return (int64_t)(int16_t)v;
      case SLJIT_MOV_U32: return (uint32_t)v; case SLJIT_MOV_S32: return (int64_t)(int32_t)v;
      case SLJIT_CLZ: return v ? __builtin_clzll(v) : 64; case SLJIT_CLZ32: return (uint32_t)v ? __builtin_clz((uint32_t)v) : 32;
      case SLJIT_CTZ: return v ? __builtin_ctzll(v) : 64; case SLJIT_CTZ32: return (uint32_t)v ? __builtin_ctz((uint32_t)v) : 32;
      case SLJIT_REV: return __builtin_bswap64(v); case SLJIT_REV32: return __builtin_bswap32((uint32_t)v);
      case SLJIT_REV_U16: case SLJIT_REV32_U16: return __builtin_bswap16((uint16_t)v); case SLJIT_REV_S16: case SLJIT_REV32_S16: return (int64_t)(int16_t)__builtin_bswap16((uint16_t)v);
      case SLJIT_REV_U32: return __builtin_bswap32((uint32_t)v); case SLJIT_REV_S32: return (int64_t)(int32_t)__builtin_bswap32((uint32_t)v);
    }
    harness_error("op1 %d", op);
  }
  uint64_t op2(int fop, uint64_t a, uint64_t b) {
    bool w32 = fop & SLJIT_32; int op = fop & 0xff, var = (fop >> 10) & 0x3f;
    int W = w32 ? 32 : 64; uint64_t M = w32 ? 0xffffffffull : ~0ull;
    a &= M; b &= M;
    int64_t x = w32 ? (int32_t)a : (int64_t)a, y = w32 ? (int32_t)b : (int64_t)b;
    uint64_t r = 0; bool ovf = false, cy = false; int sh = (int)(b & (W - 1));
    switch (op) {
      case SLJIT_ADD: r = (a + b) & M; cy = r < a; { int64_t z = w32 ? (int32_t)r : (int64_t)r; ovf = (x < 0) == (y < 0) && (z < 0) != (x < 0); } break;
      case SLJIT_ADDC: { uint64_t c = V; r = (a + b + c) & M; cy = c ? r <= a : r < a; break; }
      case SLJIT_SUB: r = (a - b) & M; cy = a < b; { int64_t z = w32 ? (int32_t)r : (int64_t)r; ovf = (x < 0) != (y < 0) && (z < 0) != (x < 0); } break;
      case SLJIT_SUBC: { uint64_t c = V; r = (a - b - c) & M; cy = c ? a <= b : a < b; break; }
      case SLJIT_MUL: { __int128 z = (__int128)x * y; r = (uint64_t)z & M; ovf = w32 ? z != (int32_t)z : z != (int64_t)z; break; }
      case SLJIT_AND: r = a & b; break; case SLJIT_OR: r = a | b; break; case SLJIT_XOR: r = a ^ b; break;
      case SLJIT_SHL: case SLJIT_MSHL: r = (a << sh) & M; break;
      case SLJIT_LSHR: case SLJIT_MLSHR: r = a >> sh; break;
      case SLJIT_ASHR: case SLJIT_MASHR: r = (uint64_t)(x >> sh) & M; break;
      case SLJIT_ROTL: r = sh ? ((a << sh) | (a >> (W - sh))) & M : a; break;
      case SLJIT_ROTR: r = sh ? ((a >> sh) | (a << (W - sh))) & M : a; break;
      default: harness_error("op2 %d", op);
    }
    Z = r == 0;
    if (var == SLJIT_OVERFLOW) V = ovf; else if (var == SLJIT_CARRY) V = cy; else if (var) V = icond(var, a, b, w32);
    return r;
  }
  int64_t run(int64_t a1, int64_t a2) {
    st.clear(); st.emplace_back();
    fr().fn = 0; fr().R[SLJIT_S1] = a1; fr().R[SLJIT_S2] = a2;
    int pc = 0;
    for (;;) {
      if (!fuel--) { out = true; return 0; }
      if (rec) {                               // debugging only (SIM_STEP)
        Rec q; q.at = pc; memcpy(q.R, fr().R, sizeof q.R); memcpy(q.F, fr().F, sizeof q.F);
        if (!rec->empty()) { const Step &l = p.s[rec->back().at]; unk = rec->back().unk; for (int i = 0; i < 16; i++) if (q.R[i] != rec->back().R[i]) unk &= ~(1u << i);
          if (l.t == T_ENTER || l.t == T_RET || l.t == T_CALLF || l.t == T_CALLC || l.t == T_ICALLC) unk = 0xffff;
          if (l.t == T_PRES0 || l.t == T_PRELOC || l.t == T_ADDR || l.t == T_TABADDR) { if (l.a[0].k == O_R) unk |= 1u << l.a[0].r; } if (l.t == T_HINT && l.op >= 100) unk |= 1u << l.x; }
        else unk = 0xffff;
        q.unk = unk; rec->push_back(q);
      }
      at = pc;
      const Step &s = p.s[pc++];
      Frame &f = fr();
      switch (s.t) {
        case T_ENTER: f.loc.assign(p.fn[s.x].local, 0); break;
        case T_CTX: case T_SETLAB: case T_LABEL: case T_ALABEL: case T_PRES0: case T_PRELOC: case T_HINT: case T_CUSTOM: case T_TABADDR: break;
        case T_ADDR: break;
        case T_OP0: {
          int64_t &r0 = f.R[SLJIT_R0], &r1 = f.R[SLJIT_R1];
          switch (s.op) {
            case SLJIT_LMUL_UW: { unsigned __int128 z = (unsigned __int128)(uint64_t)r0 * (uint64_t)r1; r0 = (int64_t)(uint64_t)z; r1 = (int64_t)(uint64_t)(z >> 64); break; }
            case SLJIT_LMUL_SW: { __int128 z = (__int128)r0 * r1; r0 = (int64_t)z; r1 = (int64_t)(z >> 64); break; }
            case SLJIT_DIVMOD_UW: case SLJIT_DIV_UW: { uint64_t a = r0, b = r1; r0 = a / b; if (s.op == SLJIT_DIVMOD_UW) r1 = a % b; break; }
            case SLJIT_DIVMOD_U32: case SLJIT_DIV_U32: { uint32_t a = r0, b = r1; r0 = a / b; if (s.op == SLJIT_DIVMOD_U32) r1 = a % b; break; }
            case SLJIT_DIVMOD_SW: case SLJIT_DIV_SW: { int64_t a = r0, b = r1; r0 = a / b; if (s.op == SLJIT_DIVMOD_SW) r1 = a % b; break; }
            case SLJIT_DIVMOD_S32: case SLJIT_DIV_S32: { int32_t a = r0, b = r1; r0 = a / b; if (s.op == SLJIT_DIVMOD_S32) r1 = a % b; break; }
          }
          break; }
        case T_OP1: { int sz = Gen::op1size(s.op); stv(s.a[0], op1(s.op, ld(s.a[1], sz)), sz); break; }
        case T_OP2: { int sz = s.op & SLJIT_32 ? 4 : 8; uint64_t a = ld(s.a[1], sz), b = ld(s.a[2], sz); stv(s.a[0], op2(s.op, a, b), sz); break; }
        case T_OP2U: { int sz = s.op & SLJIT_32 ? 4 : 8; op2(s.op, ld(s.a[1], sz), ld(s.a[2], sz)); break; }
        case T_OP2R: { int sz = s.op & SLJIT_32 ? 4 : 8; uint64_t r = (uint64_t)f.R[s.a[0].r] + ld(s.a[1], sz) * ld(s.a[2], sz); f.R[s.a[0].r] = sz == 4 ? (int64_t)(uint32_t)r : (int64_t)r; break; }
        case T_SHI: {
          bool w32 = s.op & SLJIT_32; int W = w32 ? 32 : 64; uint64_t M = w32 ? 0xffffffffull : ~0ull; int op = s.op & 0xff;
          uint64_t a = ld(s.a[1], 8) & M, b = ld(s.a[2], 8) & M; int sh = (int)(ld(s.a[3], w32 ? 4 : 8) & (W - 1));
          uint64_t r = op == SLJIT_SHL || op == SLJIT_MSHL ? (a << sh) | ((b >> 1) >> (sh ^ (W - 1))) : (a >> sh) | ((b << 1 & M) << (sh ^ (W - 1)));
          f.R[s.a[0].r] = (int64_t)(r & M); break; }
        case T_FSET64: sd(s.a[0], s.d); break;
        case T_FSET32: ss(s.a[0], (float)s.d); break;
        case T_FCOPY:
          if (s.op == SLJIT_COPY_TO_F64) f.F[s.a[0].r] = (uint64_t)f.R[s.a[1].r];
          else if (s.op == SLJIT_COPY32_TO_F32) f.F[s.a[0].r] = (uint32_t)f.R[s.a[1].r];
          else if (s.op == SLJIT_COPY_FROM_F64) f.R[s.a[1].r] = (int64_t)f.F[s.a[0].r];
          else f.R[s.a[1].r] = (int64_t)(uint32_t)f.F[s.a[0].r];
          break;
        case T_FOP1: {
          int op = s.op & (0xff | SLJIT_32); bool w32 = op & SLJIT_32; int var = (s.op >> 10) & 0x3f;
          const Opnd &D = s.a[0], &A = s.a[1];
          switch (op & 0xff) {
            case SLJIT_MOV_F64: if (w32) stv(D, (uint32_t)ld(A, 4), 4); else stv(D, ld(A, 8), 8); break;
            case SLJIT_CONV_F64_FROM_F32 & 0xff: if (w32) ss(D, (float)d(A)); else sd(D, (double)this->s(A)); break;
            case SLJIT_CONV_SW_FROM_F64 & 0xff: stv(D, (uint64_t)(int64_t)(w32 ? (double)this->s(A) : d(A)), 8); break;
            case SLJIT_CONV_S32_FROM_F64 & 0xff: { double q = w32 ? (double)this->s(A) : d(A); stv(D, (uint32_t)(q >= -2147483648.0 && q < 2147483648.0 ? (int32_t)q : INT32_MIN), 4); break; }
            case SLJIT_CONV_F64_FROM_SW & 0xff: { int64_t q = (int64_t)ld(A, 8); if (w32) ss(D, (float)q); else sd(D, (double)q); break; }
            case SLJIT_CONV_F64_FROM_S32 & 0xff: { int32_t q = (int32_t)ld(A, 4); if (w32) ss(D, (float)q); else sd(D, (double)q); break; }
            case SLJIT_CONV_F64_FROM_UW & 0xff: { uint64_t q = ld(A, 8); if (w32) ss(D, (float)q); else sd(D, (double)q); break; }
            case SLJIT_CONV_F64_FROM_U32 & 0xff: { uint32_t q = (uint32_t)ld(A, 4); if (w32) ss(D, (float)q); else sd(D, (double)q); break; }
            case SLJIT_CMP_F64 & 0xff: V = w32 ? fcond(var, this->s(D), this->s(A)) : fcond(var, d(D), d(A)); break;
            case SLJIT_NEG_F64 & 0xff: if (w32) stv(D, (uint32_t)ld(A, 4) ^ 0x80000000u, 4); else stv(D, ld(A, 8) ^ (1ull << 63), 8); break;
            case SLJIT_ABS_F64 & 0xff: if (w32) stv(D, (uint32_t)ld(A, 4) & 0x7fffffffu, 4); else stv(D, ld(A, 8) & ~(1ull << 63), 8); break;
            default: harness_error("fop1");
          }
          break; }
        case T_FOP2: {
          bool w32 = s.op & SLJIT_32;
          // of two different NaNs either may be the result: nothing more can be said about this run
          if (w32) { float a = this->s(s.a[1]), b = this->s(s.a[2]); if (a != a && b != b && ld(s.a[1], 4) != ld(s.a[2], 4)) truncated(); }
          else { double a = d(s.a[1]), b = d(s.a[2]); if (a != a && b != b && ld(s.a[1], 8) != ld(s.a[2], 8)) truncated(); }
          if (w32) { float a = this->s(s.a[1]), b = this->s(s.a[2]); switch (s.op & 0xff) { case SLJIT_ADD_F64: a += b; break; case SLJIT_SUB_F64: a -= b; break; case SLJIT_MUL_F64: a *= b; break; default: a /= b; } ss(s.a[0], a); }
          else { double a = d(s.a[1]), b = d(s.a[2]); switch (s.op & 0xff) { case SLJIT_ADD_F64: a += b; break; case SLJIT_SUB_F64: a -= b; break; case SLJIT_MUL_F64: a *= b; break; default: a /= b; } sd(s.a[0], a); }
          break; }
        case T_FOP2R: if (s.op & SLJIT_32) { uint32_t a = (uint32_t)ld(s.a[1], 4), b = (uint32_t)ld(s.a[2], 4); stv(s.a[0], (a & 0x7fffffffu) | (b & 0x80000000u), 4); } else { uint64_t a = ld(s.a[1], 8), b = ld(s.a[2], 8); stv(s.a[0], (a & ~(1ull << 63)) | (b & (1ull << 63)), 8); } break;
        case T_JUMP:
          if ((s.op & 0xff) == SLJIT_FAST_CALL) { hit(P_FAST); pendfast = pc; pc = p.labpos[s.lab]; }
          else if ((s.op & 0xff) == SLJIT_JUMP) pc = p.labpos[s.alt >= 0 && p.alt[s.jmp] ? s.alt : s.lab];
          else if (cond(s.op & 0xff)) pc = p.labpos[s.lab];
          break;
        case T_CMP: { bool w32 = s.op & SLJIT_32; int sz = w32 ? 4 : 8; if (icond(s.op & 0xff, ld(s.a[0], sz), ld(s.a[1], sz), w32)) pc = p.labpos[s.lab]; break; }
        case T_FCMP: { bool w32 = s.op & SLJIT_32; if (w32 ? fcond(s.op & 0xff, this->s(s.a[0]), this->s(s.a[1])) : fcond(s.op & 0xff, d(s.a[0]), d(s.a[1]))) pc = p.labpos[s.lab]; break; }
        case T_OP2CMPZ: { int sz = s.op & SLJIT_32 ? 4 : 8; uint64_t r = op2(s.op & (0xff | SLJIT_32), ld(s.a[1], sz), ld(s.a[2], sz)); stv(s.a[0], r, sz); if ((r == 0) == !!(s.op & SLJIT_JUMP_IF_ZERO)) pc = p.labpos[s.lab]; break; }
        case T_OPFLAGS: {
          uint64_t v = cond(s.x); int op = s.op & (0xff | SLJIT_32);
          if (op == SLJIT_MOV || op == SLJIT_MOV32) { stv(s.a[0], v, op == SLJIT_MOV ? 8 : 4); break; }
          int sz = op & SLJIT_32 ? 4 : 8; uint64_t o = ld(s.a[0], sz);
          o = (op & 0xff) == SLJIT_AND ? o & v : (op & 0xff) == SLJIT_OR ? o | v : o ^ v;
          if (sz == 4) o = (uint32_t)o;
          stv(s.a[0], o, sz); Z = o == 0; break; }
        case T_SELECT: { int sz = s.op & SLJIT_32 ? 4 : 8; uint64_t v = cond(s.op & 0xff) ? ld(s.a[1], sz) : ld(s.a[2], sz); f.R[s.a[0].r] = sz == 4 ? (int64_t)(uint32_t)v : (int64_t)v; break; }
        case T_FSELECT: { int sz = s.op & SLJIT_32 ? 4 : 8; stv(s.a[0], cond(s.op & 0xff) ? ld(s.a[1], sz) : ld(s.a[2], sz), sz); break; }
        case T_CONST: stv(s.a[0], (uint64_t)p.con[s.x], Gen::consize(s.op)); break;
        case T_IJUMP: if (s.x >= 0) { hit(P_TABLE); pc = p.labpos[p.tab[s.x].to[f.R[s.a[1].r]]]; } else pc = p.labpos[s.lab]; break;
        case T_FENTER: f.fast[(s.v - 32) / 8] = pendfast; break;
        case T_FRET: pc = f.fast[(s.v - 32) / 8]; break;
        case T_CALLC: case T_ICALLC: {
          int k = s.x; if (s.t == T_CALLC && s.alt >= 0 && p.alt[s.jmp]) k = s.alt;
          int64_t *R = f.R; const int r0 = SLJIT_R0;
          switch (k) {
            case 0: R[r0] = m_w3(&trace, R[r0], R[r0 + 1], R[r0 + 2]); break;
            case 1: R[r0] = m_w3b(&trace, R[r0], R[r0 + 1], R[r0 + 2]); break;
            case 2: sd(oF(SLJIT_FR0), m_fd(&trace, d(oF(SLJIT_FR0)), R[r0])); break;
            case 3: R[r0] = (int64_t)(uint32_t)m_w32(&trace, (s32)R[r0], (s32)R[r0 + 1]); break;
            case 4: R[r0] = m_w4(&trace, R[r0], R[r0 + 1], R[r0 + 2], R[r0 + 3]); break;
            case 5: m_v(&trace); break;
            default: ss(oF(SLJIT_FR0), m_fs(&trace, this->s(oF(SLJIT_FR0))));
          }
          break; }
        case T_CALLF: {
          hit(P_FCALL);
          const Fn &g = p.fn[s.x];
          Frame n; n.ret = pc; n.fn = s.x; n.thr = (int)s.v;
          int base = g.keep ? 0 : 1;
          if (g.reg) for (int i = 0; i < 2; i++) n.R[SLJIT_R(base + i)] = f.R[SLJIT_R(base + i)];
          else { n.R[SLJIT_S1] = f.R[SLJIT_R1]; n.R[SLJIT_S2] = f.R[SLJIT_R2]; }
          st.push_back(n); pc = g.entry; break; }
        case T_RET: {
          int sz = Gen::op1size(s.op); int64_t v = (int64_t)op1(s.op, ld(s.a[0], sz));
          int r = f.ret; st.pop_back();
          if (r < 0) return v;
          fr().R[SLJIT_R0] = v; pc = r; break; }
        case T_RETV: { int r = f.ret; st.pop_back(); if (r < 0) harness_error("entry returns nothing"); pc = r; break; }
        case T_RETC: {
          int64_t *R = f.R; const int r0 = SLJIT_R0; int64_t v = 0;
          hit(P_TAILC);
          switch (s.x) {
            case 0: v = m_w3(&trace, R[r0], R[r0 + 1], R[r0 + 2]); break;
            case 1: v = m_w3b(&trace, R[r0], R[r0 + 1], R[r0 + 2]); break;
            case 4: v = m_w4(&trace, R[r0], R[r0 + 1], R[r0 + 2], R[r0 + 3]); break;
            default: m_v(&trace);
          }
          int r = f.ret; st.pop_back();
          if (r < 0) return v;
          fr().R[SLJIT_R0] = v; pc = r; break; }
        case T_RETTO: hit(P_RETTO); pc = p.labpos[f.thr]; st.pop_back(); break;
        case T_TAILF: {
          hit(P_TAILC);
          const Fn &g = p.fn[s.x];
          Frame n; n.ret = f.ret; n.fn = s.x;
          int base = g.keep ? 0 : 1;
          if (g.reg) for (int i = 0; i < 2; i++) n.R[SLJIT_R(base + i)] = f.R[SLJIT_R(base + i)];
          else { n.R[SLJIT_S1] = f.R[SLJIT_R1]; n.R[SLJIT_S2] = f.R[SLJIT_R2]; }
          st.pop_back(); st.push_back(n); pc = g.entry; break; }
        case T_PAIR: { Opnd q = s.a[0], q2 = q; q2.v += 8; if (s.op & SLJIT_MEM_STORE) { stv(q, f.R[s.x], 8); stv(q2, f.R[s.y], 8); } else { f.R[s.x] = ld(q, 8); f.R[s.y] = ld(q2, 8); } break; }
        case T_EMEM: { int op = s.op & 0xff, sz = Gen::op1size(op); if (s.op & SLJIT_MEM_STORE) stv(s.a[1], f.R[s.a[0].r], sz); else f.R[s.a[0].r] = (int64_t)op1(op, ld(s.a[1], sz)); break; }
        case T_FMEM: { int sz = s.op & SLJIT_32 ? 4 : 8; if (s.op & SLJIT_MEM_STORE) stv(s.a[1], f.F[s.a[0].r], sz); else f.F[s.a[0].r] = ld(s.a[1], sz); break; }
        case T_ALOAD: f.R[s.a[0].r] = (int64_t)ld(oB(s.v), Gen::op1size(s.op & 0xff)); break;
        case T_ASTORE: stv(oB(s.v), f.R[s.a[0].r], Gen::op1size(s.op & 0xff)); V = true; break;
        case T_VMOV: {
          hit(vw() == 32 ? P_VEC256 : P_VEC);
          if (s.a[1].k == O_V) memcpy(f.V[s.a[0].r], f.V[s.a[1].r], 32);
          else if (s.op & SLJIT_SIMD_STORE) memcpy(ptr(s.a[1], vw()), f.V[s.a[0].r], vw()); else memcpy(f.V[s.a[0].r], ptr(s.a[1], vw()), vw());
          break; }
        case T_VOP2: {
          uint8_t b[32], r[32]; memcpy(b, s.a[2].k == O_V ? f.V[s.a[2].r] : ptr(s.a[2], vw()), vw());
          for (int i = 0; i < vw(); i++) { uint8_t a = f.V[s.a[1].r][i]; r[i] = (s.op & 7) == 4 ? f.V[s.a[1].r][b[i] & 15] : (s.op & 3) == 1 ? a & b[i] : (s.op & 3) == 2 ? a | b[i] : a ^ b[i]; }
          memcpy(f.V[s.a[0].r], r, vw()); break; }
        case T_VREPL: { int n = 1 << ((s.op >> 18) & 7); uint64_t v = ld(s.a[1], n); for (int i = 0; i < vw(); i += n) memcpy(f.V[s.a[0].r] + i, &v, n); break; }
        case T_VLANE: {
          int n = 1 << ((s.op >> 18) & 7); uint8_t *l = f.V[s.a[0].r] + s.x * n;
          if (s.op & SLJIT_SIMD_STORE) { uint64_t v = 0; memcpy(&v, l, n); if (s.op & SLJIT_SIMD_LANE_SIGNED && n < 8) v = (uint64_t)((int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n)); stv(s.a[1], v, n); }
          else { uint64_t v = ld(s.a[1], n); if (s.op & SLJIT_SIMD_LANE_ZERO) memset(f.V[s.a[0].r], 0, 32); memcpy(l, &v, n); }
          break; }
        case T_VLREP: { int n = 1 << ((s.op >> 18) & 7); uint8_t v[8]; memcpy(v, f.V[s.a[1].r] + s.x * n, n); for (int i = 0; i < vw(); i += n) memcpy(f.V[s.a[0].r] + i, v, n); break; }
        case T_VEXT: {
          int n = 1 << ((s.op >> 18) & 7), m = 1 << s.x, c = vw() / m; uint8_t b[32];
          memcpy(b, s.a[1].k == O_V ? f.V[s.a[1].r] : ptr(s.a[1], c * n), c * n);
          for (int i = 0; i < c; i++) {
            uint64_t v = 0; memcpy(&v, b + i * n, n);
            if (s.op & SLJIT_SIMD_FLOAT) { float x; memcpy(&x, b + i * 4, 4); volatile float vx = x; double d = vx; memcpy(&v, &d, 8); }
            else if (s.op & SLJIT_SIMD_EXTEND_SIGNED) v = (uint64_t)((int64_t)(v << (64 - 8 * n)) >> (64 - 8 * n));
            memcpy(f.V[s.a[0].r] + i * m, &v, m);
          }
          hit(P_VEXT);
          break; }
        case T_VSIGN: { int n = 1 << ((s.op >> 18) & 7); uint64_t v = 0; for (int i = 0; i < vw() / n; i++) if (f.V[s.a[0].r][i * n + n - 1] & 0x80) v |= 1ull << i; stv(s.a[1], v, 8); break; }
        default: harness_error("step %d not interpreted", s.t);
      }
    }
  }
  struct Rec { int at; int64_t R[16]; uint64_t F[16]; uint32_t unk; };
  std::vector<Rec> *rec = nullptr; uint32_t unk = 0;
  int pendfast = -1, at = 0, wr[BUFN + 16] = {};
};

// ------------------------------------------------------------------ emission
struct Comp {
  sljit_compiler *c = nullptr;
  std::vector<sljit_label *> lab; std::vector<sljit_jump *> jmp; std::vector<sljit_const *> con;
  std::vector<std::vector<sljit_read_only_buffer>> rob; bool rob_ok = true;
  void size(const Prog &p) { lab.assign(p.nlab, nullptr); jmp.assign(p.njmp, nullptr); con.assign(p.ncon, nullptr); rob.assign(p.tab.size(), {}); rob_ok = true; }
};
struct FCtx {
  int idx = 0; uint8_t *buf = nullptr; uint64_t trace = 0x1234;
  int64_t refuse_at = -1; bool refuse_all = false, exec = false; uint64_t nalloc = 0, nref = 0; int fk = 0;
};
FCtx *fctx[64];
FCtx *me() { FCtx *f = cur() < 64 ? fctx[cur()] : nullptr; if (!f) harness_error("no context"); return f; }
uint64_t *trace_of() { return &me()->trace; }
bool refuse_heap(Domain d, const char *, size_t) {
  FCtx *f = cur() < 64 ? fctx[cur()] : nullptr;
  if (d != D_SLJIT || !f) return false;
  int64_t n = (int64_t)f->nalloc++;
  if (f->refuse_at < 0 || n < f->refuse_at || (n > f->refuse_at && !f->refuse_all)) return false;
  f->nref++; fired(f->fk); return true;
}
bool refuse_exec(size_t) { FCtx *f = cur() < 64 ? fctx[cur()] : nullptr; if (!f || !f->exec) return false; f->nref++; fired(F_EXEC); return true; }
uint8_t *bufaddr(int idx) { return BUFS + 8192 * idx; }

void opnd(const Opnd &o, s32 &r, sw &w) {
  w = 0;
  switch (o.k) {
    case O_R: case O_F: case O_V: r = o.r; return;
    case O_IMM: r = SLJIT_IMM; w = o.v; return;
    case O_BUF:
      switch (o.form) {
        case 0: r = SLJIT_MEM1(SLJIT_S0); w = o.v; return;
        case 1: r = SLJIT_MEM0(); w = (sw)(me()->buf + o.v); return;
        case 2: r = SLJIT_MEM2(SLJIT_S0, o.tmp); w = o.sh; return;
        default: r = SLJIT_MEM1(o.tmp); w = o.v + o.delta; return;
      }
    case O_BUFX: r = SLJIT_MEM2(SLJIT_S0, o.r); w = o.sh; return;
    case O_LOC:
      switch (o.form) {
        case 0: r = SLJIT_MEM1(SLJIT_SP); w = o.v; return;
        case 3: r = SLJIT_MEM1(o.tmp); w = o.delta; return;
      }
      /* fallthrough */
    default: harness_error("operand %d form %d", o.k, o.form);
  }
}
// debugging aid: SIM_STEP=1 compares the registers with the interpreter before every step
std::vector<Interp::Rec> g_rec; size_t g_recpos; bool g_step;
void step_check(uint64_t *regs, int step, double *fx) {
  static const int pos[16] = {15, 14, 13, 12, -1, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1};   // rax rcx rdx rbx rsp rbp rsi rdi r8..r15, counted from the lowest slot 0
  if (g_recpos >= g_rec.size()) { fprintf(stderr, "STEP past the end at %d\n", step); return; }
  while (g_recpos < g_rec.size() && g_rec[g_recpos].at != step) g_recpos++;
  if (g_recpos >= g_rec.size()) { fprintf(stderr, "STEP diverged at %d\n", step); _Exit(1); }
  auto &q = g_rec[g_recpos++];
  for (int i = 1; i < 14; i++) {
    if (q.unk >> i & 1) continue;
    int x = sljit_get_register_index(SLJIT_GP_REGISTER, i); if (x < 0 || pos[x] < 0) continue;
    uint64_t v = regs[pos[x] - 1];
    if (i == SLJIT_S0) continue;
    if (v != (uint64_t)q.R[i] && getenv("SIM_STEP")[0] == '2' && (uint32_t)v == (uint32_t)q.R[i]) continue;
    if (v != (uint64_t)q.R[i]) fprintf(stderr, "STEP before %d: reg %d is %llx, should be %llx\n", step, i, (long long)v, (long long)q.R[i]);
  }
  (void)fx;
}
void step_emit(sljit_compiler *c, int step) {
  uint8_t b[16]; auto e = [&](std::initializer_list<int> l) { int n = 0; for (int x : l) b[n++] = (uint8_t)x; sljit_emit_op_custom(c, b, n); };
  auto lf = c->last_flags;
  e({0x9c}); for (int r : {0, 1, 2, 3, 5, 6, 7}) e({0x50 + r}); for (int r = 0; r < 8; r++) e({0x41, 0x50 + r});
  e({0x48, 0x89, 0xe7}); e({0x48, 0x89, 0xe3}); e({0x48, 0x83, 0xe4, 0xc0}); e({0x48, 0x81, 0xec, 0, 2, 0, 0}); e({0x48, 0x0f, 0xae, 0x04, 0x24});
  e({0xbe, step & 255, step >> 8 & 255, step >> 16 & 255, 0}); e({0x48, 0x89, 0xe2});
  uint64_t t = (uint64_t)(void *)step_check; e({0x48, 0xb8, (int)(t & 255), (int)(t >> 8 & 255), (int)(t >> 16 & 255), (int)(t >> 24 & 255), (int)(t >> 32 & 255), (int)(t >> 40 & 255), 0, 0});
  e({0xff, 0xd0}); e({0x48, 0x0f, 0xae, 0x0c, 0x24}); e({0x48, 0x89, 0xdc});
  for (int r = 7; r >= 0; r--) e({0x41, 0x58 + r});
  for (int r : {7, 6, 5, 3, 2, 1, 0}) e({0x58 + r});
  e({0x9d});
  c->last_flags = lf;
}
// true: the call said it worked
bool emit(const Prog &p, const Step &s, Comp &m) {
  sljit_compiler *c = m.c; s32 r[4]; sw w[4];
  if (g_step && s.t != T_ENTER && s.t != T_CTX && s.t != T_LABEL && s.t != T_ALABEL && s.t != T_SETLAB && s.t != T_FENTER && &s > &p.s[0]) step_emit(c, (int)(&s - &p.s[0]));
  for (int i = 0; i < 4; i++) { r[i] = 0; w[i] = 0; if (s.a[i].k != O_NONE) opnd(s.a[i], r[i], w[i]); }
  auto jset = [&](sljit_jump *j) { m.jmp[s.jmp] = j; return j != nullptr; };
  switch (s.t) {
    case T_ENTER: case T_CTX: {
      const Fn &g = p.fn[s.x];
      s32 scr = g.scr | SLJIT_ENTER_FLOAT(g.fl) | SLJIT_ENTER_VECTOR(g.vec);
      return (s.t == T_ENTER ? sljit_emit_enter(c, g.opts, g.args, scr, g.sav, g.local) : sljit_set_context(c, g.opts, g.args, scr, g.sav, g.local)) == 0; }
    case T_OP0: return !sljit_emit_op0(c, s.op);
    case T_OP1: return !sljit_emit_op1(c, s.op, r[0], w[0], r[1], w[1]);
    case T_OP2: return !sljit_emit_op2(c, s.op, r[0], w[0], r[1], w[1], r[2], w[2]);
    case T_OP2U: return !sljit_emit_op2u(c, s.op, r[1], w[1], r[2], w[2]);
    case T_OP2R: return !sljit_emit_op2r(c, s.op, r[0], r[1], w[1], r[2], w[2]);
    case T_SHI: return !sljit_emit_shift_into(c, s.op, r[0], r[1], r[2], r[3], w[3]);
    case T_FOP1: return !sljit_emit_fop1(c, s.op, r[0], w[0], r[1], w[1]);
    case T_FOP2: return !sljit_emit_fop2(c, s.op, r[0], w[0], r[1], w[1], r[2], w[2]);
    case T_FOP2R: return !sljit_emit_fop2r(c, s.op, r[0], r[1], w[1], r[2], w[2]);
    case T_FSET64: return !sljit_emit_fset64(c, r[0], s.d);
    case T_FSET32: return !sljit_emit_fset32(c, r[0], (float)s.d);
    case T_FCOPY: return !sljit_emit_fcopy(c, s.op, r[0], r[1]);
    case T_LABEL: return (m.lab[s.lab] = sljit_emit_label(c)) != nullptr;
    case T_ALABEL: {
      sljit_read_only_buffer *b = nullptr;
      if (s.y >= 0) {
        auto &v = m.rob[s.y]; v.assign(p.tab[s.y].sizes.size(), {});
        for (size_t i = 0; i < v.size(); i++) { v[i].size = p.tab[s.y].sizes[i]; v[i].next = i + 1 < v.size() ? &v[i + 1] : nullptr; }
        b = v.data();
      }
      return (m.lab[s.lab] = sljit_emit_aligned_label(c, s.x, b)) != nullptr; }
    case T_JUMP: return jset(sljit_emit_jump(c, s.op));
    case T_SETLAB: sljit_set_label(m.jmp[s.jmp], m.lab[s.lab]); return true;
    case T_CMP: return jset(sljit_emit_cmp(c, s.op, r[0], w[0], r[1], w[1]));
    case T_FCMP: return jset(sljit_emit_fcmp(c, s.op, r[0], w[0], r[1], w[1]));
    case T_OP2CMPZ: return jset(sljit_emit_op2cmpz(c, s.op, r[0], w[0], r[1], w[1], r[2], w[2]));
    case T_OPFLAGS: return !sljit_emit_op_flags(c, s.op, r[0], w[0], s.x);
    case T_SELECT: return !sljit_emit_select(c, s.op, r[0], r[1], w[1], r[2]);
    case T_FSELECT: return !sljit_emit_fselect(c, s.op, r[0], r[1], w[1], r[2]);
    case T_CONST: return (m.con[s.x] = sljit_emit_const(c, s.op, r[0], w[0], p.con[s.x])) != nullptr;
    case T_ADDR: case T_TABADDR: return jset(sljit_emit_op_addr(c, s.op, r[0], w[0]));
    case T_IJUMP:
      if (s.x < 0 || s.y) return !sljit_emit_ijump(c, SLJIT_JUMP, r[0], w[0]);
      return !sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM2(s.a[0].r, s.a[1].r), 3);
    case T_FENTER: return !sljit_emit_op_dst(c, SLJIT_FAST_ENTER, r[0], w[0]);
    case T_FRET: return !sljit_emit_op_src(c, SLJIT_FAST_RETURN, r[0], w[0]);
    case T_CALLC: { bool ok = jset(sljit_emit_call(c, s.op, s.y)); sljit_set_target(m.jmp[s.jmp], (uw)cfs[s.x].p); return ok; }
    case T_ICALLC: return !sljit_emit_icall(c, s.op, s.y, r[0], s.a[0].k == O_IMM ? (sw)cfs[s.x].p : w[0]);
    case T_CALLF: return jset(sljit_emit_call(c, s.op, s.y));
    case T_RETV: return !sljit_emit_return_void(c);
    case T_RETC:
      if (s.a[0].k == O_NONE) { bool ok = jset(sljit_emit_call(c, s.op, s.y)); sljit_set_target(m.jmp[s.jmp], (uw)cfs[s.x].p); return ok; }
      return !sljit_emit_icall(c, s.op, s.y, r[0], s.a[0].k == O_IMM ? (sw)cfs[s.x].p : w[0]);
    case T_TAILF: return jset(sljit_emit_call(c, s.op, s.y));
    case T_RETTO: return !sljit_emit_return_to(c, r[0], w[0]);
    case T_RET: return !sljit_emit_return(c, s.op, r[0], w[0]);
    case T_HINT:
      switch (s.op) {
        case 0: return !sljit_emit_op0(c, SLJIT_NOP);
        case 1: return !sljit_emit_op0(c, SLJIT_ENDBR);
        case 2: return !sljit_emit_op0(c, SLJIT_MEMORY_BARRIER);
        case 3: return !sljit_emit_op_src(c, SLJIT_PREFETCH_L1, r[0], w[0]);
        case 100: return !sljit_emit_op1(c, SLJIT_MOV, s.x, 0, SLJIT_MEM2(s.x, s.y), 3);
        case 101: return !sljit_emit_op1(c, SLJIT_MOV, s.x, 0, SLJIT_IMM, (sw)cfs[s.y].p);
        case 102: return !sljit_emit_op1(c, SLJIT_MOV, r[0], w[0], r[1], w[1]);
        case 103: return !sljit_emit_op1(c, SLJIT_MOV, r[0], w[0], SLJIT_IMM, (sw)cfs[s.y].p);
      }
      harness_error("hint");
    case T_CUSTOM: {
      static const uint8_t N[3][16] = {{0x90}, {0x66, 0x0f, 0x1f, 0x44, 0, 0}, {0x66, 0x66, 0x2e, 0x0f, 0x1f, 0x84, 0, 0, 0, 0, 0, 0x90, 0x90, 0x90, 0x90}};
      static const int L[3] = {1, 6, 15};
      uint8_t b[16]; memcpy(b, N[s.x], 16);
      return !sljit_emit_op_custom(c, b, L[s.x]); }
    case T_PRES0: return !sljit_emit_op2(c, SLJIT_SUB, r[0], w[0], s.op ? s.op : SLJIT_S0, 0, SLJIT_IMM, s.v);
    case T_PRELOC: return !sljit_get_local_base(c, r[0], w[0], s.v);
    case T_PAIR: return !sljit_emit_mem(c, s.op, SLJIT_REG_PAIR(s.x, s.y), r[0], w[0]);
    case T_EMEM: return !sljit_emit_mem(c, s.op, r[0], r[1], w[1]);
    case T_FMEM: return !sljit_emit_fmem(c, s.op, r[0], r[1], w[1]);
    case T_ALOAD: return !sljit_emit_atomic_load(c, s.op, r[0], s.x);
    case T_ASTORE: return !sljit_emit_atomic_store(c, s.op, r[0], s.x, s.y);
    case T_VMOV: return !sljit_emit_simd_mov(c, s.op, r[0], r[1], w[1]);
    case T_VOP2: return !sljit_emit_simd_op2(c, s.op, r[0], r[1], r[2], w[2]);
    case T_VREPL: return !sljit_emit_simd_replicate(c, s.op, r[0], r[1], w[1]);
    case T_VLANE: return !sljit_emit_simd_lane_mov(c, s.op, r[0], s.x, r[1], w[1]);
    case T_VLREP: return !sljit_emit_simd_lane_replicate(c, s.op, r[0], r[1], s.x);
    case T_VEXT: return !sljit_emit_simd_extend(c, s.op, r[0], r[1], w[1]);
    case T_VSIGN: return !sljit_emit_simd_sign(c, s.op | SLJIT_SIMD_STORE, r[0], r[1], w[1]);
    default: harness_error("step %d not emitted", s.t);
  }
}

// ------------------------------------------------------------------ finished code
struct Live {
  Prog p; void *code = nullptr; size_t size = 0; sw xoff = 0;
  std::vector<uw> lab, jmp, con;
};
typedef std::unique_ptr<Live> LiveP;
void harvest(Live &L, Comp &m) {
  L.size = sljit_get_generated_code_size(m.c); L.xoff = sljit_get_executable_offset(m.c);
  uw b = (uw)L.code;
  for (size_t i = 0; i < m.lab.size(); i++) {
    if (!m.lab[i]) harness_error("label %zu missing", i);
    uw a = sljit_get_label_addr(m.lab[i]);
    if (a < b || a > b + L.size) violation("label", "label %zu at offset %lld of %zu bytes of code", i, (long long)(a - b), L.size);
    L.lab.push_back(a);
  }
  for (auto *j : m.jmp) L.jmp.push_back(j ? sljit_get_jump_addr(j) : 0);
  for (auto *k : m.con) L.con.push_back(sljit_get_const_addr(k));
  for (size_t i = 0; i < L.p.s.size(); i++) if (L.p.s[i].t == T_ALABEL && L.lab[L.p.s[i].lab] & ((1u << L.p.s[i].x) - 1)) violation("label alignment", "label aligned to 2^%d at %llx", L.p.s[i].x, (unsigned long long)L.lab[L.p.s[i].lab]);
}
void fill_tables(Live &L, Comp *m) {
  for (size_t t = 0; t < L.p.tab.size(); t++) {
    const Table &T = L.p.tab[t];
    size_t n = T.to.size() * 8;
    if (L.lab[T.lab] + n > (uw)L.code + L.size) violation("buffer", "read-only buffer outside the code");
    uint64_t *d = (uint64_t *)sljit_read_only_buffer_start_writing(L.lab[T.lab], n, L.xoff);
    for (size_t i = 0; i < T.to.size(); i++) d[i] = L.lab[T.to[i]];
    sljit_read_only_buffer_end_writing(L.lab[T.lab], n, L.xoff);
    if (!m || !m->rob_ok) continue;
    uw prev = L.lab[T.lab];
    for (size_t i = 0; i < m->rob[t].size(); i++) {
      auto &q = m->rob[t][i]; uw a = sljit_get_label_addr(q.u.label);
      if (a < prev || a + q.size > (uw)L.code + L.size || (i == 0 && a != prev)) violation("buffer", "read-only buffer %zu of %zu bytes at offset %lld", i, q.size, (long long)(a - (uw)L.code));
      prev = a + q.size;
      if (!i) continue;
      memset(sljit_read_only_buffer_start_writing(a, q.size, L.xoff), 0xcc, q.size);
      sljit_read_only_buffer_end_writing(a, q.size, L.xoff);
    }
  }
}
void patch(Live &L) {
  for (int i = 0; i < L.p.ncon; i++) if (draw(OP, 2)) { hit(P_PATCH); L.p.con[i] = Gen::constval(L.p.conop[i]); sljit_set_const(L.con[i], L.p.conop[i], L.p.con[i], L.xoff); }
  for (size_t i = 0; i < L.p.s.size(); i++) {
    const Step &s = L.p.s[i];
    if (s.alt < 0 || !draw(OP, 2)) continue;
    hit(P_PATCH);
    uint8_t v = draw(OP, 2); L.p.alt[s.jmp] = v;
    uw to = s.t == T_CALLC ? (uw)cfs[v ? s.alt : s.x].p : L.lab[v ? s.alt : s.lab];
    sljit_set_jump_addr(L.jmp[s.jmp], to, L.xoff);
  }
  code_changed(L.code);
}
const char *differs(const uint8_t *a, const uint8_t *b, int &at) {
  for (at = 0; at < FBEG; at++) if (a[at] != b[at]) return "memory";
  for (at = FBEG; at < FBEG + 128; at += 8) { double x, y; memcpy(&x, a + at, 8); memcpy(&y, b + at, 8); if (memcmp(&x, &y, 8) && !(x != x && y != y)) return "double"; }
  for (at = FBEG + 128; at < BUFN; at += 4) { float x, y; memcpy(&x, a + at, 4); memcpy(&y, b + at, 4); if (memcmp(&x, &y, 4) && !(x != x && y != y)) return "float"; }
  return nullptr;
}
void execute(Live &L, const char *what) {
  FCtx *f = me();
  uint8_t *want = (uint8_t *)guard_alloc(BUFN);
  for (int i = 0; i < FBEG; i++) want[i] = (uint8_t)draw(OP, 256);
  for (int i = 0; i < 16; i++) { double d = FLTS[draw(OP, NFLT)]; memcpy(want + FBEG + 8 * i, &d, 8); }
  for (int i = 0; i < 32; i++) { float d = (float)FLTS[draw(OP, NFLT - 1)]; memcpy(want + FBEG + 128 + 4 * i, &d, 4); }
  memcpy(f->buf, want, BUFN);
  sw a = INTS[draw(OP, NINT)], b = (sw)mix64(draw(OP, 1000));
  Interp I(L.p, want);
  if (g_step) { g_rec.clear(); g_recpos = 0; I.rec = &g_rec; }
  int64_t r = I.run(a, b);
  if (I.out) { guard_free(want); return; }
  f->trace = 0x1234;
  set_context("run %s code", what);
  sw g = ((sw(*)(void *, sw, sw))L.code)(f->buf, a, b);
  hit(P_RUN);
  int at;
  if (g != r) violation("result", "%s code returned %llx instead of %llx", what, (long long)g, (long long)r);
  if (f->trace != I.trace) violation("calls", "%s code made other calls than its instructions say", what);
  if (const char *d = differs(f->buf, want, at)) violation("effect", "%s code left a different %s at %d: %016llx instead of %016llx (last written by step %d)", what, d, at, (long long)*(uint64_t *)(f->buf + (at & ~7)), (long long)*(uint64_t *)(want + (at & ~7)), I.wr[at]);
  ilmix(fnv(want, FBEG) ^ (uint64_t)r);
  guard_free(want);
}
void drop(LiveP &L) { code_dying(L->code); sljit_free_code(L->code, nullptr); L.reset(); }

// ------------------------------------------------------------------ compiling
struct Faults { int64_t at = -1; bool all = false, exec = false; int user = -1; };
bool g_single;                                  // one fiber only: allocation accounting is exact
// calls after an error and after generation: nothing may happen
void idle_calls(Comp &m, int err) {
  sljit_compiler *c = m.c;
  if (sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 5) != err) violation("sticky error", "emitting after error %d gave another result", err);
  if (sljit_emit_label(c) || sljit_emit_jump(c, SLJIT_JUMP) || sljit_emit_const(c, SLJIT_MOV, SLJIT_R0, 0, 1) || sljit_emit_aligned_label(c, 3, nullptr)) violation("sticky error", "emitting after error %d gave an object", err);
  if (sljit_generate_code(c, 0, nullptr)) violation("sticky error", "code generated after error %d", err);
  uw sz = 1;
  if (sljit_serialize_compiler(c, 0, &sz) || sz) violation("sticky error", "serialized after error %d", err);
  if (sljit_get_compiler_error(c) != err) violation("sticky error", "error %d became %d", err, sljit_get_compiler_error(c));
}
LiveP finish_code(Prog &p, Comp &m, bool &err, const char *what) {
  FCtx *f = me();
  uint64_t r0 = f->nref;
  set_context("%s: generate", what);
  void *code = sljit_generate_code(m.c, 0, nullptr);
  int e = sljit_get_compiler_error(m.c);
  if (err) { if (code) violation("code after error", "%s: code generated after an error", what); return nullptr; }
  if (f->nref != r0 || e == SLJIT_ERR_EX_ALLOC_FAILED || e == SLJIT_ERR_ALLOC_FAILED) {
    if (f->nref == r0) violation("generate", "%s: generation reported error %d although nothing was refused", what, e);
    if (code) {
      // a refusal the library could work around
      if (e != SLJIT_ERR_COMPILED) violation("generate", "%s: code and error %d", what, e);
    } else {
      if (e != SLJIT_ERR_EX_ALLOC_FAILED && e != SLJIT_ERR_ALLOC_FAILED) violation("error code", "%s: generation failed with error %d after a refused allocation", what, e);
      err = true; return nullptr;
    }
  }
  if (!code || e != SLJIT_ERR_COMPILED) violation("generate", "%s: code %p, error %d", what, code, e);
  LiveP L(new Live);
  L->p = p; L->code = code;
  harvest(*L, m);
  code_born(code, L->size, what);
  fill_tables(*L, &m);
  code_changed(code);
  return L;
}
void emit_step(Prog &p, int k, Comp &m, bool &err, const char *what) {
  FCtx *f = me();
  const Step &s = p.s[k];
  uint64_t r0 = f->nref;
  set_context("%s: step %d kind %d op %x", what, k, s.t, s.op);
  bool ok = emit(p, s, m);
  int e = sljit_get_compiler_error(m.c);
  if (err) {
    if (e != SLJIT_ERR_ALLOC_FAILED) violation("sticky error", "error became %d at step %d kind %d", e, k, s.t);
    if (ok && s.t != T_SETLAB) violation("sticky error", "step %d kind %d succeeded after an error", k, s.t);
  } else if (f->nref != r0) {
    err = true;
    if (e != SLJIT_ERR_ALLOC_FAILED) violation("error lost", "allocation refused at step %d kind %d but the error is %d", k, s.t, e);
    if (ok) violation("error lost", "allocation refused at step %d kind %d but the call succeeded", k, s.t);
  } else if (e || !ok) violation("spurious error", "step %d kind %d op %x: error %d, result %d", k, s.t, s.op, e, ok);
  if (k % 16 == 15) yield_point("emit");
}
LiveP build(Prog &p, Faults ft, const char *what, bool nocode = false) {
  FCtx *f = me();
  size_t live0 = heap_live(D_SLJIT);
  Comp m; m.size(p);
  f->nalloc = 0; f->refuse_at = ft.at; f->refuse_all = ft.all; f->exec = ft.exec; f->fk = ft.all ? F_ALL : F_HEAP;
  uint64_t nref = f->nref;
  bool err = false;
  set_context("%s: create", what);
  m.c = sljit_create_compiler(nullptr);
  if (!m.c) {
    if (f->nref == nref) violation("create", "no compiler although memory was available");
    f->refuse_at = -1; f->exec = false;
    if (g_single && heap_live(D_SLJIT) != live0) violation("leak", "failed creation keeps %zu blocks", heap_live(D_SLJIT) - live0);
    return nullptr;
  }
  if (f->nref != nref) violation("create", "compiler created although an allocation was refused");
  for (int k = 0; k < (int)p.s.size(); k++) {
    if (k == ft.user && !err) { fired(F_USER); sljit_set_compiler_memory_error(m.c); err = true; if (sljit_get_compiler_error(m.c) != SLJIT_ERR_ALLOC_FAILED) violation("error code", "error set by the program not reported"); }
    emit_step(p, k, m, err, what);
  }
  if (!err && m.c->buf && m.c->buf->next) hit(P_BIG);
  LiveP L;
  if (!nocode) L = finish_code(p, m, err, what);
  if (err) idle_calls(m, sljit_get_compiler_error(m.c)); else if (L) idle_calls(m, SLJIT_ERR_COMPILED);
  set_context("%s: free", what);
  sljit_free_compiler(m.c);
  f->refuse_at = -1; f->exec = false;
  if (g_single && heap_live(D_SLJIT) != live0) violation("leak", "%s: %zu blocks kept after freeing the compiler%s: %s", what, heap_live(D_SLJIT) - live0, err ? " (after an error)" : "", heap_describe_live(0).c_str());
  return L;
}
void dump(const Prog &p) {
  static const char *N[] = {"ENTER","CTX","OP0","OP1","OP2","OP2U","OP2R","SHI","FOP1","FOP2","FOP2R","FSET64","FSET32","FCOPY","LABEL","ALABEL","JUMP","SETLAB","CMP","FCMP","OP2CMPZ","OPFLAGS","SELECT","FSELECT","CONST","ADDR","IJUMP","FENTER","FRET","CALLC","ICALLC","CALLF","RET","RETV","HINT","PRES0","PRELOC","PAIR","EMEM","FMEM","ALOAD","ASTORE","VMOV","VOP2","VREPL","VLANE","VLREP","VSIGN","VEXT","CUSTOM","TABADDR","RETC","TAILF","RETTO"};
  static const char *K[] = {"-","R","F","V","#","B","X","L"};
  for (size_t i = 0; i < p.s.size(); i++) {
    const Step &s = p.s[i];
    fprintf(stderr, "%4zu %-8s op %#x", i, N[s.t], s.op);
    for (auto &o : s.a) if (o.k) fprintf(stderr, "  %s r%d f%d sh%d tmp%d v%lld d%lld", K[o.k], o.r, o.form, o.sh, o.tmp, (long long)o.v, (long long)o.delta);
    fprintf(stderr, "  lab %d alt %d jmp %d x %d y %d v %lld d %g\n", s.lab, s.alt, s.jmp, s.x, s.y, (long long)s.v, s.d);
  }
}
Prog make_prog() {
  Prog p;
  static const int B[] = {8, 20, 40, 60, 100, 150, 250, 400, 800, 1500};
  Gen g(p, B[draw(OP, 9 + (draw(OP, 4) == 3))]);
  g.program();
  if (getenv("SIM_DUMP")) dump(p);
  return p;
}
void setup_page(FCtx &f) {
  f.buf = bufaddr(f.idx);
  void *q = mmap(f.buf, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (q != f.buf) harness_error("no buffer page");
}
void probe_features() {
  g_sse41 = sljit_has_cpu_feature(SLJIT_HAS_SIMD) != 0;
  g_avx2 = sljit_has_cpu_feature(SLJIT_HAS_AVX2) != 0;
  g_atomic = sljit_has_cpu_feature(SLJIT_HAS_ATOMIC) != 0;
}
void teardown() {
  sljit_free_unused_memory_exec();
  code_verify_all("end of run");
  if (heap_live(D_SLJIT)) violation("leak", "%zu blocks left at the end: %s", heap_live(D_SLJIT), heap_describe_live(0).c_str());
  if (exec_live_bytes()) violation("executable memory", "%zu bytes of executable memory left", exec_live_bytes());
}
void in_fibers(void (*body)()) {
  heapcfg.refuse = refuse_heap; exec_refuse = refuse_exec; exec_reuse = draw(OP, 2);
  probe_features();
  g_step = getenv("SIM_STEP") != nullptr;
  int nf = draw(OP, 3) == 2 ? 2 + draw(OP, 2) : 1;
  g_single = nf == 1;
  if (!g_single) g_step = false;
  static FCtx fs[4];
  if (nf == 1) { fs[0].idx = 0; setup_page(fs[0]); fctx[cur()] = &fs[0]; body(); fctx[cur()] = nullptr; }
  else {
    std::vector<int> ids;
    for (int i = 0; i < nf; i++) { fs[i].idx = i; setup_page(fs[i]); FCtx *f = &fs[i]; ids.push_back(spawn([f, body] { fctx[cur()] = f; body(); fctx[cur()] = nullptr; }, "compiler", 512 * 1024)); }
    for (int i : ids) join(i);
  }
  teardown();
}
void body_j01() {
  std::vector<LiveP> live;
  int n = 1 + draw(OP, 3);
  for (int it = 0; it < n; it++) {
    op_mark();
    Prog p = make_prog();
    logf("program %d steps %d labels", (int)p.s.size(), p.nlab);
    FCtx *f = me();
    int rounds = draw(FAULT, 4);
    uint64_t total = 0;
    if (rounds) { LiveP L = build(p, Faults(), "counting", draw(FAULT, 2)); if (L) drop(L); }
    total = f->nalloc;
    for (int r = 0; r < rounds; r++) {
      op_mark();
      Faults ft; std::string w;
      switch (draw(FAULT, 6)) {
        case 0: case 1: case 2: ft.at = draw(FAULT, total + 1); break;
        case 3: ft.at = draw(FAULT, total + 1); ft.all = true; break;
        case 4: ft.exec = true; break;
        default: ft.user = draw(FAULT, p.s.size() + 1); break;
      }
      LiveP L = build(p, ft, "faulty");
      if (L) { execute(*L, "faulty"); drop(L); }
    }
    LiveP L = build(p, Faults(), "normal");
    if (!L) violation("generate", "no code although memory was available");
    int ex = 1 + draw(OP, 3);
    for (int e = 0; e < ex; e++) { if (e) patch(*L); execute(*L, "normal"); yield_point("between runs"); }
    live.push_back(std::move(L));
    for (size_t i = 0; i < live.size(); i++) if (draw(OP, 3) == 0) execute(*live[i], "older");
    while (!live.empty() && draw(OP, 3) == 2) { size_t k = draw(OP, live.size()); drop(live[k]); live.erase(live.begin() + k); if (draw(OP, 2)) sljit_free_unused_memory_exec(); }
  }
  while (!live.empty()) { size_t k = draw(OP, live.size()); drop(live[k]); live.erase(live.begin() + k); }
}
// ------------------------------------------------------------------ serialization
struct Snap {
  std::vector<uint8_t> bytes, nodebug; int next = 0;
  std::vector<int> lab, jmp, con;                     // creation index of each object of the program, -1 before creation
  size_t nlab = 0;
  struct J { int kind; uw v; }; std::vector<J> j; size_t ncon = 0; bool broken = false;
};
Snap::J jump_state(sljit_jump *j) {
  Snap::J r{sljit_jump_is_mov_addr(j) ? 4 : 0, 0};
  if (sljit_jump_has_label(j)) { r.kind |= 1; r.v = sljit_get_label_index(sljit_jump_get_label(j)); }
  if (sljit_jump_has_target(j)) { r.kind |= 2; r.v = sljit_jump_get_target(j); }
  return r;
}
template <class T> int index_of(const std::vector<T *> &v, T *p) { if (!p) return -1; for (size_t i = 0; i < v.size(); i++) if (v[i] == p) return i; violation("lists", "an object created by the program is not in the compiler's list"); }
void lists(sljit_compiler *c, std::vector<sljit_label *> &l, std::vector<sljit_jump *> &j, std::vector<sljit_const *> &k) {
  for (auto *x = sljit_get_first_label(c); x; x = sljit_get_next_label(x)) { if (sljit_get_label_index(x) != l.size()) violation("lists", "label %zu has index %llu", l.size(), (unsigned long long)sljit_get_label_index(x)); l.push_back(x); }
  for (auto *x = sljit_get_first_jump(c); x; x = sljit_get_next_jump(x)) j.push_back(x);
  for (auto *x = sljit_get_first_const(c); x; x = sljit_get_next_const(x)) k.push_back(x);
}
bool serialize_once(Comp &m, int opts, std::vector<uint8_t> &out, const char *what) {
  FCtx *f = me();
  size_t live0 = heap_live(D_SLJIT); uint64_t r0 = f->nref;
  uw size = 77;
  uw *b = sljit_serialize_compiler(m.c, opts, &size);
  if (int e = sljit_get_compiler_error(m.c)) if (f->nref == r0 || e != SLJIT_ERR_ALLOC_FAILED) violation("serialize changes", "%s: serialization left error %d", what, e);
  if (f->nref != r0) {
    if (b || size) violation("serialize", "%s: serialization refused memory returned %p, size %llu", what, b, (unsigned long long)size);
    if (g_single && heap_live(D_SLJIT) != live0) violation("leak", "%s: failed serialization keeps memory", what);
    return false;
  }
  if (!b) violation("serialize", "%s: serialization failed although nothing was refused", what);
  if (g_single && heap_live(D_SLJIT) != live0 + 1) violation("leak", "%s: serialization created %zd blocks", what, (ssize_t)(heap_live(D_SLJIT) - live0));
  if (!size || size % sizeof(uw)) violation("serialize", "%s: size %llu", what, (unsigned long long)size);
  out.assign((uint8_t *)b, (uint8_t *)b + size);
  h_free(D_SLJIT, b);
  return true;
}
Snap snapshot(Prog &p, Comp &m, int next) {
  Snap s; s.next = next; FCtx *f = me();
  std::vector<sljit_label *> l; std::vector<sljit_jump *> j; std::vector<sljit_const *> k;
  lists(m.c, l, j, k);
  for (auto *x : m.lab) s.lab.push_back(index_of(l, x));
  for (auto *x : m.jmp) s.jmp.push_back(index_of(j, x));
  for (auto *x : m.con) s.con.push_back(index_of(k, x));
  s.nlab = l.size(); s.ncon = k.size();
  for (auto *x : j) s.j.push_back(jump_state(x));
  for (auto &x : s.j) if (!(x.kind & 3)) hit(P_LATE);
  set_context("serialize before step %d", next);
  if (draw(OP, 3) == 0) serialize_once(m, SLJIT_SERIALIZE_IGNORE_DEBUG, s.nodebug, "without debug information");
  serialize_once(m, 0, s.bytes, "full");
  if (draw(FAULT, 4) == 0) {
    f->nalloc = 0; f->refuse_at = 0; f->refuse_all = draw(FAULT, 2); f->fk = F_SER;
    std::vector<uint8_t> o;
    if (serialize_once(m, draw(FAULT, 2) ? SLJIT_SERIALIZE_IGNORE_DEBUG : 0, o, "refused")) harness_error("serialization made no allocation");
    f->refuse_at = -1;
    s.broken = sljit_get_compiler_error(m.c);          // an out-of-memory error ends this compilation like any other
    if (s.broken) idle_calls(m, SLJIT_ERR_ALLOC_FAILED);
  }
  return s;
}
sljit_compiler *deserialize(const std::vector<uint8_t> &b, size_t n) {
  uint8_t *q = (uint8_t *)guard_alloc(n ? n : 1);
  memcpy(q, b.data(), n);
  sljit_compiler *c = sljit_deserialize_compiler((uw *)q, n, 0, nullptr);
  if (memcmp(q, b.data(), n)) violation("restore", "the restored buffer was changed");
  memset(q, 0xee, n);                                  // the buffer is the caller's, it may vanish
  guard_free(q);
  return c;
}
void restore(Prog &p, Comp &m, const Snap &s) {
  FCtx *f = me();
  size_t live0 = heap_live(D_SLJIT);
  for (int t = draw(FAULT, 4); t > 0; t--) {
    std::vector<uint8_t> b = s.bytes; size_t n = b.size(); const char *w;
    f->nalloc = 0; uint64_t r0 = f->nref;
    switch (draw(FAULT, 6)) {
      case 0: n = draw(FAULT, n); w = "truncated"; fired(F_TRUNC); break;
      case 1: n -= 8 * (1 + draw(FAULT, std::min<size_t>(n / 8, 12))); w = "truncated near its end"; fired(F_TRUNC); break;
      case 2: { int at = draw(FAULT, 6); b[at] ^= 1 << draw(FAULT, 8); w = "of another signature or version"; fired(F_KIND); break; }
      case 3: if (s.nodebug.empty()) continue; b = s.nodebug; n = b.size(); w = "without debug information"; fired(F_KIND); break;
      default: f->refuse_at = draw(FAULT, 6); f->refuse_all = draw(FAULT, 2); f->fk = F_DES; w = "with memory refused"; break;
    }
    set_context("restore %s", w);
    sljit_compiler *c = deserialize(b, n);
    bool ref = f->refuse_at >= 0 && f->nref != r0, was = f->refuse_at >= 0;
    f->refuse_at = -1;
    if (was && !ref) {
      if (!c) violation("restore", "restore failed although nothing was refused");
      sljit_free_compiler(c);
    } else if (c) violation("restore", "a serialization %s (%zu of %zu bytes) was restored", w, n, b.size());
    if (g_single && heap_live(D_SLJIT) != live0) violation("leak", "restore %s keeps %zd blocks: %s", w, (ssize_t)(heap_live(D_SLJIT) - live0), heap_describe_live(0).c_str());
  }
  set_context("restore");
  m.size(p); m.rob_ok = false;
  m.c = deserialize(s.bytes, s.bytes.size());
  if (!m.c) violation("restore", "a complete serialization was not restored");
  if (sljit_get_compiler_error(m.c)) violation("restore", "restored with error %d", sljit_get_compiler_error(m.c));
  std::vector<sljit_label *> l; std::vector<sljit_jump *> j; std::vector<sljit_const *> k;
  lists(m.c, l, j, k);
  if (l.size() != s.nlab || j.size() != s.j.size() || k.size() != s.ncon) violation("restore", "%zu labels, %zu jumps, %zu constants restored of %zu, %zu, %zu", l.size(), j.size(), k.size(), s.nlab, s.j.size(), s.ncon);
  for (size_t i = 0; i < j.size(); i++) { auto a = jump_state(j[i]); if (a.kind != s.j[i].kind || a.v != s.j[i].v) violation("restore", "jump %zu restored as kind %d value %llx instead of kind %d value %llx", i, a.kind, (unsigned long long)a.v, s.j[i].kind, (unsigned long long)s.j[i].v); }
  for (size_t i = 0; i < s.lab.size(); i++) m.lab[i] = s.lab[i] < 0 ? nullptr : l[s.lab[i]];
  for (size_t i = 0; i < s.jmp.size(); i++) m.jmp[i] = s.jmp[i] < 0 ? nullptr : j[s.jmp[i]];
  for (size_t i = 0; i < s.con.size(); i++) m.con[i] = s.con[i] < 0 ? nullptr : k[s.con[i]];
  hit(P_RESTORED);
}
void body_j02() {
  int n = 1 + draw(OP, 2);
  for (int it = 0; it < n; it++) {
    op_mark();
    Prog p = make_prog();
    int N = p.s.size();
    logf("program %d steps %d labels", N, p.nlab);
    FCtx *f = me(); f->nalloc = 0; f->refuse_at = -1; f->exec = false;
    size_t live0 = heap_live(D_SLJIT);
    std::vector<int> cuts; for (int i = 1 + draw(OP, 3); i > 0; i--) cuts.push_back(draw(OP, N + 1));
    std::sort(cuts.begin(), cuts.end());
    std::vector<Snap> kept;
    std::vector<LiveP> codes;
    int restored = 0;
    // one continuation: from step k to the end; the process may die at the cuts
    auto cont = [&](Comp &m, int k, size_t ci, Snap *last, const char *what) {
      bool err = false;
      for (;;) {
        while (ci < cuts.size() && cuts[ci] < k) ci++;
        while (ci < cuts.size() && cuts[ci] == k) {
          ci++; op_mark();
          Snap s = snapshot(p, m, k);
          int how = draw(OP, 4);
          if (how < 2 || s.broken) {
            fired(F_CRASH); sljit_free_compiler(m.c); m.c = nullptr; yield_point("dead");
            restore(p, m, s); if (++restored > 1) hit(P_MULTI); what = "restored";
          } else if (how == 2 && kept.size() < 2) kept.push_back(s);
          if (last) *last = s;
        }
        if (k == N) break;
        emit_step(p, k++, m, err, what);
      }
      LiveP L = finish_code(p, m, err, what);
      if (L) idle_calls(m, SLJIT_ERR_COMPILED);
      sljit_free_compiler(m.c); m.c = nullptr;
      return L;
    };
    Comp m; m.size(p);
    m.c = sljit_create_compiler(nullptr);
    if (!m.c) violation("create", "no compiler although memory was available");
    codes.push_back(cont(m, 0, 0, nullptr, "original"));
    while (!kept.empty()) {
      Snap s = kept.back(); kept.pop_back();
      op_mark();
      // an attempt that runs out of memory, then another from the same buffer
      if (draw(FAULT, 3) == 0) {
        restore(p, m, s);
        bool err = false;
        f->nalloc = 0; f->refuse_at = draw(FAULT, 3); f->refuse_all = draw(FAULT, 2); f->exec = draw(FAULT, 2); f->fk = F_HEAP;
        for (int k = s.next; k < N; k++) emit_step(p, k, m, err, "failing continuation");
        LiveP L = finish_code(p, m, err, "failing continuation");
        f->refuse_at = -1; f->exec = false;
        if (err) idle_calls(m, sljit_get_compiler_error(m.c));
        sljit_free_compiler(m.c); m.c = nullptr;
        if (L) drop(L);
      }
      restore(p, m, s);
      if (++restored > 1) hit(P_MULTI);
      codes.push_back(cont(m, s.next, cuts.size(), nullptr, "continued copy"));
    }
    if (g_single && heap_live(D_SLJIT) != live0) violation("leak", "%zd blocks kept: %s", (ssize_t)(heap_live(D_SLJIT) - live0), heap_describe_live(0).c_str());
    for (size_t i = 0; i < codes.size(); i++) for (int e = 0; e < 2; e++) { if (e) patch(*codes[i]); execute(*codes[i], i ? "restored" : "first"); yield_point("between runs"); }
    while (!codes.empty()) { size_t k = draw(OP, codes.size()); drop(codes[k]); codes.erase(codes.begin() + k); }
  }
}
void run_j02() { in_fibers(body_j02); finish(ST_OK); }
static Reg r02({"J02", run_j02, "exploration",
  "a run counts when a restored compilation was completed and its code ran; distinct by results of executed code and interleaving",
  80000, 1600000,
  "sljitSerialize.c, sljitLir.c and the x86-64 back end, argument checks on; generated code is executed",
  "malloc/free and mmap (simulated), process death (the compiler object is gone, only the buffer survives), the C functions called by generated code",
  {"x86-64 back end only", "buffers are truncated or of another kind, not corrupted inside", "floating point results that are not numbers are compared as a class"}});
void run_j01() { in_fibers(body_j01); finish(ST_OK); }
static Reg r01({"J01", run_j01, "exploration",
  "a run counts when its generated code ran or a refusal was survived; distinct by results of executed code and interleaving",
  60000, 1200000,
  "sljitLir.c and its x86-64 back end with the executable allocator, argument checks on; generated code is executed",
  "malloc/free and mmap (simulated), the C functions called by generated code",
  {"x86-64 back end only", "floating point results that are not numbers are compared as a class"}});
}  // namespace
