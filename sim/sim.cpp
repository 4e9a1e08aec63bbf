#include "sim.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <algorithm>

namespace sim {

Slot *slot;
static bool g_replay;
static uint64_t g_rng[NSTREAM];
static uint32_t g_rpos[NSTREAM];
static uint32_t g_rlen[NSTREAM];
static std::string g_ctx;
uint64_t max_steps = 3000000;
uint64_t now_us = 0;

uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}

void begin_run(Slot *s, uint64_t seed, bool replay) {
  slot = s;
  g_replay = replay;
  s->status = ST_NONE;
  s->key[0] = s->msg[0] = 0;
  s->loghash = 0xcbf29ce484222325ull;
  s->ilhash = 0x1234;
  s->steps = s->switches = s->simtime_us = s->ops = 0;
  memset(s->faults, 0, sizeof s->faults);
  memset(s->probes, 0, sizeof s->probes);
  s->nmarks = 0;
  s->loglen = 0;
  for (int i = 0; i < NSTREAM; i++) {
    g_rng[i] = mix64(seed * 3 + i + 1);
    g_rpos[i] = 0;
    g_rlen[i] = replay ? s->tapelen[i] : 0;
    if (!replay) s->tapelen[i] = 0;
  }
}
bool replaying() { return g_replay; }

uint32_t draw(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  if (g_replay) {
    uint32_t p = g_rpos[s]++;
    return p < g_rlen[s] ? slot->tape[s][p] % n : 0;
  }
  if (slot->tapelen[s] >= TAPE_CAP) return 0;
  g_rng[s] += 0x9e3779b97f4a7c15ull;
  uint64_t z = g_rng[s];
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  z ^= z >> 31;
  uint32_t v = (uint32_t)((z >> 32) * (uint64_t)n >> 32);
  slot->tape[s][slot->tapelen[s]++] = v;
  return v;
}
bool chance(Stream s, uint32_t num, uint32_t den) { return draw(s, den) >= den - num; }
int64_t range(Stream s, int64_t lo, int64_t hi) { return lo + draw(s, (uint32_t)(hi - lo + 1)); }
void op_mark() {
  slot->ops++;
  if (slot->nmarks < MARK_CAP) {
    for (int i = 0; i < NSTREAM; i++)
      slot->marks[slot->nmarks][i] = g_replay ? std::min(g_rpos[i], g_rlen[i]) : slot->tapelen[i];
    slot->nmarks++;
  }
}

// ---- reporting -----------------------------------------------------------
static const char *g_fname[NKIND], *g_pname[NKIND];
static int g_nf, g_np;
int fault_kind(const char *n) { for (int i = 0; i < g_nf; i++) if (!strcmp(g_fname[i], n)) return i; if (g_nf >= (int)NKIND) abort(); g_fname[g_nf] = n; return g_nf++; }
int probe_kind(const char *n) { for (int i = 0; i < g_np; i++) if (!strcmp(g_pname[i], n)) return i; if (g_np >= (int)NKIND) abort(); g_pname[g_np] = n; return g_np++; }
const char *fault_name(int i) { return g_fname[i]; }
const char *probe_name(int i) { return g_pname[i]; }
int nfaults() { return g_nf; }
int nprobes() { return g_np; }
void fired(int k) { slot->faults[k]++; }
void hit(int k) { slot->probes[k]++; }
void ilmix(uint64_t v) { slot->ilhash = mix64(slot->ilhash ^ v); }

static void emit(const char *b, size_t n) {
  slot->loghash = fnv(b, n, slot->loghash);
  if (slot->loglen + n + 1 < LOG_CAP) {
    memcpy(slot->log + slot->loglen, b, n);
    slot->loglen += n;
    slot->log[slot->loglen] = 0;
  }
}
void logf(const char *fmt, ...) {
  char b[2048];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, a);
  va_end(a);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  emit(b, n);
  static int echo = -1;
  if (echo < 0) echo = getenv("SIM_ECHO") ? 1 : 0;
  if (echo) { if (write(2, b, n)) {} }
}
void set_context(const char *fmt, ...) {
  char b[512];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  g_ctx = b;
}
void finish(int st) {
  slot->simtime_us = now_us;
  for (int i = 0; i < NSTREAM; i++) slot->used[i] = g_replay ? std::min(g_rpos[i], g_rlen[i]) : slot->tapelen[i];
  slot->status = st;
  _exit(0);
}
void violation(const char *key, const char *fmt, ...) {
  char b[1800];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  snprintf(slot->key, sizeof slot->key, "%s", key);
  snprintf(slot->msg, sizeof slot->msg, "%s%s%s", b, g_ctx.empty() ? "" : " | while: ", g_ctx.c_str());
  logf("VIOLATION %s: %s", key, slot->msg);
  finish(ST_VIOL);
}
void harness_error(const char *fmt, ...) {
  va_list a;
  va_start(a, fmt);
  vsnprintf(slot->msg, sizeof slot->msg, fmt, a);
  va_end(a);
  logf("HARNESS ERROR %s", slot->msg);
  finish(ST_ERROR);
}

// ---- heap ----------------------------------------------------------------
HeapCfg heapcfg;
static const uint64_t PG = 4096;
static uint8_t *const GA = (uint8_t *)0x200000000000ull;   // guarded arena
static const uint64_t GA_SIZE = 1ull << 44;
static uint8_t *const PA = (uint8_t *)0x1f0000000000ull;   // packed arena
static const uint64_t PA_SIZE = 1ull << 28;
static uint8_t *const XA = (uint8_t *)0x1e0000000000ull;   // exec arena
static const uint64_t XA_SIZE = 1ull << 32;
static uint64_t ga_top, pa_top, xa_top;
static int g_guard_mode = -1;   // 0 all guarded, 1 random, 2 only large

struct Blk { uint8_t *p; size_t n; uint64_t vend; Domain d; uint8_t live, guarded, counted; uint32_t seq; };
static std::vector<Blk> blks;                 // creation order
static std::map<uint8_t *, uint32_t> byaddr;  // start -> index
static uint64_t g_live[NDOM];
static uint64_t g_count[NDOM];

static void heap_map() {
  auto m = [](uint8_t *a, uint64_t n, int prot) {
    void *r = mmap(a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != a) { fprintf(stderr, "sim: cannot map arena\n"); exit(3); }
  };
  m(GA, GA_SIZE, PROT_NONE);
  m(PA, PA_SIZE, PROT_READ | PROT_WRITE);
  m(XA, XA_SIZE, PROT_NONE);
}
struct HeapInit { HeapInit() { heap_map(); } } heap_init_;

static inline uint64_t up(uint64_t x, uint64_t a) { return (x + a - 1) / a * a; }
static Blk *find(void *p) {
  auto it = byaddr.find((uint8_t *)p);
  return it == byaddr.end() ? nullptr : &blks[it->second];
}
static const size_t POISON_MAX = 1 << 18;
static void poison(uint8_t *p, size_t n, uint8_t v) {
  if (n <= POISON_MAX) { memset(p, v, n); return; }
  memset(p, v, POISON_MAX / 2);
  memset(p + n - POISON_MAX / 2, v, POISON_MAX / 2);
}
static void canaries(Blk &b, bool check) {
  // trailing slack and a leading red zone
  uint8_t *e = b.p + b.n, *ee = (uint8_t *)up((uint64_t)e, 16);
  uint8_t *s = b.p - 16;
  if (!check) {
    memset(s, 0xFB, 16);
    if (ee > e) memset(e, 0xFD, ee - e);
    if (!b.guarded) memset(ee, 0xFD, 16);
    return;
  }
  for (uint8_t *q = s; q < b.p; q++)
    if (*q != 0xFB) violation("heap-underflow", "write before heap block #%u (size %zu) at offset %ld", b.seq, b.n, (long)(q - b.p));
  if (!b.guarded) ee += 16;
  for (uint8_t *q = e; q < ee; q++)
    if (*q != 0xFD) violation("heap-overflow", "write past heap block #%u (size %zu) at offset +%ld", b.seq, b.n, (long)(q - e));
}
static Blk &raw_alloc(Domain d, size_t n, bool counted, bool forceguard) {
  if (g_guard_mode < 0) g_guard_mode = draw(FAULT, 4);
  bool g = forceguard || n >= 2048 || g_guard_mode == 3 || (g_guard_mode == 1 && draw(FAULT, 2));
  Blk b;
  b.n = n; b.d = d; b.live = 1; b.counted = counted; b.guarded = g; b.seq = blks.size();
  if (g) {
    uint64_t body = up(n, 16) + 16;
    uint64_t need = up(body, PG);
    uint64_t slack = (n >= 65536 && n % PG == 0) ? (n >= (1u << 28) ? 0 : (64ull << 20)) : 0;
    if (ga_top + need + slack + PG > GA_SIZE) harness_error("guarded arena exhausted");
    uint8_t *base = GA + ga_top;
    if (mprotect(base, need, PROT_READ | PROT_WRITE)) harness_error("mprotect failed %d", errno);
    b.p = base + need - up(n, 16);
    b.vend = (uint64_t)(base + need + slack);
    ga_top += need + slack + PG;
  } else {
    uint64_t need = up(n, 16) + 32;
    if (pa_top + need > PA_SIZE) harness_error("packed arena exhausted");
    b.p = PA + pa_top + 16;
    b.vend = 0;
    pa_top += need;
  }
  canaries(b, false);
  byaddr[b.p] = blks.size();
  blks.push_back(b);
  if (counted) g_live[d]++;
  return blks.back();
}
static void raw_free(Blk &b) {
  canaries(b, true);
  b.live = 0;
  if (b.counted) g_live[b.d]--;
  if (b.guarded) {
    uint8_t *lo = (uint8_t *)((uint64_t)(b.p - 16) / PG * PG);
    uint8_t *hi = (uint8_t *)up((uint64_t)(b.p + b.n), PG);
    if (hi == lo) hi = lo + PG;
    if (hi - lo > 65536) madvise(lo, hi - lo, MADV_DONTNEED);
    mprotect(lo, hi - lo, PROT_NONE);
  } else {
    memset(b.p, 0xDD, b.n);
  }
}
size_t heap_live(Domain d) { return g_live[d]; }
size_t heap_live_total() { size_t t = 0; for (auto x : g_live) t += x; return t; }
uint64_t heap_seq() { return blks.size(); }
uint64_t alloc_count(Domain d) { return g_count[d]; }
std::string heap_describe_live(uint64_t from) {
  std::string r; int k = 0;
  for (auto &b : blks) if (b.live && b.counted && b.seq >= from) {
    char t[64]; snprintf(t, sizeof t, "#%u:%zu ", b.seq, b.n); r += t;
    if (++k > 12) { r += "..."; break; }
  }
  return r;
}
size_t heap_block_size(const void *p) { Blk *b = find((void *)p); return b && b->live ? b->n : 0; }
bool heap_range_live(const void *p, size_t n) {
  auto it = byaddr.upper_bound((uint8_t *)p);
  if (it == byaddr.begin()) return false;
  --it;
  Blk &b = blks[it->second];
  return b.live && (uint8_t *)p >= b.p && (uint8_t *)p + n <= b.p + b.n;
}
static void heap_final_check() {
  for (auto &b : blks) {
    if (b.live) canaries(b, true);
    else if (!b.guarded)
      for (size_t i = 0; i < b.n; i++)
        if (b.p[i] != 0xDD) violation("use-after-free", "released heap block #%u (size %zu) was written at offset %zu", b.seq, b.n, i);
  }
}
void heap_check() { heap_final_check(); }

void *h_malloc(Domain d, size_t n) {
  g_count[d]++;
  if (heapcfg.refuse && heapcfg.refuse(d, "malloc", n)) { errno = ENOMEM; return nullptr; }
  Blk &b = raw_alloc(d, n, true, false);
  poison(b.p, n, 0xA5);
  return b.p;
}
void *h_calloc(Domain d, size_t n, size_t m) {
  g_count[d]++;
  size_t t;
  if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return nullptr; }
  if (heapcfg.refuse && heapcfg.refuse(d, "calloc", t)) { errno = ENOMEM; return nullptr; }
  if (t > (1ull << 33)) { errno = ENOMEM; return nullptr; }
  Blk &b = raw_alloc(d, t, true, false);
  if (!b.guarded) memset(b.p, 0, t);   // guarded pages are fresh
  return b.p;
}
void h_free(Domain d, void *p) {
  if (!p) return;
  Blk *b = find(p);
  if (!b) violation("bad-free", "free of a pointer that is not a heap block");
  if (!b->live) violation("double-free", "heap block #%u (size %zu) freed twice", b->seq, b->n);
  raw_free(*b);
}
void *h_realloc(Domain d, void *p, size_t n) {
  if (!p) return h_malloc(d, n);
  Blk *b = find(p);
  if (!b) violation("bad-free", "realloc of a pointer that is not a heap block");
  if (!b->live) violation("use-after-free", "realloc of released heap block #%u (size %zu)", b->seq, b->n);
  if (n == 0) { raw_free(*b); return nullptr; }
  g_count[d]++;
  if (heapcfg.refuse && heapcfg.refuse(d, "realloc", n)) { errno = ENOMEM; return nullptr; }
  if (n > (1ull << 33)) { errno = ENOMEM; return nullptr; }
  canaries(*b, true);
  bool inplace = false;
  if (b->guarded && b->n >= 65536 && n % PG == 0 && b->n % PG == 0 && n >= b->n &&
      (uint64_t)b->p + n <= b->vend) inplace = draw(FAULT, 3) == 1;
  if (n == b->n && !inplace) inplace = draw(FAULT, 2) == 1;
  if (inplace) {
    if (n > b->n) {
      mprotect(b->p + b->n, n - b->n, PROT_READ | PROT_WRITE);
      poison(b->p + b->n, n - b->n, 0xA5);
      b->n = n;
    }
    return b->p;
  }
  uint32_t oi = b - &blks[0];
  Blk &nb = raw_alloc(b->d, n, b->counted, false);
  uint8_t *np = nb.p;
  Blk &ob = blks[oi];
  size_t c = std::min(ob.n, n);
  memcpy(np, ob.p, c);
  if (n > c) poison(np + c, n - c, 0xA5);
  raw_free(ob);
  return np;
}
void *guard_alloc(size_t n) { Blk &b = raw_alloc(D_OTHER, n, false, true); return b.p; }
void guard_free(void *p) { Blk *b = find(p); if (b && b->live) raw_free(*b); }

// ---- executable memory ---------------------------------------------------
bool (*exec_refuse)(size_t);
bool exec_reuse;
struct XMap { uint8_t *p; size_t n; bool live, x; };
static std::vector<XMap> xmaps;
size_t exec_live_bytes() { size_t t = 0; for (auto &x : xmaps) if (x.live) t += x.n; return t; }
uint64_t exec_maps() { return xmaps.size(); }
void *x_mmap(void *a, size_t n, int prot, int flags, int fd, long off) {
  if (exec_refuse && exec_refuse(n)) { errno = ENOMEM; return MAP_FAILED; }
  n = up(n, PG);
  if (n > (1ull << 31)) { errno = ENOMEM; return MAP_FAILED; }
  uint8_t *p = nullptr;
  if (exec_reuse && draw(FAULT, 2)) {
    for (auto &x : xmaps) if (!x.live && x.n == n) { p = x.p; x.n = 0; break; }
  }
  if (!p) {
    if (draw(FAULT, 2)) xa_top += 65536;       // leave a gap, or be adjacent
    p = XA + xa_top;
    xa_top += n;
    if (xa_top > XA_SIZE) harness_error("exec arena exhausted");
  }
  if (mprotect(p, n, PROT_READ | PROT_WRITE | PROT_EXEC)) harness_error("mprotect exec");
  xmaps.push_back({p, n, true, (prot & PROT_EXEC) != 0});
  return p;
}
int x_munmap(void *a, size_t n) {
  n = up(n, PG);
  for (auto &x : xmaps)
    if (x.live && x.p == a) {
      if (x.n != n) violation("exec-unmap-size", "executable chunk of %zu bytes unmapped with size %zu", x.n, n);
      x.live = false;
      madvise(x.p, n, MADV_DONTNEED);
      mprotect(x.p, n, PROT_NONE);
      return 0;
    }
  violation("exec-bad-unmap", "munmap of %zu bytes that is not a live executable chunk", n);
}
int x_mprotect(void *a, size_t n, int prot) { return 0; }
bool exec_contains(const void *p, size_t n) {
  for (auto &x : xmaps) if (x.live && (uint8_t *)p >= x.p && (uint8_t *)p + n <= x.p + x.n) return true;
  return false;
}
void exec_chunks(const std::function<void(uint8_t *, size_t)> &f) { for (auto &x : xmaps) if (x.live && x.x) f(x.p, x.n); }
struct Code { size_t n; uint64_t sum; std::string tag; };
static std::map<uint8_t *, Code> codes;
void code_born(void *c, size_t n, const char *tag) {
  auto it = codes.upper_bound((uint8_t *)c);
  if (it != codes.end() && (uint8_t *)c + n > it->first) violation("exec-overlap", "new code (%zu bytes) overlaps live code", n);
  if (it != codes.begin()) { --it; if (it->first + it->second.n > (uint8_t *)c) violation("exec-overlap", "new code (%zu bytes) overlaps live code", n); }
  if (!exec_contains(c, n)) violation("exec-range", "generated code of %zu bytes is not inside executable memory", n);
  codes[(uint8_t *)c] = {n, fnv(c, n), tag};
}
void code_changed(void *c) {
  auto it = codes.find((uint8_t *)c);
  if (it == codes.end()) harness_error("code_changed of unknown code");
  it->second.sum = fnv(it->first, it->second.n);
}
void code_dying(void *c) {
  auto it = codes.find((uint8_t *)c);
  if (it == codes.end()) violation("code-bad-free", "release of executable code that is not live (freed twice or never generated)");
  if (fnv(it->first, it->second.n) != it->second.sum) violation("code-changed", "generated code was modified while live");
  memset(it->first, 0xCC, it->second.n);
  codes.erase(it);
}
void code_verify_all(const char *when) {
  for (auto &c : codes) {
    if (!exec_contains(c.first, c.second.n)) violation("code-unmapped", "live code was unmapped (%s)", when);
    if (fnv(c.first, c.second.n) != c.second.sum) violation("code-changed", "live code was modified (%s)", when);
  }
}
size_t code_live() { return codes.size(); }
bool code_is_live(const void *c) { return codes.count((uint8_t *)c) != 0; }

// ---- context switch ------------------------------------------------------
extern "C" void sim_switch_asm(void **save, void *to);
asm(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
struct Stack { uint8_t *base; size_t n; };
static std::vector<Stack> stack_pool;
static std::vector<std::pair<uint8_t *, size_t>> all_stacks;
static uint64_t st_top = 0;
static uint8_t *const SA = (uint8_t *)0x1d0000000000ull;
static Stack stack_new(size_t n) {
  n = up(n, PG);
  for (size_t i = 0; i < stack_pool.size(); i++)
    if (stack_pool[i].n == n) { Stack s = stack_pool[i]; stack_pool.erase(stack_pool.begin() + i); return s; }
  uint8_t *p = SA + st_top;
  st_top += n + 16 * PG;
  void *r = mmap(p, n + 16 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != p) harness_error("stack map");
  mprotect(p + 16 * PG, n, PROT_READ | PROT_WRITE);
  all_stacks.push_back({p, n + 16 * PG});
  return {p + 16 * PG, n};
}
extern "C" void sim_entry_thunk();
asm(R"(
.text
sim_entry_thunk:
  movq %r12,%rdi
  xorl %ebp,%ebp
  call *%r13
  ud2
)");
static void *stack_prepare(Stack s, void (*fn)(void *), void *arg) {
  uint64_t *top = (uint64_t *)((uint64_t)(s.base + s.n) & ~15ull);
  top -= 2;                    // keep alignment at call
  uint64_t *sp = top;
  *--sp = (uint64_t)&sim_entry_thunk;  // ret
  *--sp = 0;                   // rbp
  *--sp = 0;                   // rbx
  *--sp = (uint64_t)arg;       // r12
  *--sp = (uint64_t)fn;        // r13
  *--sp = 0;                   // r14
  *--sp = 0;                   // r15
  uint32_t mx = 0x1f80; uint16_t cw = 0x037f;
  *--sp = 0;
  memcpy(sp, &mx, 4);
  memcpy((char *)sp + 4, &cw, 2);
  return sp;
}

// ---- coroutines ----------------------------------------------------------
struct Co { std::function<void()> f; Stack st; void *sp, *back; Co *prev; bool done; };
static Co *g_co;  // innermost running coroutine of the current fiber

// ---- fibers --------------------------------------------------------------
struct Fiber {
  std::function<void()> f; std::string name; Stack st; void *sp = nullptr;
  enum { RUN, BLOCKED, DONE } state = RUN;
  Co *co = nullptr; uint32_t prio = 0; std::vector<int> joiners;
};
static std::vector<Fiber *> fibers;
static int g_cur = -1;
static void *g_main_sp;
static SchedCfg g_sched;
static uint64_t g_countdown;
static std::vector<uint64_t> pct_points;
bool no_preempt = false;
static std::function<bool()> g_deadlock;

int cur() { return g_cur; }
static void reset_countdown() {
  if (!g_sched.quantum) { g_countdown = ~0ull; return; }
  // mixture of scales: uniform in 1..2q, sometimes very short
  uint32_t k = draw(SCHED, g_sched.quantum * 2);
  g_countdown = k ? k : ~0ull;
  if (!k) g_countdown = g_sched.quantum * 8ull + 1;
}
void set_sched(SchedCfg c) { g_sched = c; reset_countdown(); }

static void fiber_main(void *a) {
  Fiber *f = (Fiber *)a;
  f->f();
  f->state = Fiber::DONE;
  for (int j : f->joiners) wake(j);
  f->joiners.clear();
  block();
  abort();
}
int spawn(std::function<void()> f, const char *name, size_t stack) {
  Fiber *x = new Fiber;
  x->f = std::move(f);
  x->name = name;
  x->st = stack_new(stack);
  x->sp = stack_prepare(x->st, fiber_main, x);
  x->prio = g_sched.pct ? draw(SCHED, 1u << 20) : 0;
  fibers.push_back(x);
  return fibers.size() - 1;
}
static void switch_to(int n) {
  if (n == g_cur) return;
  Fiber *o = fibers[g_cur], *t = fibers[n];
  slot->switches++;
  ilmix(((uint64_t)slot->steps << 8) ^ n);
  o->co = g_co;
  g_cur = n;
  g_co = t->co;
  int e = errno;
  sim_switch_asm(&o->sp, t->sp);
  errno = e;
}
static void runnable(std::vector<int> &r) {
  r.clear();
  for (size_t i = 0; i < fibers.size(); i++) if (fibers[i]->state == Fiber::RUN) r.push_back(i);
}
static int pick(bool cur_ok) {
  static std::vector<int> r;
  runnable(r);
  if (r.empty()) return -1;
  // fairness: whoever waits behind a spinning thread gets its turn in the end
  static uint32_t picks;
  bool fair = (++picks & 1023) == 0 && r.size() > 1;
  if (fair && g_sched.pct) {
    int low = r[0]; uint32_t top = 0;
    for (int x : r) { if (fibers[x]->prio < fibers[low]->prio) low = x; top = std::max(top, fibers[x]->prio); }
    fibers[low]->prio = top + 1;
  } else if (fair) {
    size_t k = 0;
    while (k < r.size() && r[k] <= g_cur) k++;
    return r[k % r.size()];
  }
  if (g_sched.pct) {
    int best = r[0];
    for (int x : r) if (fibers[x]->prio > fibers[best]->prio) best = x;
    return best;
  }
  // index 0 = keep running the current fiber (or the lowest id)
  if (cur_ok) {
    for (size_t i = 0; i < r.size(); i++) if (r[i] == g_cur) { std::swap(r[0], r[i]); break; }
  }
  return r[draw(SCHED, r.size())];
}
static void step() {
  if (++slot->steps > max_steps) violation("no-progress", "no end after %llu scheduling steps", (unsigned long long)max_steps);
}
void yield_point(const char *what) {
  step();
  if (g_cur < 0 || no_preempt) return;
  if (g_sched.pct && draw(SCHED, 16) == 1) fibers[g_cur]->prio = draw(SCHED, 1u << 20);
  int n = pick(true);
  switch_to(n);
}
void preempt() {
  if (g_cur < 0 || no_preempt || g_sched.quantum == 0) return;
  step();
  if (--g_countdown == 0) {
    reset_countdown();
    if (g_sched.pct) fibers[g_cur]->prio = draw(SCHED, 1u << 20);
    switch_to(pick(true));
  }
}
void block() {
  Fiber *f = fibers[g_cur];
  if (f->state == Fiber::RUN) f->state = Fiber::BLOCKED;
  for (;;) {
    step();
    int n = pick(false);
    if (n >= 0) { switch_to(n); return; }
    if (g_deadlock && g_deadlock()) continue;
    std::string s;
    for (auto *x : fibers) if (x->state == Fiber::BLOCKED) s += x->name + " ";
    violation("deadlock", "all threads of control are blocked: %s", s.c_str());
  }
}
void wake(int i) { if (fibers[i]->state == Fiber::BLOCKED) fibers[i]->state = Fiber::RUN; }
bool fiber_done(int i) { return fibers[i]->state == Fiber::DONE; }
void join(int i) {
  while (fibers[i]->state != Fiber::DONE) { fibers[i]->joiners.push_back(g_cur); block(); }
}
size_t fibers_alive() { size_t n = 0; for (auto *f : fibers) if (f->state != Fiber::DONE) n++; return n; }
void on_deadlock(std::function<bool()> f) { g_deadlock = f; }
void run_main(std::function<void()> f) {
  spawn([f] { f(); heap_final_check(); finish(ST_OK); }, "main", 1 << 20);
  g_cur = 0;
  sim_switch_asm(&g_main_sp, fibers[0]->sp);
}

static void co_main(void *a) {
  Co *c = (Co *)a;
  c->f();
  c->done = true;
  for (;;) co_suspend();
}
Co *co_new(std::function<void()> f, size_t stack) {
  Co *c = new Co;
  c->f = std::move(f);
  c->st = stack_new(stack);
  c->sp = stack_prepare(c->st, co_main, c);
  c->done = false;
  c->prev = nullptr;
  return c;
}
void co_resume(Co *c) {
  c->prev = g_co;
  g_co = c;
  sim_switch_asm(&c->back, c->sp);
}
void co_suspend() {
  Co *c = g_co;
  g_co = c->prev;
  sim_switch_asm(&c->sp, c->back);
}
bool co_done(Co *c) { return c->done; }
void co_free(Co *c) { if (c->done) stack_pool.push_back(c->st); delete c; }

void mtx_lock(Mutex &m, const char *what) {
  yield_point(what);
  if (m.owner == g_cur) violation("self-deadlock", "thread locks a mutex it already holds (%s)", what);
  while (m.owner != -1) { m.waiters.push_back(g_cur); block(); }
  m.owner = g_cur;
}
bool mtx_trylock(Mutex &m) {
  yield_point("trylock");
  if (m.owner != -1) return false;
  m.owner = g_cur;
  return true;
}
void mtx_unlock(Mutex &m, const char *what) {
  if (m.owner != g_cur) violation("bad-unlock", "mutex unlocked by a thread that does not hold it (%s)", what);
  m.owner = -1;
  auto w = m.waiters;
  m.waiters.clear();
  for (int x : w) wake(x);
  yield_point(what);
}

// ---- crash handling ------------------------------------------------------
static void describe_addr(uint8_t *a, char *o, size_t on) {
  for (auto &s : all_stacks)
    if (a >= s.first && a < s.first + 16 * PG) { snprintf(o, on, "native stack overflow"); return; }
  if (a >= GA && a < GA + GA_SIZE) {
    auto it = byaddr.upper_bound(a);
    if (it != byaddr.begin()) {
      auto jt = it; --jt;
      Blk &b = blks[jt->second];
      long off = a - b.p;
      if (!b.live && off < (long)up(b.n, PG) + 4096) { snprintf(o, on, "use of released heap block #%u (size %zu) at offset %ld", b.seq, b.n, off); return; }
      if (off < (1l << 34)) { snprintf(o, on, "access past heap block #%u (size %zu) at offset %ld", b.seq, b.n, off); return; }
    }
    if (it != byaddr.end()) { Blk &b = blks[it->second]; snprintf(o, on, "access %ld bytes before heap block #%u (size %zu)", (long)(b.p - a), b.seq, b.n); return; }
  }
  if (a >= XA && a < XA + XA_SIZE) { snprintf(o, on, "address in executable arena"); return; }
  if ((uint64_t)a < 65536) { snprintf(o, on, "null pointer access at %#lx", (long)a); return; }
  snprintf(o, on, "wild address");
}
static void on_sig(int sig, siginfo_t *si, void *uc) {
  char d[256] = "";
  uint8_t *rip = (uint8_t *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  const char *where = (rip >= XA && rip < XA + XA_SIZE) ? "generated code" : "engine or host code";
  if (sig == SIGSEGV || sig == SIGBUS) describe_addr((uint8_t *)si->si_addr, d, sizeof d);
  if (rip >= XA && rip < XA + XA_SIZE && (sig == SIGTRAP || (sig == SIGSEGV && si->si_addr == rip)))
    snprintf(d, sizeof d, "executing released or foreign code");
  if (getenv("SIM_ECHO")) { char t[128]; int n = snprintf(t, sizeof t, "[sig %d rip %p addr %p]\n", sig, rip, si->si_addr); if (write(2, t, n)) {} }
  if (sig == SIGVTALRM) violation("hang", "no end within the processor time limit");
  violation(sig == SIGABRT ? "abort" : "crash", "signal %d (%s) in %s: %s", sig, strsignal(sig), where, d);
}
void install_signals() {
  static uint8_t alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_sigaction = on_sig;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, nullptr);
  itimerval tv{};
  tv.it_value.tv_sec = 20;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

static std::vector<Workload> *g_wl;
void register_workload(const Workload &w) { if (!g_wl) g_wl = new std::vector<Workload>; g_wl->push_back(w); }
std::vector<Workload> &workloads() { if (!g_wl) g_wl = new std::vector<Workload>; return *g_wl; }
}  // namespace sim
