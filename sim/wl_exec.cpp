// T02: the executable-memory allocator under interleaving threads and refused mappings.
#include "redirect.h"
#include <cstring>
#include <map>
#include <vector>
extern "C" {
#include "sljitLir.h"
}
using namespace sim;
namespace {
const int F_MMAP = fault_kind("mmap refused");
const int P_REUSE = probe_kind("allocation served from released memory");
const int P_MERGE = probe_kind("allocation needed merged neighbours");
const int P_NULL = probe_kind("allocation failed");
const int P_BIG = probe_kind("allocation larger than a chunk");
const int P_UNMAP = probe_kind("chunk returned to system");
const int P_CONT = probe_kind("switch inside allocator");

const int F_HEAP = fault_kind("heap allocation refused");
const int P_STACK = probe_kind("growable stack resized");

struct B { uint8_t *p; size_t n; uint32_t tag; };
std::map<uint8_t *, B> live;
int refuse_pct, refuse_burst;
uint64_t refused, mapped;
bool refuse(size_t) {
  mapped++;
  if (refuse_burst > 0) { refuse_burst--; refused++; fired(F_MMAP); return true; }
  if (refuse_pct && (int)draw(FAULT, 100) >= 100 - refuse_pct) {
    refused++; fired(F_MMAP);
    refuse_burst = draw(FAULT, 3);
    return true;
  }
  return false;
}
void pattern(const B &b, bool check) {
  uint32_t x = b.tag * 2654435761u + 1;
  size_t step = b.n > 4096 ? 61 : 1;
  for (size_t i = 0; i + 1 < b.n; i += step) {
    x = x * 1664525 + 1013904223;
    if (!check) b.p[i] = x >> 24;
    else if (b.p[i] != (uint8_t)(x >> 24)) violation("exec-content", "block %u of %zu bytes changed at offset %zu while live", b.tag, b.n, i);
  }
  x ^= 0x55;
  if (!check) b.p[b.n - 1] = x; else if (b.p[b.n - 1] != (uint8_t)x) violation("exec-content", "block %u of %zu bytes changed at its end while live", b.tag, b.n);
}
void verify_all() { for (auto &x : live) pattern(x.second, true); }

struct Chunk { uint8_t *p; size_t n; };
// largest gap between live blocks inside one mapped chunk
size_t largest_gap(const std::vector<Chunk> &cs, bool *between) {
  size_t best = 0;
  for (auto &c : cs) {
    uint8_t *at = c.p; bool had = false;
    for (auto it = live.lower_bound(c.p); it != live.end() && it->first < c.p + c.n; ++it) {
      size_t g = it->first - at;
      if (g > best) { best = g; *between = had; }
      at = it->second.p + it->second.n;
      had = true;
    }
    size_t g = c.p + c.n - at;
    if (g > best) { best = g; *between = had; }
  }
  return best;
}
uint32_t tagc;
size_t draw_size(uint32_t maxscale) {
  switch (draw(OP, 7)) {
    case 0: return 1 + draw(OP, 128);
    case 1: return 48 + draw(OP, 40);
    case 2: return 1 + draw(OP, 2000);
    case 3: return 1 + draw(OP, 20000);
    case 4: return 65536 - 200 + draw(OP, 400);
    case 5: hit(P_BIG); return 1 + draw(OP, maxscale);
    default: return 30000 + draw(OP, 36000);
  }
}
void do_alloc(size_t n, bool solo) {
  uint64_t r0 = refused, m0 = mapped;
  bool btw = false;
  size_t gap = 0;
  if (solo) {
    std::vector<Chunk> cs;
    exec_chunks([&](uint8_t *p, size_t k) { cs.push_back({p, k}); });
    gap = largest_gap(cs, &btw);
  }
  uint64_t s0 = slot->switches;
  uint8_t *p = (uint8_t *)sljit_malloc_exec(n);
  if (slot->switches != s0) hit(P_CONT);
  if (!p) {
    hit(P_NULL);
    logf("alloc %zu -> null", n);
    if (refused == r0) violation("exec-spurious-failure", "allocation of %zu bytes failed although the system refused nothing", n);
    if (solo && n + 160 <= gap) violation("exec-no-reuse", "allocation of %zu bytes failed although %zu contiguous released bytes exist", n, gap);
    return;
  }
  if (solo && mapped != m0 && n + 160 <= gap)
    violation("exec-no-reuse", "allocation of %zu bytes mapped new memory although %zu contiguous bytes are released in an existing chunk", n, gap);
  if (solo && mapped == m0) { hit(P_REUSE); if (btw) hit(P_MERGE); }
  if ((uintptr_t)p % 8) violation("exec-align", "allocation of %zu bytes is not aligned to the word size", n);
  if (!exec_contains(p, n)) violation("exec-range", "allocation of %zu bytes is not inside mapped executable memory", n);
  auto it = live.upper_bound(p);
  if (it != live.end() && p + n > it->first) violation("exec-overlap", "allocation of %zu bytes overlaps live block %u", n, it->second.tag);
  if (it != live.begin()) { --it; if (it->first + it->second.n > p) violation("exec-overlap", "allocation of %zu bytes overlaps live block %u", n, it->second.tag); }
  B b{p, n, ++tagc};
  live[p] = b;
  pattern(b, false);
  logf("t%d alloc %zu -> block %u", cur(), n, b.tag);
}
void do_free(std::map<uint8_t *, B>::iterator it) {
  B b = it->second;
  pattern(b, true);
  live.erase(it);
  memset(b.p, 0xDD, b.n);
  uint64_t s0 = slot->switches;
  logf("t%d free block %u", cur(), b.tag);
  sljit_free_exec(b.p);
  if (slot->switches != s0) hit(P_CONT);
}
std::map<uint8_t *, B>::iterator pick_live() {
  auto it = live.begin();
  std::advance(it, draw(OP, live.size()));
  return it;
}
// ---- growable stacks: each belongs to one thread
struct St { sljit_stack *s; uint32_t tag; };
uint8_t spat(const St &t, const uint8_t *p) { return (uint8_t)(((size_t)(t.s->end - p) * 2654435761u + t.tag * 40503u) >> 9); }
void stack_write(const St &t, uint8_t *from, uint8_t *to) { for (uint8_t *p = from; p < to; p++) *p = spat(t, p); }
void stack_check(const St &t) {
  size_t n = t.s->end - t.s->start, step = n > 20000 ? 7 : 1;
  for (uint8_t *p = t.s->start; p < t.s->end; p += step)
    if (*p != spat(t, p)) violation("stack-content", "stack %u of %zu bytes lost its byte %zu before its end", t.tag, n, (size_t)(t.s->end - p));
}
void stack_free(St t) { stack_check(t); logf("t%d stack %u freed", cur(), t.tag); sljit_free_stack(t.s, nullptr); }
size_t stack_size() { switch (draw(OP, 4)) { case 0: return draw(OP, 200); case 1: return 4096 * (1 + draw(OP, 12)) - 2 + draw(OP, 4); case 2: return draw(OP, 70000); default: return draw(OP, 9000); } }
void stack_op(std::vector<St> &sts) {
  if (sts.empty() || (sts.size() < 3 && draw(OP, 4) == 3)) {
    size_t a = stack_size(), b = draw(OP, 8) == 7 ? stack_size() : a + draw(OP, 2) * stack_size();
    uint64_t r0 = refused;
    sljit_stack *s = sljit_allocate_stack(a, b, nullptr);
    bool bad = a < 1 || a > b;
    logf("t%d stack of %zu up to %zu: %s", cur(), a, b, s ? "ok" : "null");
    if (s && bad) violation("stack-arguments", "a stack of %zu bytes that may grow to %zu was created", a, b);
    if (!s) { if (!bad && refused == r0) violation("exec-spurious-failure", "a stack of %zu bytes that may grow to %zu was not created although the system refused nothing", a, b); return; }
    if (s->end - s->start != (ptrdiff_t)a || s->top != s->end || s->min_start > s->start || (size_t)(s->end - s->min_start) < b || (size_t)(s->end - s->min_start) >= b + 4096)
      violation("stack-shape", "a stack of %zu bytes that may grow to %zu has %td used, %td in all", a, b, s->end - s->start, s->end - s->min_start);
    St t{s, ++tagc}; stack_write(t, s->start, s->end);
    sts.push_back(t);
    return;
  }
  size_t i = draw(OP, sts.size()); St t = sts[i];
  uint32_t k = draw(OP, 8);
  if (k == 7) { stack_free(t); sts.erase(sts.begin() + i); return; }
  size_t all = t.s->end - t.s->min_start;
  uint8_t *old = t.s->start, *at = k < 5 ? t.s->min_start + draw(OP, all) : k == 5 ? (uint8_t *)((uintptr_t)(t.s->min_start + draw(OP, all)) & ~4095ull) : draw(OP, 2) ? t.s->end + draw(OP, 3) : t.s->min_start - 1 + draw(OP, 2);
  bool ok = at >= t.s->min_start && at < t.s->end;
  uint8_t *r = sljit_stack_resize(t.s, at);
  logf("t%d stack %u resized to %td: %s", cur(), t.tag, t.s->end - at, r ? "ok" : "no");
  if (ok ? r != at || t.s->start != at : r != nullptr || t.s->start != old) violation("stack-resize", "resizing stack %u of at most %zu bytes to %td bytes returned %s", t.tag, all, t.s->end - at, r ? "success" : "failure");
  if (t.s->start < old) stack_write(t, t.s->start, old);
  hit(P_STACK);
  stack_check(t);
}
void check_trimmed() {
  exec_chunks([&](uint8_t *p, size_t k) {
    auto it = live.lower_bound(p);
    if (it == live.end() || it->first >= p + k) violation("exec-trim", "a chunk of %zu bytes without any live block stays mapped after trimming", k);
  });
}
void client(int ops, bool solo, uint32_t maxbig, uint32_t fw, bool stacks) {
  std::vector<St> sts;
  for (int i = 0; i < ops; i++) {
    op_mark();
    if (stacks && draw(OP, 3) == 2) { stack_op(sts); ilmix(sts.size()); yield_point("client"); continue; }
    uint32_t k = draw(OP, 12);
    if (k < fw && !live.empty()) do_free(pick_live());
    else if (k == 11 && draw(OP, 3) == 1) {
      uint64_t x0 = exec_live_bytes();
      logf("t%d trim", cur());
      sljit_free_unused_memory_exec();
      if (exec_live_bytes() < x0) hit(P_UNMAP);
      if (solo) check_trimmed();
    }
    else if (k == 10) { if (solo) verify_all(); else if (!live.empty()) pattern(pick_live()->second, true); }
    else do_alloc(draw_size(maxbig), solo);
    ilmix(live.size());
    yield_point("client");
  }
  for (auto &t : sts) stack_free(t);
}
void run() {
  heapcfg.refuse = [](Domain, const char *, size_t) { if (refuse_pct && (int)draw(FAULT, 100) >= 100 - refuse_pct) { refused++; fired(F_HEAP); return true; } return false; };
  exec_refuse = refuse;
  exec_reuse = draw(FAULT, 2);
  uint32_t f = draw(FAULT, 4);
  refuse_pct = f == 0 ? 0 : f == 1 ? 5 : f == 2 ? 20 : 60;
  int phases = 1 + draw(OP, 3);
  bool stacks = draw(OP, 2);
  uint32_t maxbig = draw(OP, 4) == 1 ? 3000000 : 300000;
  logf("refuse %d%% phases %d", refuse_pct, phases);
  for (int ph = 0; ph < phases; ph++) {
    int nt = draw(OP, 4);
    uint32_t fw = 3 + draw(OP, 5);
    if (nt == 0) { set_sched({0, false}); client(10 + draw(OP, 40), true, maxbig, fw, stacks); }
    else {
      uint32_t q[] = {0, 4, 12, 40, 150};
      set_sched({q[draw(SCHED, 5)], draw(SCHED, 3) == 1});
      std::vector<int> t;
      for (int i = 0; i <= nt; i++) { int ops = 3 + draw(OP, 15); t.push_back(spawn([=] { client(ops, false, maxbig, fw, stacks); }, "client")); }
      for (int x : t) join(x);
      set_sched({0, false});
    }
    verify_all();
    op_mark();
    if (draw(OP, 3) == 1) { sljit_free_unused_memory_exec(); check_trimmed(); verify_all(); }
    // sequential probes of merging: release runs of neighbours, then ask for their sum
    for (int k = draw(OP, 3); k > 0 && live.size() >= 2; k--) {
      auto it = pick_live();
      int run = 1 + draw(OP, 4);
      while (run-- && it != live.end()) { auto n = std::next(it); do_free(it); it = n; }
      do_alloc(draw_size(maxbig), true);
      verify_all();
    }
  }
  op_mark();
  // release everything in a drawn order, trim: nothing may remain
  while (!live.empty()) do_free(pick_live());
  sljit_free_unused_memory_exec();
  if (exec_live_bytes()) violation("exec-leak", "%zu bytes stay mapped after everything was released and trimmed", exec_live_bytes());
  if (heap_live(D_SLJIT)) violation("exec-leak", "%zu blocks left after every stack was freed", heap_live(D_SLJIT));
  refuse_pct = 0; refuse_burst = 0;
  do_alloc(100 + draw(OP, 1000), true);
  while (!live.empty()) do_free(pick_live());
  sljit_free_unused_memory_exec();
  if (exec_live_bytes()) violation("exec-leak", "memory stays mapped after everything was released and trimmed");
}
Reg reg({"T02", run, "exploration", "event log of a completed run with at least two operations (hash-distinct)", 40000, 700000,
  "sljit executable allocator (sljitExecAllocatorPosix/Core, sljitUtils), compiled from /repo with memory-access instrumentation",
  "mmap/munmap, pthread mutex, thread scheduler", {"threads are simulated on one core: sequentially consistent memory", "growable stacks: a page handed back with madvise loses its content at once; the default (non W^X) posix allocator is exercised"}});
}
