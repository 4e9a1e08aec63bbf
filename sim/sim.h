// Deterministic simulator core: seeded choices, simulated heap / executable
// memory / threads / clock, violation reporting.  One run = one forked child.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace sim {

enum Stream { OP = 0, SCHED = 1, FAULT = 2, NSTREAM = 3 };
static const uint32_t TAPE_CAP = 1 << 16;
static const uint32_t MARK_CAP = 4096;
static const uint32_t LOG_CAP = 1 << 18;
static const uint32_t NKIND = 320;

enum Status { ST_NONE = 0, ST_OK = 1, ST_TRUNC = 2, ST_VIOL = 3, ST_ERROR = 4 };

struct Slot {                       // shared between worker and run
  int status;
  char key[128];
  char msg[2048];
  uint64_t loghash, ilhash, steps, switches, simtime_us, ops;
  uint32_t faults[NKIND], probes[NKIND];
  uint32_t tapelen[NSTREAM];
  uint32_t used[NSTREAM];               // consumed in replay
  uint32_t tape[NSTREAM][TAPE_CAP];
  uint32_t nmarks;
  uint32_t marks[MARK_CAP][NSTREAM];   // tape positions at op boundaries
  uint32_t loglen;
  char log[LOG_CAP];
};
extern Slot *slot;

// ---- choices -------------------------------------------------------------
uint32_t draw(Stream s, uint32_t n);          // uniform 0..n-1 (0 if n<=1)
bool chance(Stream s, uint32_t num, uint32_t den);  // 0 on tape = false
inline uint32_t opd(uint32_t n) { return draw(OP, n); }
inline bool opc(uint32_t num, uint32_t den) { return chance(OP, num, den); }
int64_t range(Stream s, int64_t lo, int64_t hi);
void begin_run(Slot *s, uint64_t seed, bool replay);
void op_mark();                                // boundary between operations
bool replaying();

// ---- reporting -----------------------------------------------------------
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void violation(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish(int status);
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void truncated() { finish(ST_TRUNC); }
int fault_kind(const char *name);              // registered at static init
int probe_kind(const char *name);
void fired(int fk);
void hit(int pk);
const char *fault_name(int i); const char *probe_name(int i);
int nfaults(); int nprobes();
void ilmix(uint64_t v);                        // interleaving / state signature
void set_context(const char *fmt, ...);        // what is being done (for crash reports)

// ---- heap ----------------------------------------------------------------
enum Domain { D_PW = 0, D_SLJIT = 1, D_REGEX = 2, D_SYSLIB = 3, D_OTHER = 4, NDOM = 5 };
struct HeapCfg {
  // decides whether a given allocation is refused (set by workload)
  bool (*refuse)(Domain d, const char *fn, size_t size) = nullptr;
  bool move_always = true;          // realloc moves
};
extern HeapCfg heapcfg;
void *h_malloc(Domain d, size_t n);
void *h_calloc(Domain d, size_t n, size_t m);
void *h_realloc(Domain d, void *p, size_t n);
void h_free(Domain d, void *p);
size_t heap_live(Domain d);                    // number of live blocks
size_t heap_live_total();
uint64_t heap_seq();                           // id of next block
std::string heap_describe_live(uint64_t from_seq); // sizes/ids of live blocks
size_t heap_block_size(const void *p);         // 0 if not a live block start
bool heap_range_live(const void *p, size_t n); // inside one live block
void *guard_alloc(size_t n);                   // harness buffer, end-aligned to guard page (not counted)
void guard_free(void *p);
uint64_t alloc_count(Domain d);                // allocations attempted

// ---- executable memory ---------------------------------------------------
extern bool (*exec_refuse)(size_t size);
extern bool exec_reuse;                        // mmap may hand out a released range again
size_t exec_live_bytes();                      // mapped and not unmapped
void *x_mmap(void *a, size_t n, int prot, int flags, int fd, long off);
int x_munmap(void *a, size_t n);
int x_mprotect(void *a, size_t n, int prot);
bool exec_contains(const void *p, size_t n);
void exec_chunks(const std::function<void(uint8_t *, size_t)> &f);
uint64_t exec_maps();

// generated code tracking (plain builds of pwart / regex)
void code_born(void *code, size_t size, const char *tag);
void code_changed(void *code);                 // patched by the workload on purpose
void code_dying(void *code);                   // checks & poisons
void code_verify_all(const char *when);
void choose_cpu();                             // some runs have an older processor
size_t code_live();
bool code_is_live(const void *code);

// ---- fibers --------------------------------------------------------------
int spawn(std::function<void()> f, const char *name, size_t stack = 256 * 1024);
int cur();
void yield_point(const char *what = nullptr);  // a scheduling point (always offers a switch)
void preempt();                                // memory-access scheduling point
void block();                                  // current fiber waits until wake()
void wake(int fid);
bool fiber_done(int fid);
void join(int fid);
size_t fibers_alive();
struct SchedCfg { uint32_t quantum = 0; /* 0: no preemption */ bool pct = false; };
void set_sched(SchedCfg c);
extern bool no_preempt;
extern uint64_t max_steps;
void on_deadlock(std::function<bool()> f);     // return true if it made progress
void run_main(std::function<void()> f);        // runs f as fiber 0

// low level coroutine used by workloads (not scheduled)
struct Co;
Co *co_new(std::function<void()> f, size_t stack = 128 * 1024);
void co_resume(Co *c);                         // from any fiber
void co_suspend();                             // inside a coroutine
bool co_done(Co *c);
void co_free(Co *c);

// ---- clock ---------------------------------------------------------------
extern uint64_t now_us;

// ---- sync primitives used by SUT seams ------------------------------------
struct Mutex { int owner = -1; std::vector<int> waiters; };
void mtx_lock(Mutex &m, const char *what);
bool mtx_trylock(Mutex &m);
void mtx_unlock(Mutex &m, const char *what);

// ---- workloads -----------------------------------------------------------
struct Workload {
  const char *id;
  void (*run)();
  const char *level;
  const char *rule;                 // what distinct_nontrivial counts
  uint64_t quick_runs, thorough_runs;
  const char *real_parts, *stub_parts;
  std::vector<const char *> assumptions;
};
void register_workload(const Workload &w);
struct Reg { Reg(const Workload &w) { register_workload(w); } };

uint64_t mix64(uint64_t x);
uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
void heap_check();
}  // namespace sim
