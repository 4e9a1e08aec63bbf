// The outside world as the system under test sees it.  build.sh renames the
// external symbols of each system object to the names defined here.
#include "sim.h"
#include "redirect.h"
#include <sys/mman.h>
#include <errno.h>
#include <pthread.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <map>
#include <vector>
#include <string>
extern "C" {
#include "sljitLir.h"
}
using namespace sim;

// ---- heap: one set of names per system object -----------------------------
static const Domain DOMS[] = {D_PW, D_SLJIT, D_REGEX, D_SYSLIB};
#define HEAPFUNCS(P, D) \
  extern "C" void *P##_malloc(size_t n) { preempt(); return h_malloc(D, n); } \
  extern "C" void *P##_calloc(size_t n, size_t m) { preempt(); return h_calloc(D, n, m); } \
  extern "C" void *P##_realloc(void *p, size_t n) { preempt(); return h_realloc(D, p, n); } \
  extern "C" void P##_free(void *p) { preempt(); h_free(D, p); } \
  extern "C" char *P##_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)h_malloc(D, n); if (r) memcpy(r, s, n); return r; } \
  extern "C" char *P##_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *r = (char *)h_malloc(D, n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
HEAPFUNCS(simpw, D_PW)
HEAPFUNCS(simsl, D_SLJIT)
HEAPFUNCS(simrx, D_REGEX)
HEAPFUNCS(simsy, D_SYSLIB)
HEAPFUNCS(simrn, D_OTHER)

// ---- the processor -------------------------------------------------------------
// The library asks the processor what it can do and remembers the answer; a run
// may take some of it away, as on an older machine.
extern "C" uint32_t cpu_feature_list __attribute__((weak));
static const int P_OLD = probe_kind("older processor");
namespace sim {
void choose_cpu() {
  int k = draw(OP, 3);
  if (k < 2) return;
  int m = draw(OP, 64);
  sljit_has_cpu_feature(SLJIT_HAS_AVX2);                  // asks now, so that the answer below stands
  if (!&cpu_feature_list || !cpu_feature_list) return;
  uint32_t off = 0;
  if (m & 1) off |= 0x08;                                 // no LZCNT
  if (m & 2) off |= 0x10;                                 // no TZCNT
  if (m & 4) off |= 0x80;                                 // no AVX2
  if ((m & 12) == 12) off |= 0x40;                        // no AVX either
  if ((m & 28) == 28) off |= 0x04;                        // nor SSE4.1
  if (m & 32) off |= 0x20;                                // no CMOV
  cpu_feature_list &= ~off;
  hit(P_OLD);
}
}

// ---- generated code ---------------------------------------------------------
int code_refusals_seen;
#define CODEFUNCS(P, T) \
  extern "C" void *P##_sljit_generate_code(struct sljit_compiler *c, sljit_s32 o, void *d) { \
    void *r = sljit_generate_code(c, o, d); \
    if (r) code_born(r, c->executable_size, T); \
    return r; } \
  extern "C" void P##_sljit_free_code(void *c, void *d) { if (c) code_dying(c); sljit_free_code(c, d); }
CODEFUNCS(simpw, "wasm")
CODEFUNCS(simrx, "regex")

// ---- process ----------------------------------------------------------------
extern "C" void simio_exit(int c) { violation("exit", "the library ended the process with exit(%d)", c); }
extern "C" void simio_abort() { violation("abort", "the library aborted the process"); }
extern "C" void simio___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { violation("abort", "assertion failed: %s", e); }
int sim_prints;                                   // messages for the user
extern "C" int simio_printf(const char *f, ...) { sim_prints++; return 0; }
extern "C" int simio_vprintf(const char *f, va_list) { return 0; }
extern "C" int simio_puts(const char *) { sim_prints++; return 0; }
extern "C" int simio_putchar(int) { return 0; }
extern "C" int simio_fprintf(void *, const char *, ...) { return 0; }
extern "C" int simio_vfprintf(void *, const char *, va_list) { return 0; }
extern "C" int simio_fputs(const char *, void *) { return 0; }
extern "C" int simio_fputc(int c, void *) { return c; }
extern "C" int simio_putc(int c, void *) { return c; }
extern "C" int simio_perror(const char *) { return 0; }

// ---- memory -----------------------------------------------------------------
extern "C" void *simio_memcpy(void *d, const void *s, size_t n) {
  preempt();
  if (n >= 64) { memcpy(d, s, n / 2); preempt(); memcpy((char *)d + n / 2, (const char *)s + n / 2, n - n / 2); return d; }
  return memcpy(d, s, n);
}
extern "C" void *simio_memmove(void *d, const void *s, size_t n) { preempt(); return memmove(d, s, n); }
extern "C" void *simio_memset(void *d, int c, size_t n) { preempt(); return memset(d, c, n); }
extern "C" void *simio_mmap(void *a, size_t n, int prot, int flags, int fd, long off) { preempt(); return x_mmap(a, n, prot, flags, fd, off); }
extern "C" int simio_munmap(void *a, size_t n) { preempt(); return x_munmap(a, n); }
extern "C" int simio_mprotect(void *a, size_t n, int p) { preempt(); return x_mprotect(a, n, p); }
extern "C" int simio_madvise(void *a, size_t n, int) { return madvise(a, n, MADV_DONTNEED); }
extern "C" int simio_posix_madvise(void *a, size_t n, int) { return 0; }

// ---- threads ----------------------------------------------------------------
static std::map<void *, Mutex> mutexes;
extern "C" int simio_pthread_mutex_init(void *m, const void *) { mutexes[m] = Mutex(); return 0; }
extern "C" int simio_pthread_mutex_destroy(void *m) { mutexes.erase(m); return 0; }
extern "C" int simio_pthread_mutex_lock(void *m) { preempt(); mtx_lock(mutexes[m], "pthread mutex"); return 0; }
extern "C" int simio_pthread_mutex_trylock(void *m) { preempt(); return mtx_trylock(mutexes[m]) ? 0 : EBUSY; }
extern "C" int simio_pthread_mutex_unlock(void *m) { mtx_unlock(mutexes[m], "pthread mutex"); preempt(); return 0; }
static std::map<void *, int> onces;
extern "C" int simio_pthread_once(void *o, void (*f)(void)) {
  preempt();
  int &s = onces[o];
  if (s == 2) return 0;
  if (s == 1) { while (onces[o] != 2) yield_point("once"); return 0; }
  s = 1;
  f();
  onces[o] = 2;
  return 0;
}
extern "C" int simio_sched_yield() { yield_point("sched_yield"); return 0; }
extern "C" int simio_usleep(unsigned us) { now_us += us; yield_point("usleep"); return 0; }
extern "C" int simio_nanosleep(const timespec *t, timespec *) { now_us += t->tv_sec * 1000000 + t->tv_nsec / 1000; yield_point("nanosleep"); return 0; }
extern "C" int simio_clock_gettime(int, timespec *t) { t->tv_sec = now_us / 1000000; t->tv_nsec = now_us % 1000000 * 1000; return 0; }
extern "C" time_t simio_time(time_t *p) { time_t t = now_us / 1000000; if (p) *p = t; return t; }

// ---- compiler instrumentation (gcc -fsanitize=thread calls) -----------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void *) { preempt(); } void __tsan_write##n(void *) { preempt(); } \
  void __tsan_unaligned_read##n(void *) { preempt(); } void __tsan_unaligned_write##n(void *) { preempt(); } \
  void __tsan_volatile_read##n(void *) { preempt(); } void __tsan_volatile_write##n(void *) { preempt(); } \
  void __tsan_read_write##n(void *) { preempt(); } void __tsan_unaligned_read_write##n(void *) { preempt(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *, size_t) { preempt(); }
void __tsan_write_range(void *, size_t) { preempt(); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(n, T) \
  T __tsan_atomic##n##_load(const volatile T *p, int) { preempt(); return *p; } \
  void __tsan_atomic##n##_store(volatile T *p, T v, int) { preempt(); *p = v; preempt(); } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { preempt(); T o = *p; *p = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { preempt(); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { preempt(); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { preempt(); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { preempt(); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { preempt(); T o = *p; *p = o ^ v; return o; } \
  T __tsan_atomic##n##_fetch_nand(volatile T *p, T v, int) { preempt(); T o = *p; *p = ~(o & v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { preempt(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { preempt(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { preempt(); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
}
