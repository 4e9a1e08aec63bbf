#include "redirect.h"
#include "simuv.h"
#include <algorithm>
#include <cstring>
using namespace sim;
SimUv simuv;
static const int F_THREAD = fault_kind("thread start refused"), F_SPUR = fault_kind("spurious wakeup"), F_TMO = fault_kind("timed wait ran out"), F_DL = fault_kind("library or symbol not found"), F_ENV = fault_kind("environment refused"), F_INIT = fault_kind("mutex or condition refused");
static const int P_LATE = probe_kind("new thread ran before its creator got its id"), P_BUSY = probe_kind("lock contended"), P_SIG = probe_kind("signal woke a waiting thread"), P_LOST = probe_kind("signal without a waiting thread");
static UvRec &rec(const char *op, void *h = nullptr, void *h2 = nullptr) { auto &v = simuv.hist[cur()]; v.emplace_back(); v.back().op = op; v.back().h = h; v.back().h2 = h2; return v.back(); }
static UvMutex *mut(void *p, const char *op) {
  auto it = simuv.mutexes.find(p);
  if (it == simuv.mutexes.end() || !it->second->alive) violation("uv-handle", "%s on something that is not a mutex", op);
  return it->second;
}
static UvCond *cnd(void *p, const char *op) {
  auto it = simuv.conds.find(p);
  if (it == simuv.conds.end() || !it->second->alive) violation("uv-handle", "%s on something that is not a condition", op);
  return it->second;
}
static bool init_refused() { if (!simuv.init_refuse_pct || (int)draw(FAULT, 100) < 100 - simuv.init_refuse_pct) return false; fired(F_INIT); return true; }
static void storage(void *p, size_t n, const char *op) { if (!heap_range_live(p, n)) violation("uv-storage", "%s on memory too small for it", op); memset(p, 0x6d, n); }
bool SimUv::woken(int f) {
  for (auto &c : conds) {
    auto &w = c.second->waiting;
    auto it = std::find(w.begin(), w.end(), f);
    if (it != w.end()) { w.erase(it); fired(F_SPUR); wake(f); return true; }
  }
  return false;
}
extern "C" {
unsigned int uv_version(void) { rec("version"); return UV_VERSION_HEX; }
const char *uv_version_string(void) { return "sim"; }
const char *uv_strerror(int) { return "error"; }
const char *uv_err_name(int) { return "ERR"; }
int uv_thread_create(uv_thread_t *tid, uv_thread_cb entry, void *arg) {
  yield_point("thread create");
  if (simuv.refuse_pct && (int)draw(FAULT, 100) >= 100 - simuv.refuse_pct) {
    fired(F_THREAD); simuv.refused++;
    int e = draw(FAULT, 2) ? UV_ENOMEM : UV_EAGAIN;
    rec("thread_create", arg).res = e;
    return e;
  }
  int id = spawn([entry, arg] { entry(arg); logf("thread ended"); }, "uv thread", 512 * 1024);
  simuv.threads.push_back(id);
  rec("thread_create", arg).n = id;
  bool late = draw(SCHED, 2);                    // the id may be stored after the new thread started
  if (!late) *tid = id;
  yield_point("thread created");
  if (late) { if (fiber_done(id)) hit(P_LATE); memcpy((void *)tid, &id, sizeof id); volatile uv_thread_t *v = tid; *v = id; }
  return 0;
}
int uv_thread_create_ex(uv_thread_t *tid, const uv_thread_options_t *, uv_thread_cb entry, void *arg) { return uv_thread_create(tid, entry, arg); }
int uv_thread_join(uv_thread_t *tid) { join((int)*tid); return 0; }
uv_thread_t uv_thread_self(void) { return cur(); }
int uv_thread_equal(const uv_thread_t *a, const uv_thread_t *b) { return *a == *b; }
void uv_once(uv_once_t *g, void (*cb)(void)) { if (!*(int *)g) { *(int *)g = 1; cb(); } }
int uv_mutex_init(uv_mutex_t *m) {
  yield_point("mutex init");
  storage(m, sizeof *m, "mutex_init");
  if (simuv.mutexes.count(m) && simuv.mutexes[m]->alive) violation("uv-handle", "a mutex is initialised twice");
  { UvRec &r = rec("mutex_init"); r.out = m; if (init_refused()) return r.res = UV_ENOMEM; }
  simuv.mutexes[m] = new UvMutex;
  return 0;
}
int uv_mutex_init_recursive(uv_mutex_t *m) { return uv_mutex_init(m); }
void uv_mutex_destroy(uv_mutex_t *m) {
  yield_point("mutex destroy");
  UvMutex *x = mut(m, "mutex_destroy");
  if (x->m.owner >= 0 || !x->m.waiters.empty()) violation("uv-handle", "a mutex in use is destroyed");
  x->alive = false;
  rec("mutex_destroy", m);
}
void uv_mutex_lock(uv_mutex_t *m) {
  UvMutex *x = mut(m, "mutex_lock");
  if (x->m.owner >= 0) hit(P_BUSY);
  mtx_lock(x->m, "mutex_lock");
  if (!x->alive) violation("uv-handle", "a mutex was destroyed while a thread waited for it");
  rec("mutex_lock", m);
}
int uv_mutex_trylock(uv_mutex_t *m) {
  UvMutex *x = mut(m, "mutex_trylock");
  yield_point("trylock");
  int r = x->m.owner == cur() ? UV_EBUSY : mtx_trylock(x->m) ? 0 : UV_EBUSY;
  if (r) hit(P_BUSY);
  rec("mutex_trylock", m).res = r;
  return r;
}
void uv_mutex_unlock(uv_mutex_t *m) {
  UvMutex *x = mut(m, "mutex_unlock");
  if (x->m.owner != cur()) violation("uv-unlock", "a thread unlocks a mutex it does not hold");
  rec("mutex_unlock", m);
  mtx_unlock(x->m, "mutex_unlock");
}
int uv_cond_init(uv_cond_t *c) {
  yield_point("cond init");
  storage(c, sizeof *c, "cond_init");
  if (simuv.conds.count(c) && simuv.conds[c]->alive) violation("uv-handle", "a condition is initialised twice");
  { UvRec &r = rec("cond_init"); r.out = c; if (init_refused()) return r.res = UV_ENOMEM; }
  simuv.conds[c] = new UvCond;
  return 0;
}
void uv_cond_destroy(uv_cond_t *c) {
  yield_point("cond destroy");
  UvCond *x = cnd(c, "cond_destroy");
  if (!x->waiting.empty()) violation("uv-handle", "a condition with waiting threads is destroyed");
  x->alive = false;
  rec("cond_destroy", c);
}
static void wake_one(UvCond *x, uint32_t k) { int f = x->waiting[k]; x->waiting.erase(x->waiting.begin() + k); wake(f); }
void uv_cond_signal(uv_cond_t *c) {
  UvCond *x = cnd(c, "cond_signal");
  yield_point("signal");
  UvRec &r = rec("cond_signal", c);
  if (x->waiting.empty()) { hit(P_LOST); return; }
  hit(P_SIG); r.n = 1;
  wake_one(x, draw(SCHED, x->waiting.size()));
}
void uv_cond_broadcast(uv_cond_t *c) {
  UvCond *x = cnd(c, "cond_broadcast");
  yield_point("broadcast");
  rec("cond_broadcast", c);
  while (!x->waiting.empty()) wake_one(x, 0);
}
static bool wait(uv_cond_t *c, uv_mutex_t *m, const char *op) {     // true: it was signalled
  UvCond *x = cnd(c, op);
  UvMutex *y = mut(m, op);
  if (y->m.owner != cur()) violation("uv-wait", "a thread waits on a condition with a mutex it does not hold");
  x->waiting.push_back(cur());
  mtx_unlock(y->m, op);
  bool sig = true;
  auto me = std::find(x->waiting.begin(), x->waiting.end(), cur());
  if (me != x->waiting.end() && simuv.spurious_pct && (int)draw(FAULT, 100) >= 100 - simuv.spurious_pct) {
    for (int k = draw(FAULT, 6); k > 0; k--) yield_point("spurious");
    me = std::find(x->waiting.begin(), x->waiting.end(), cur());
    if (me != x->waiting.end()) { x->waiting.erase(me); fired(F_SPUR); sig = false; }
  } else while (std::find(x->waiting.begin(), x->waiting.end(), cur()) != x->waiting.end()) block();
  mtx_lock(y->m, op);
  return sig;
}
void uv_cond_wait(uv_cond_t *c, uv_mutex_t *m) { rec("cond_wait", c, m); wait(c, m, "cond_wait"); }
int uv_cond_timedwait(uv_cond_t *c, uv_mutex_t *m, uint64_t timeout) {
  rec("cond_timedwait", c, m).n = timeout;
  size_t k = simuv.hist[cur()].size() - 1;
  int s = simuv.spurious_pct; simuv.spurious_pct = 50;
  bool sig = wait(c, m, "cond_timedwait");
  simuv.spurious_pct = s;
  if (!sig) { fired(F_TMO); now_us += timeout / 1000; }
  return simuv.hist[cur()][k].res = sig ? 0 : UV_ETIMEDOUT;
}
static const char *const LIBS[] = {"libone.so", "/usr/lib/libtwo.so.6", "c.dll"};
int uv_dlopen(const char *name, uv_lib_t *lib) {
  preempt();
  if (!heap_range_live(lib, sizeof *lib)) violation("uv-storage", "a library is opened in memory too small for it");
  UvRec &r = rec("dlopen"); r.name = name ? name : "(null)"; r.out = lib;
  bool known = !name; for (auto *l : LIBS) known |= name && !strcmp(l, name);
  simuv.libs[lib] = known ? r.name : "";
  lib->handle = known ? (void *)lib : nullptr; lib->errmsg = nullptr;
  if (!known) { fired(F_DL); r.res = -1; }
  return r.res;
}
int uv_dlsym(uv_lib_t *lib, const char *name, void **ptr) {
  preempt();
  UvRec &r = rec("dlsym", lib); r.name = name;
  if (!simuv.libs.count(lib)) violation("uv-handle", "a symbol is looked up in something that is not a library");
  if (simuv.libs[lib].empty() || name[0] == '?') { fired(F_DL); r.res = -1; *ptr = nullptr; return -1; }
  *ptr = r.out = (void *)(0x1000 + fnv(name, strlen(name)) % 0x7fffffff0000ull);
  return 0;
}
void uv_dlclose(uv_lib_t *lib) {
  preempt();
  rec("dlclose", lib);
  if (!simuv.libs.erase(lib)) violation("uv-handle", "something that is not a library is closed");
  lib->handle = nullptr;
}
const char *uv_dlerror(const uv_lib_t *) { return "not found"; }
int uv_os_environ(uv_env_item_t **items, int *n) {
  preempt();
  *items = nullptr; *n = 0;
  if (simuv.env_refuse_pct && (int)draw(FAULT, 100) >= 100 - simuv.env_refuse_pct) { fired(F_ENV); rec("os_environ").res = UV_ENOMEM; return UV_ENOMEM; }
  rec("os_environ").n = simuv.env.size();
  *n = simuv.env.size();
  *items = (uv_env_item_t *)h_calloc(D_OTHER, *n ? *n : 1, sizeof(uv_env_item_t));
  for (int i = 0; i < *n; i++) {
    auto &e = simuv.env[i];
    (*items)[i].name = (char *)h_malloc(D_OTHER, e.first.size() + e.second.size() + 2);
    (*items)[i].value = (*items)[i].name + e.first.size() + 1;
    strcpy((*items)[i].name, e.first.c_str()); strcpy((*items)[i].value, e.second.c_str());
  }
  return 0;
}
void uv_os_free_environ(uv_env_item_t *items, int n) {
  rec("os_free_environ").n = n;
  for (int i = 0; i < n; i++) h_free(D_OTHER, items[i].name);
  h_free(D_OTHER, items);
}
}
