// A world of WebAssembly modules loaded by the real engine, mirrored by a reference interpreter that
// advances in lockstep, segment by segment (a segment ends at a host call or at the end of a call).
#pragma once
#include "redirect.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
extern "C" {
#include "pwart.h"
}

namespace w {
using sim::logf;
typedef uint8_t T;
enum : T { I32 = 0x7f, I64 = 0x7e, F32 = 0x7d, F64 = 0x7c, FREF = 0x70, XREF = 0x6f };
struct FType { std::vector<T> p, r; };
bool operator==(const FType &a, const FType &b);

struct Expr; struct Stmt;
typedef std::shared_ptr<Expr> E;
typedef std::shared_ptr<Stmt> S;
typedef std::vector<S> Body;
struct Expr {
  enum K { CONST, LGET, LTEE, GGET, NUM, LOAD, MSIZE, MGROW, CALL, CALLI, SELECT, TGET, TSIZE, RFUNC, RNULL, ISNULL, IFE, BCONST, BLKE, TGROW, OPAQ, SEQ } k = CONST;
  T t = I32;
  uint32_t a = 0, b = 0;
  uint64_t c = 0;
  std::vector<E> kids;
  Body body;                            // SEQ: what happens while the value waits
};
struct Stmt {
  enum K { NOP, LSET, GSET, STORE, DROP, IF, LOOP, BLOCK, BRIF, BRIFRET, BR, CONT, SWITCH, CALLM, RET, RCALL, RCALLI, GROWI, MCOPY, MFILL, TSET, TCOPY, TFILL, RAW, BUILTIN, REFCOPY, STRLEN, NATIVE } k = NOP;
  uint32_t a = 0, b = 0, c = 0;
  std::vector<E> ex;
  std::vector<Body> bodies;
  Stmt *target = nullptr;
  std::vector<uint32_t> regs;
  std::vector<uint8_t> raw;             // RAW: bytes the engine must refuse
};

struct Imp { int kind; std::string mod, field; uint32_t type = 0, min = 0, max = 0; bool hasmax = false; T gt = I32; bool mut = true; };
inline size_t live_size(const Body &b) {           // number of statements before the one that never goes on
  size_t n = 0;
  while (n < b.size() && b[n]->k != Stmt::BR && b[n]->k != Stmt::RET && b[n]->k != Stmt::RCALL && b[n]->k != Stmt::RCALLI) n++;
  return n;
}
struct FuncDef { uint32_t type = 0; std::vector<T> locals; /* including parameters */ Body body; std::vector<E> res; };
struct MemInfo { uint32_t initial = 1, max = 0; bool hasmax = false, imported = false; };
struct TabInfo { uint32_t size = 0, max = 0; bool hasmax = false, imported = false; uint32_t ftype = 0, callable = 0; };
struct GlobInfo { T t = I32; bool mut = true, imported = false; int initk = 0; /*0 const 1 global.get 2 ref.func 3 ref.null*/ uint64_t init = 0; };
struct Elem { int flags = 0; uint32_t table = 0; int offset_global = -1; uint32_t offset = 0; std::vector<uint32_t> f; };
struct Data { uint32_t mem = 0; int offset_global = -1; uint32_t offset = 0; std::vector<uint8_t> bytes; bool passive = false; };
struct ModDef {
  std::vector<FType> *types;
  std::vector<Imp> imps;
  std::vector<uint32_t> ftype;          // type index of every function, imported first
  uint32_t nif = 0;
  std::vector<FuncDef> fn;              // own functions
  std::vector<MemInfo> mems;            // imported first
  std::vector<TabInfo> tabs;
  std::vector<GlobInfo> globs;
  std::vector<Elem> elems;
  std::vector<Data> datas;
  int start = -1;
  uint32_t pad = 0, custom = 0;         // numbers written longer than needed; custom sections; 0: none
  uint32_t cx = 0;                      // how the constant expressions of the module are written; 0: as plainly as can be
  int fuel = -1;                        // global index
  int grow_report = -1;                 // function index
  uint32_t sp_lo = 0, sp_hi = 0;        // functions generated code does not call by itself: builtins and their reports
  int bi[16];                           // function indices of builtins, see BI
  bool native = false;                  // imports native memory, after all other imports
  bool special(uint32_t f) const { return (int)f == grow_report || (f >= sp_lo && f < sp_hi); }
  uint32_t mx(uint32_t m) const { uint32_t n = 0; for (auto &x : mems) n += x.imported; return native && m >= n ? m + 1 : m; }   // memory index in the binary
  std::vector<std::pair<std::string, std::pair<int, uint32_t>>> extra_exports;
};
enum BI { B_PREP, B_REPORT, B_SELF, B_FROMIDX, B_FROMI64, B_I64FROM, B_LOAD, B_UNLOAD, B_IMPORT, B_COPY, B_STRLEN, B_ALLOC, B_FREE, B_VERSION, B_NSIZE, NBI };
enum { SITE_LOAD, SITE_UNLOAD, SITE_IMPORT };       // Stmt::BUILTIN: a kind, b way to make references, c memory, regs {len, name, bytes, isnull, ref}
std::vector<uint8_t> encode(const ModDef &d);
void set_locals(FuncDef &f, size_t nparams);         // gives the locals values first if the engine is told not to

struct RMod; struct RFunc; struct RMem; struct RTab; struct RGlob;
struct RFunc { RMod *m = nullptr; const FuncDef *def = nullptr; int host = -1; FType type; void *real = nullptr; };
struct RMem { uint32_t pages = 0, initial = 0, max = 32768; bool fixed = false; std::vector<uint8_t> d; RMod *owner = nullptr; struct pwart_wasm_memory *real = nullptr; };
struct RTab { std::vector<RFunc *> e; RMod *owner = nullptr; struct pwart_wasm_table *real = nullptr; uint32_t ftype = 0, callable = 0; uint32_t maximum = 0; };
struct RGlob { T t; uint64_t v = 0; RMod *owner = nullptr; void *real = nullptr; };
struct RMod {
  std::string name;                     // for the log
  std::shared_ptr<ModDef> def;
  std::vector<RFunc *> fn;
  std::vector<RMem *> mems; std::vector<RTab *> tabs; std::vector<RGlob *> globs;
  bool alive = false;
  bool host = false;                    // objects provided by the host; no code of its own
  int active = 0;                       // reference frames in progress
  pwart_module_state st = nullptr;
  struct pwart_symbol_resolver *home = nullptr;   // what its state must name as its resolver; null: not known
  std::set<RMod *> deps;                // modules whose objects are bound here
  bool broken = false;                  // something it is bound to was unloaded
};

// ---- per-run configuration (swarm) ----------------------------------------
struct Cfg {
  int builtins = 0;                      // 1: references into memories, native memory; 2: load, unload, import
  bool starts = false;                  // modules may have start functions
  bool aliases = false;                 // exports have second names, imports use them
  bool align = false;                   // PWART_STACK_FLAGS_AUTO_ALIGN
  bool zeroinit = true;                 // PWART_MISC_FLAGS_LOCALS_ZERO_INIT; without it generated functions set their locals first
  bool extend = true;                   // PWART_MISC_FLAGS_EXTEND_INDEX
  bool floats = true, refs = true, tail = true, multi = true, loops = true, growth = true, tables = true, mems = true, hostcalls = true, multimem = true;
  uint32_t maxparam = 5, maxres = 3, stmts = 4, depth = 4, cap = 40, fuel = 12;
  int refuse_pct = 0;                   // growth refusals by the system
  int w_call = 3, w_mem = 3, w_grow = 1, w_tab = 2, w_num = 3, w_host = 2;
};
extern Cfg cfg;
extern std::vector<FType> types;        // types[0] = ()->(), types[1]=(i32 x3)->()
void setup_types(int n);                // draws the run's type list
uint32_t type_index(const FType &t);     // adds it when new
extern uint32_t gen_types;               // the first so many are used by generated functions
extern std::vector<Stmt *> sites;         // every BUILTIN statement
void setup_engine();                    // global compile config, builtin symbols
extern bool lazy_builtins;               // setup leaves the builtin symbols alone

// ---- host functions ---------------------------------------------------------
struct Host { uint32_t type; RFunc f; };
extern std::vector<Host> hosts;         // hosts[0] = grow report
extern uint32_t nplain;                  // hosts[1..nplain) are ordinary; PREP and REPORT follow
void setup_hosts(int n);
pwart_host_function_c host_entry(int n);

struct Inv {                            // one call from the host into the world
  RFunc *f = nullptr;
  std::vector<uint64_t> args, res, hargs, hres;
  sim::Co *co = nullptr;
  enum { RUN, HOST, DONE } st = RUN;
  int host = -1;
  RMem *growmem = nullptr;
  uint32_t deferred = 0;                // growths applied by the reference in this segment
  Stmt *site = nullptr; RMod *hm = nullptr;   // the BUILTIN statement in progress and its module
  void *pend = nullptr;                 // what the workload expects of it
  bool start = false;                   // a start function run by the engine during a load
};
struct FiberCtx {
  uint8_t *stack = nullptr; uint32_t size = 0;
  std::vector<Inv *> inv;
  bool in_real = false, armed = false;   // real code is running; its next growth is refused
  uint64_t grow_refused = 0, seg_refused = 0;
  uint64_t grow_asked = 0;               // allocations a growth asked for
};
FiberCtx &fctx();                        // context of the current fiber
void new_stack(uint32_t size);           // gives the current fiber a runtime stack
void drop_stack();

// called for every host function except the grow report; fills res. Default: result values from a hash.
struct HostCall { int n; void *fp; std::vector<uint64_t> &args; std::vector<uint64_t> &res; uint8_t *free_stack; };
extern void (*on_host)(HostCall &);
// invokes f with args on the current fiber's runtime stack at `at` (nullptr: base); compares everything.
// hooks for builtins that load, unload and look up: before one, at any host call while one may be running, and after it
extern void (*on_prep)(Inv *, std::vector<uint64_t> &res);
extern void (*on_progress)(Inv *);
extern void (*on_report)(Inv *, uint32_t isnull, uint64_t ref);
void begin_start(RFunc *f);              // the engine has begun a start function: the reference runs it too
void invoke(RFunc *f, const std::vector<uint64_t> &args, uint8_t *at = nullptr);
std::vector<uint64_t> draw_args(const FType &t, RMod *m);
uint64_t draw_value(T t);

// ---- modules ----------------------------------------------------------------
struct Env {                              // what a generated module may import
  std::vector<std::pair<std::string, RMod *>> mods;   // names in its namespace
};
std::shared_ptr<ModDef> gen_module(const Env &env, int nfn);
RMod *link(const std::string &name, std::shared_ptr<ModDef> d, const Env &env);  // reference side of a successful load
void bind_real(RMod *m, pwart_module_state st);  // after the real load: collects and checks objects
void compare_state(const char *when);            // every live module
void compare_module(RMod *m, const char *when);
RMod *host_objects(const std::string &name, int nfn);  // functions, memories, tables and globals owned by the host
struct pwart_host_module *host_objects_module(RMod *m);
void kill(RMod *m);                              // after the real unload
bool fn_gone(RFunc *f);                          // of an unloaded module, or one bound to such
bool ref_dead(T t, uint64_t v);                  // a reference to a function of an unloaded module
void *object_of(RMod *m, int kind, const std::string &field);   // what m exports, nullptr if nothing
void reset_fuel();
void reset_fuel(RMod *m);
extern std::vector<RMod *> mods;                 // all ever linked, alive or not
RFunc *func_of(void *real);
void host_mutate(RMod *m);                       // host writes a memory cell, a global or a table slot in both worlds

// host module provider for namespaces
struct pwart_host_module *host_module();
bool big_pw_alloc(sim::Domain d, size_t n);      // size classes that are memories or tables
}  // namespace w
