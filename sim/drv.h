// Shared pieces of the workloads that drive worlds of modules.
#pragma once
#include "world.h"
#include <deque>
namespace drv {
using namespace w;
struct Space {                              // one namespace and what it should hold
  pwart_namespace ns = nullptr;
  std::vector<std::pair<std::string, RMod *>> names;
  Env env() { Env e; for (auto &n : names) if (n.second && n.second->alive && !n.second->broken) e.mods.push_back(n); return e; }
};
Space *new_space();                         // with the host module defined as "host"
const char *keep(const std::string &s);     // a name that lives for the rest of the run
// loads d under `name` through pwart_namespace_define_wasm_module; expects success.
RMod *load(Space &s, const std::string &name, std::shared_ptr<ModDef> d);
// same through a compiler object and pwart_namespace_define_module or no registration at all (name empty)
void define_state(Space &s, const std::string &name, RMod *m);           // a module loaded before joins the namespace
void retarget(Space &s, RMod *m);                                        // its builtins use this namespace from now on
RMod *load_by_compiler(Space &s, const std::string &name, std::shared_ptr<ModDef> d);
bool can_unload(RMod *m);                    // nothing of it is running
void unload(Space &s, const std::string &name);   // removes whatever is there
void unload_free(RMod *m);                  // a module outside any namespace
void define_host(Space &s, const std::string &name, RMod *m);
void delete_space(Space &s);
RMod *find(Space &s, const std::string &name);
RMod *adopt_loaded(Space &s, const std::string &name, std::shared_ptr<ModDef> d, pwart_module_state st, bool in_namespace);  // after a load made by other means
void adopt_begun(Space &s, const std::string &name, RMod *m, pwart_module_state st);  // the same for a module linked before, not compared: its start function may be running
void forget(Space &s, const std::string &name);   // after a removal made by other means
RMod *load_new(Space &s, const std::string &name, int nfn);  // generates too
// a registry of modules outside any namespace, consulted before a namespace
struct Registry { struct pwart_symbol_resolver base; Space *behind = nullptr; std::vector<std::pair<std::string, RMod *>> names; Env env(); };
Registry *new_registry(Space *behind);
RMod *load_registered(Registry &r, const std::string &name, std::shared_ptr<ModDef> d);
void check_lookups(Space &s, struct pwart_symbol_resolver *res, Registry *r);   // random resolver requests
bool callable(RMod *m);                     // alive, not broken
RFunc *pick_func(RMod *m);
void invoke_one(RMod *m, uint8_t *at = nullptr);
void swarm();                               // default drawing of w::cfg
void begin(int nhosts, int ntypes);         // types, hosts, engine, stack for this fiber
std::vector<RMod *> usable();
extern uint32_t reenter_den;                // a host call re-enters with chance 1/reenter_den (0: never)
extern int max_depth;
void std_host(HostCall &);                  // re-enters and mutates
}
