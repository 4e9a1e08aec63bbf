// L03: imports bind to the exporter's own object at load time and stay bound, whatever happens to names later.
#include "drv.h"
using namespace sim;
using namespace drv;
static const int P_REPL = probe_kind("name defined again");
static const int P_REPLH = probe_kind("host module replaced while imported");
static const int P_POINT = probe_kind("registry name pointed elsewhere");
static const int P_REM = probe_kind("module removed");
static const int P_ADOPT = probe_kind("compiled module defined later");
static std::string nm(int i) { static const char *n[] = {"a", "ab", "m-0123456789-0123456789-0123456789", "host2", "b"}; return n[i]; }
static void run() {
  swarm();
  cfg.aliases = opd(3) != 0; cfg.starts = opd(4) == 3;   // a load never runs a start function by itself
  cfg.stmts = 2 + opd(3); cfg.depth = 2;
  cfg.mems = opd(4) != 0;
  reenter_den = 3; max_depth = 3;
  begin(2 + opd(4), 1 + opd(3));
  int ns = 1 + opd(2);
  std::vector<Space *> sp;
  std::vector<Registry *> rg;
  for (int i = 0; i < ns; i++) { sp.push_back(new_space()); rg.push_back(new_registry(opd(3) ? sp[i] : nullptr)); }
  int count = 0;
  std::vector<RMod *> loose;               // compiled, in no registry and no namespace
  for (int i = 0, n = 6 + opd(24); i < n; i++) {
    op_mark();
    Space &s = *sp[opd(ns)];
    Registry &r = *rg[opd(ns)];
    std::string name = nm(opd(5));
    uint32_t k = opd(20);
    if (count < 2) k = opd(8);
    int nf = opd(7) == 6 ? 0 : 1 + opd(3);
    if (k < 3) {                           // define a module, maybe under a name in use
      Env e = s.env();
      RMod *old = find(s, name);
      if (old && old->alive) { hit(P_REPL); if (old->host) hit(P_REPLH); }
      for (size_t q = 0; q < e.mods.size();) if (e.mods[q].first == name) e.mods.erase(e.mods.begin() + q); else q++;
      if (count < 14) { auto d = gen_module(e, nf); load(s, name, d); count++; }
    } else if (k < 5) {
      RMod *old = find(s, name);
      if (old && old->alive) { hit(P_REPL); if (old->host) hit(P_REPLH); }
      define_host(s, name, host_objects(name + "(host " + std::to_string(i) + ")", 1 + opd(4)));
      count++;
    } else if (k < 7) {
      if (count < 14) {
        bool f = false; for (auto &q : r.names) if (q.first == name && q.second) f = true;
        if (f) hit(P_POINT);
        auto d = gen_module(r.env(), nf);
        load_registered(r, name, d); count++;
      }
    } else if (k == 7) { if (count < 14) { auto d = gen_module(s.env(), nf); loose.push_back(load_by_compiler(s, "loose" + std::to_string(i), d)); count++; } }
    else if (k == 8) { if (find(s, name)) { hit(P_REM); unload(s, name); } }
    else if (k == 9) {                     // free a module nobody else is bound to, or make its importers unusable
      std::vector<RMod *> v;
      for (auto &q : r.names) if (q.second) v.push_back(q.second);
      if (!v.empty()) { RMod *m = v[opd(v.size())]; for (auto *g : rg) for (auto &q : g->names) if (q.second == m) q.second = nullptr; unload_free(m); }
    } else if (k == 10) {                  // a module compiled before joins the namespace
      if (!loose.empty() && !find(s, name) && loose.back()->alive && !loose.back()->broken) {
        hit(P_ADOPT);
        RMod *m = loose.back(); loose.pop_back();
        define_state(s, name, m);
      }
    } else if (k < 13) {
      int q = opd(ns);
      if (opd(2)) check_lookups(*sp[q], pwart_namespace_resolver(sp[q]->ns), nullptr);
      else if (rg[q]->behind) check_lookups(*rg[q]->behind, &rg[q]->base, rg[q]);
    } else if (k == 13) { auto v = usable(); if (!v.empty()) host_mutate(v[opd(v.size())]); }
    else { auto v = usable(); if (!v.empty()) invoke_one(v[opd(v.size())]); }
    compare_state("after an operation");
  }
  code_verify_all("at the end");
}
static Reg reg({"L03", run, "exploration", "distinct event logs: definitions, replacements, removals, loads, lookups, calls and host writes", 16000, 400000,
  "pwart namespace, loader, compiler and runtime, sljit code generator, the generated machine code run natively", "host modules, a host symbol resolver; heap and executable memory behind the simulator",
  {"modules bound to objects of an unloaded module are not used any more"}});
