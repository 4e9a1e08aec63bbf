// The part of libuv the system libraries call, on simulated threads, with a record of every call per thread of control.
#pragma once
#include "sim.h"
#include <uv.h>
#include <map>
#include <string>
#include <vector>
struct UvRec { const char *op; void *h = nullptr, *h2 = nullptr; std::string name; int res = 0; void *out = nullptr; uint64_t n = 0; };
struct UvCond { std::vector<int> waiting; bool alive = true; };
struct UvMutex { sim::Mutex m; bool alive = true; };
struct SimUv {
  std::map<int, std::vector<UvRec>> hist;        // by fiber
  std::map<void *, UvMutex *> mutexes;
  std::map<void *, UvCond *> conds;
  std::map<void *, std::string> libs;            // open libraries
  std::vector<int> threads;                      // fibers of the threads started
  int refuse_pct = 0, spurious_pct = 0, init_refuse_pct = 0;
  uint64_t refused = 0;
  std::vector<std::pair<std::string, std::string>> env;
  int env_refuse_pct = 0;
  bool woken(int fiber);                         // wakes the fiber if it waits on some condition: a spurious wakeup
};
extern SimUv simuv;
