// The system's libffi behind a seam: refusals, closure sizes and lifetimes.
#pragma once
#include "sim.h"
#include <ffi.h>
#include <map>
#include <vector>
struct FfiRec { const char *op; void *h = nullptr; int status = 0; unsigned n = 0, fixed = 0; };
struct SimFfi {
  int fail_pct = 0;
  std::map<void *, size_t> live;                 // closures made by the engine
  std::map<int, std::vector<FfiRec>> hist;       // by fiber
};
extern SimFfi simffi;
