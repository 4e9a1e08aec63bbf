// Simulated C stdio: an in-memory file system with injected errors.
#pragma once
#include "sim.h"
#include <map>
#include <string>
#include <vector>
struct SimFile;
struct StdioRec {            // what the C library did in the last call
  const char *op = ""; int fiber = -1;
  const void *buf = nullptr; size_t size = 0, count = 0; void *file = nullptr;
  size_t items = 0; std::string data;   // bytes delivered to or taken from the caller
  int err = 0; bool failed = false; void *opened = nullptr; std::string path, mode;
};
struct SimStdio {
  std::map<std::string, std::string> files;
  int fail_pct = 0, open_limit = 1000, opened = 0; size_t capacity = 1u << 30;
  bool std_ok = false;           // no faults on the standard streams
  bool pipe = false; long sparse = 0;   // files that cannot be positioned; bytes of a hole before the end
  bool dirty_errno = false;      // successful calls may leave errno set, as real stdio does
  std::map<int, std::vector<StdioRec>> hist;   // by fiber, since the workload last cleared it
  std::string out, err;          // what was written to stdout / stderr
};
extern SimStdio simstdio;
bool simfile_open(void *f);      // is a live handle
void *simstd(int i);
