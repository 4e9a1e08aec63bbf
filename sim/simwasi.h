// A simulated uvwasi: an in-memory file system with descriptors, faults, and a record of every call.
#pragma once
#include "sim.h"
#include "stub/uvwasi.h"
#include <map>
#include <set>
#include <string>
#include <vector>
struct WasiWrite { uint8_t *at; std::string bytes; };
struct WasiVec { const uint8_t *buf; uint32_t len; };
struct WasiRec {
  std::string op; std::vector<uint64_t> args;   // C arguments after the context; pointers as they are
  std::vector<std::string> paths;
  std::vector<WasiVec> vec;                      // a vector as the callee saw it
  std::vector<WasiWrite> writes;                 // what the callee stored through pointers, in order
  std::string data;                              // what it took from a vector
  uint32_t err = 0; bool fault = false;
};
struct WasiFd { bool used = false, file = false; std::string path; uint64_t pos = 0; bool append = false; };
struct SimWasi {
  std::vector<WasiRec> hist;
  std::map<std::string, std::string> files;
  std::vector<WasiFd> fds;
  std::set<uvwasi_t *> live;                     // initialised contexts
  uint64_t inits = 0, destroys = 0;
  std::vector<std::string> init_args; uint32_t init_in = 99, init_out = 99, init_err = 99, init_preopens = 0;
  int fail_pct = 0, short_pct = 0, init_fail_pct = 0, init_failed = 0, clock_jump_pct = 0;
  uint64_t capacity = ~0ull;
  void (*on_exit)(uint32_t) = nullptr;           // proc_exit ends the process there
  int64_t clock = 1700000000000000000ll;
};
extern SimWasi simwasi;
