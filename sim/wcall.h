// Calling functions of small hand-written modules from a workload.
#pragma once
#include "redirect.h"
#include "sim.h"
#include <cstring>
#include <string>
#include <vector>
extern "C" {
#include <pwart.h>
}
namespace wc {
using namespace sim;
struct V { char t; uint64_t v; };
inline V i(uint32_t v) { return {'i', v}; }
inline V l(uint64_t v) { return {'l', v}; }
inline V r(const void *v) { return {'r', (uint64_t)v}; }
inline V r(uint64_t v) { return {'r', v}; }
inline V d(double v) { uint64_t q; memcpy(&q, &v, 8); return {'d', q}; }
inline V f(float v) { uint32_t q; memcpy(&q, &v, 4); return {'f', q}; }
inline void put(void **sp, V a) {
  switch (a.t) {
    case 'i': pwart_rstack_put_i32(sp, (int)a.v); break;
    case 'l': pwart_rstack_put_i64(sp, (long long)a.v); break;
    case 'f': { float x; memcpy(&x, &a.v, 4); pwart_rstack_put_f32(sp, x); break; }
    case 'd': { double x; memcpy(&x, &a.v, 8); pwart_rstack_put_f64(sp, x); break; }
    default: pwart_rstack_put_ref(sp, (void *)a.v);
  }
}
inline uint64_t get(void **sp, char t) {
  switch (t) {
    case 'i': return (uint32_t)pwart_rstack_get_i32(sp);
    case 'l': return (uint64_t)pwart_rstack_get_i64(sp);
    case 'f': { float x = pwart_rstack_get_f32(sp); uint32_t q; memcpy(&q, &x, 4); return q; }
    case 'd': { double x = pwart_rstack_get_f64(sp); uint64_t q; memcpy(&q, &x, 8); return q; }
    default: return (uint64_t)pwart_rstack_get_ref(sp);
  }
}
// calls fn with its frame at `at`
inline std::vector<uint64_t> call(pwart_wasm_function fn, void *at, const std::vector<V> &a, const char *res) {
  void *sp = at;
  for (auto &v : a) put(&sp, v);
  pwart_call_wasm_function(fn, at);
  sp = at;
  std::vector<uint64_t> o;
  for (; *res; res++) o.push_back(get(&sp, *res));
  return o;
}
inline pwart_wasm_function fn(pwart_module_state m, const char *n) {
  pwart_wasm_function f = pwart_get_export_function(m, n);
  if (!f) violation("export", "the module has no function %s", n);
  return f;
}
// the stack layout of this run
inline void config() {
  pwart_global_compile_config c;
  pwart_get_global_compile_config(&c);
  c.stack_flags = opd(3) == 2 ? 0 : PWART_STACK_FLAGS_AUTO_ALIGN;
  pwart_set_global_compile_config(&c);
}
// the same module with a memory without a maximum, which the engine moves when it grows
inline std::vector<unsigned char> unbounded(const unsigned char *b, int n) {
  std::vector<unsigned char> r(b, b + n);
  for (int i = 8; i + 6 < n;) {
    int id = b[i++], len = 0;
    for (int k = 0;; k += 7) { len |= (b[i] & 0x7f) << k; if (!(b[i++] & 0x80)) break; }
    if (id == 5 && len == 4 && b[i] == 1 && b[i + 1] == 1) { r[i - 1] = 3; r[i + 1] = 0; r.erase(r.begin() + i + 3); return r; }
    i += len;
  }
  sim::harness_error("no memory section with a maximum");
}
inline pwart_module_state load(pwart_namespace ns, const char *name, const unsigned char *b, int n) {
  char *e = nullptr;
  std::vector<char> copy(b, b + n);
  pwart_module_state m = (pwart_module_state)pwart_namespace_define_wasm_module(ns, name, copy.data(), n, &e);
  if (e || !m) violation("load", "loading %s failed: %s", name, e ? e : "no module");
  return m;
}
}
