#include "redirect.h"
#include "simffi.h"
using namespace sim;
SimFfi simffi;
static const int F_CLOS = fault_kind("closure memory refused"), F_PREP = fault_kind("native signature or closure refused");
static bool fails(int kind) { if (!simffi.fail_pct || (int)draw(FAULT, 100) < 100 - simffi.fail_pct) return false; fired(kind); return true; }
static FfiRec &rec(const char *op, void *h) { auto &v = simffi.hist[cur()]; v.push_back({op, h}); return v.back(); }
extern "C" {
void *simsy_ffi_closure_alloc(size_t n, void **code) {
  preempt();
  if (n < sizeof(ffi_closure)) violation("closure-size", "a closure of %zu bytes is written to %zu bytes of memory", sizeof(ffi_closure), n);
  if (fails(F_CLOS)) { rec("closure_alloc", nullptr).status = 1; return nullptr; }
  void *c = ffi_closure_alloc(n, code);
  if (!c) harness_error("libffi has no closure memory");
  simffi.live[c] = n;
  rec("closure_alloc", c);
  return c;
}
void simsy_ffi_closure_free(void *c) {
  preempt();
  if (!c) { rec("closure_free", c); return; }    // some versions of libffi do not bear it
  if (!simffi.live.erase(c)) violation("closure-free", "a closure that is not live is freed");
  rec("closure_free", c);
  ffi_closure_free(c);
}
ffi_status simsy_ffi_prep_closure_loc(ffi_closure *c, ffi_cif *cif, void (*fn)(ffi_cif *, void *, void **, void *), void *ud, void *code) {
  preempt();
  if (!simffi.live.count(c)) violation("closure-use", "a closure that is not live is prepared");
  ffi_status s = fails(F_PREP) ? FFI_BAD_ABI : ffi_prep_closure_loc(c, cif, fn, ud, code);
  rec("prep_closure_loc", c).status = s;
  return s;
}
ffi_status simsy_ffi_prep_cif(ffi_cif *cif, ffi_abi abi, unsigned n, ffi_type *r, ffi_type **a) {
  preempt();
  ffi_status s = fails(F_PREP) ? FFI_BAD_TYPEDEF : ffi_prep_cif(cif, abi, n, r, a);
  FfiRec &q = rec("prep_cif", cif); q.status = s; q.n = n;
  return s;
}
ffi_status simsy_ffi_prep_cif_var(ffi_cif *cif, ffi_abi abi, unsigned fixed, unsigned n, ffi_type *r, ffi_type **a) {
  preempt();
  ffi_status s = fails(F_PREP) ? FFI_BAD_TYPEDEF : ffi_prep_cif_var(cif, abi, fixed, n, r, a);
  FfiRec &q = rec("prep_cif_var", cif); q.status = s; q.n = n; q.fixed = fixed;
  return s;
}
}
