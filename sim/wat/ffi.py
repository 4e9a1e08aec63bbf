# the libffi binding's functions, each behind a thunk that guards its caller's operands, and callbacks written in WebAssembly
F = """ffi_is_enabled - i
ffi_prep_cif riirr i
ffi_prep_cif_var riiirr i
ffi_call rrrr -
ffi_default_abi - i
ffi_built_in_types - rrrrrrrr
ffix_new_cif r ri
ffix_del_cif r -
ffix_call rrrr -
ffi_closure_alloc - rr
ffi_closure_free r -
ffi_prep_closure_loc rrrrr i
ffix_new_c_callback rrr rri
ffix_del_c_callback r -"""
T = {'i': 'i32', 'l': 'i64', 'r': 'externref'}
t = lambda s: ' '.join(T[c] for c in s if c != '-')
w = '(module\n'
fs = [l.split() for l in F.split('\n')]
for n, a, r in fs: w += f' (import "libffi" "{n}" (func ${n} (param {t(a)}) (result {t(r)})))\n'
w += ''' (import "env" "cb" (func $cb (param externref externref externref externref)))
 (import "env" "yield" (func $yield))
 (import "env" "bad" (func $bad (param i64)))
 (import "pwart_builtin" "native_memory" (memory i64 10000))
 (import "pwart_builtin" "i64_from_ref" (func $lfr (param externref) (result i64)))
 (import "pwart_builtin" "ref_from_index" (func $rfi (param i32 i32) (result externref)))
 (memory $mem 1 1) (export "mem" (memory $mem))
 (func (export "cbhost") (param $cif externref) (param $ret externref) (param $args externref) (param $ud externref) (local $a i64) (local $b i64)
   (local.set $a (call $lfr (local.get $ud)))
   (local.set $b (call $lfr (local.get $args)))
   (call $cb (local.get $cif) (local.get $ret) (local.get $args) (local.get $ud))
   (if (i64.ne (local.get $a) (call $lfr (local.get $ud))) (then (call $bad (local.get $a))))
   (if (i64.ne (local.get $b) (call $lfr (local.get $args))) (then (call $bad (local.get $b)))))
 ;; adds the user data and its 32 bit arguments, as many as the low byte of the user data says
 (func (export "cbsum") (param $cif externref) (param $ret externref) (param $args externref) (param $ud externref) (local $at i64) (local $n i64) (local $s i64)
   (local.set $s (call $lfr (local.get $ud)))
   (local.set $n (i64.and (local.get $s) (i64.const 63)))
   (local.set $at (call $lfr (local.get $args)))
   block $done
     loop $more
       local.get $n i64.eqz br_if $done
       (local.set $s (i64.add (local.get $s) (i64.extend_i32_u (i32.load (local.get $at)))))
       call $yield
       (local.set $at (i64.add (local.get $at) (i64.const 8)))
       (local.set $n (i64.sub (local.get $n) (i64.const 1)))
       br $more
     end
   end
   (i64.store (call $lfr (local.get $ret)) (local.get $s)))
 ;; pii>i: own code pointer, n, base of its buffers: calls itself through native code
 (func (export "cbfib") (param $cif externref) (param $ret externref) (param $args externref) (param $ud externref) (local $at i64) (local $n i32) (local $base i32) (local $r i32)
   (local.set $at (call $lfr (local.get $args)))
   (local.set $n (i32.load offset=8 (local.get $at)))
   (local.set $base (i32.load offset=16 (local.get $at)))
   (local.set $r (local.get $n))
   (if (i32.gt_u (local.get $n) (i32.const 1)) (then
     (i64.store $mem (local.get $base) (i64.load (local.get $at)))
     (i64.store $mem offset=8 (local.get $base) (i64.extend_i32_u (i32.sub (local.get $n) (i32.const 1))))
     (i64.store $mem offset=16 (local.get $base) (i64.extend_i32_u (i32.add (local.get $base) (i32.const 64))))
     (call $ffix_call (local.get $cif) (call $code (local.get $at)) (call $rfi (i32.const 1) (i32.add (local.get $base) (i32.const 32))) (call $rfi (i32.const 1) (local.get $base)))
     (local.set $r (i32.load $mem offset=32 (local.get $base)))
     call $yield
     (i64.store $mem offset=8 (local.get $base) (i64.extend_i32_u (i32.sub (local.get $n) (i32.const 2))))
     (call $ffix_call (local.get $cif) (call $code (local.get $at)) (call $rfi (i32.const 1) (i32.add (local.get $base) (i32.const 32))) (call $rfi (i32.const 1) (local.get $base)))
     (local.set $r (i32.add (local.get $r) (i32.load $mem offset=32 (local.get $base))))))
   (i32.store (call $lfr (local.get $ret)) (local.get $r)))
 (import "pwart_builtin" "ref_from_i64" (func $rfl (param i64) (result externref)))
 (func $code (param $at i64) (result externref) (call $rfl (i64.load (local.get $at))))
'''
for n, a, r in fs:
    a, r = a.replace('-', ''), r.replace('-', '')
    w += f' (func (export "{n}") (param {t(a)}) (result i64 {t(r)} i64) i64.const 0x1122334455667788 {" ".join(f"local.get {i}" for i in range(len(a)))} call ${n} i64.const 0x0102030405060708)\n'
# imports first
body = w[len('(module\n'):].split('\n')
imp = [l for l in body if l.startswith(' (import')]
rest = [l for l in body if not l.startswith(' (import')]
open('ffi.wat', 'w').write('(module\n' + '\n'.join(imp + rest) + ')\n')
