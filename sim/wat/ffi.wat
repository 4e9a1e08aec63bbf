(module
 (import "libffi" "ffi_is_enabled" (func $ffi_is_enabled (param ) (result i32)))
 (import "libffi" "ffi_prep_cif" (func $ffi_prep_cif (param externref i32 i32 externref externref) (result i32)))
 (import "libffi" "ffi_prep_cif_var" (func $ffi_prep_cif_var (param externref i32 i32 i32 externref externref) (result i32)))
 (import "libffi" "ffi_call" (func $ffi_call (param externref externref externref externref) (result )))
 (import "libffi" "ffi_default_abi" (func $ffi_default_abi (param ) (result i32)))
 (import "libffi" "ffi_built_in_types" (func $ffi_built_in_types (param ) (result externref externref externref externref externref externref externref externref)))
 (import "libffi" "ffix_new_cif" (func $ffix_new_cif (param externref) (result externref i32)))
 (import "libffi" "ffix_del_cif" (func $ffix_del_cif (param externref) (result )))
 (import "libffi" "ffix_call" (func $ffix_call (param externref externref externref externref) (result )))
 (import "libffi" "ffi_closure_alloc" (func $ffi_closure_alloc (param ) (result externref externref)))
 (import "libffi" "ffi_closure_free" (func $ffi_closure_free (param externref) (result )))
 (import "libffi" "ffi_prep_closure_loc" (func $ffi_prep_closure_loc (param externref externref externref externref externref) (result i32)))
 (import "libffi" "ffix_new_c_callback" (func $ffix_new_c_callback (param externref externref externref) (result externref externref i32)))
 (import "libffi" "ffix_del_c_callback" (func $ffix_del_c_callback (param externref) (result )))
 (import "env" "cb" (func $cb (param externref externref externref externref)))
 (import "env" "yield" (func $yield))
 (import "env" "bad" (func $bad (param i64)))
 (import "pwart_builtin" "native_memory" (memory i64 10000))
 (import "pwart_builtin" "i64_from_ref" (func $lfr (param externref) (result i64)))
 (import "pwart_builtin" "ref_from_index" (func $rfi (param i32 i32) (result externref)))
 (import "pwart_builtin" "ref_from_i64" (func $rfl (param i64) (result externref)))
 (memory $mem 1 1) (export "mem" (memory $mem))
 (func (export "cbhost") (param $cif externref) (param $ret externref) (param $args externref) (param $ud externref) (local $a i64) (local $b i64)
   (local.set $a (call $lfr (local.get $ud)))
   (local.set $b (call $lfr (local.get $args)))
   (call $cb (local.get $cif) (local.get $ret) (local.get $args) (local.get $ud))
   (if (i64.ne (local.get $a) (call $lfr (local.get $ud))) (then (call $bad (local.get $a))))
   (if (i64.ne (local.get $b) (call $lfr (local.get $args))) (then (call $bad (local.get $b)))))
 ;; adds the user data and its 32 bit arguments, as many as the low byte of the user data says
 (func (export "cbsum") (param $cif externref) (param $ret externref) (param $args externref) (param $ud externref) (local $at i64) (local $n i64) (local $s i64)
   (local.set $s (call $lfr (local.get $ud)))
   (local.set $n (i64.and (local.get $s) (i64.const 63)))
   (local.set $at (call $lfr (local.get $args)))
   block $done
     loop $more
       local.get $n i64.eqz br_if $done
       (local.set $s (i64.add (local.get $s) (i64.extend_i32_u (i32.load (local.get $at)))))
       call $yield
       (local.set $at (i64.add (local.get $at) (i64.const 8)))
       (local.set $n (i64.sub (local.get $n) (i64.const 1)))
       br $more
     end
   end
   (i64.store (call $lfr (local.get $ret)) (local.get $s)))
 ;; pii>i: own code pointer, n, base of its buffers: calls itself through native code
 (func (export "cbfib") (param $cif externref) (param $ret externref) (param $args externref) (param $ud externref) (local $at i64) (local $n i32) (local $base i32) (local $r i32)
   (local.set $at (call $lfr (local.get $args)))
   (local.set $n (i32.load offset=8 (local.get $at)))
   (local.set $base (i32.load offset=16 (local.get $at)))
   (local.set $r (local.get $n))
   (if (i32.gt_u (local.get $n) (i32.const 1)) (then
     (i64.store $mem (local.get $base) (i64.load (local.get $at)))
     (i64.store $mem offset=8 (local.get $base) (i64.extend_i32_u (i32.sub (local.get $n) (i32.const 1))))
     (i64.store $mem offset=16 (local.get $base) (i64.extend_i32_u (i32.add (local.get $base) (i32.const 64))))
     (call $ffix_call (local.get $cif) (call $code (local.get $at)) (call $rfi (i32.const 1) (i32.add (local.get $base) (i32.const 32))) (call $rfi (i32.const 1) (local.get $base)))
     (local.set $r (i32.load $mem offset=32 (local.get $base)))
     call $yield
     (i64.store $mem offset=8 (local.get $base) (i64.extend_i32_u (i32.sub (local.get $n) (i32.const 2))))
     (call $ffix_call (local.get $cif) (call $code (local.get $at)) (call $rfi (i32.const 1) (i32.add (local.get $base) (i32.const 32))) (call $rfi (i32.const 1) (local.get $base)))
     (local.set $r (i32.add (local.get $r) (i32.load $mem offset=32 (local.get $base))))))
   (i32.store (call $lfr (local.get $ret)) (local.get $r)))
 (func $code (param $at i64) (result externref) (call $rfl (i64.load (local.get $at))))
 (func (export "ffi_is_enabled") (param ) (result i64 i32 i64) i64.const 0x1122334455667788  call $ffi_is_enabled i64.const 0x0102030405060708)
 (func (export "ffi_prep_cif") (param externref i32 i32 externref externref) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 call $ffi_prep_cif i64.const 0x0102030405060708)
 (func (export "ffi_prep_cif_var") (param externref i32 i32 i32 externref externref) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 local.get 5 call $ffi_prep_cif_var i64.const 0x0102030405060708)
 (func (export "ffi_call") (param externref externref externref externref) (result i64  i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 call $ffi_call i64.const 0x0102030405060708)
 (func (export "ffi_default_abi") (param ) (result i64 i32 i64) i64.const 0x1122334455667788  call $ffi_default_abi i64.const 0x0102030405060708)
 (func (export "ffi_built_in_types") (param ) (result i64 externref externref externref externref externref externref externref externref i64) i64.const 0x1122334455667788  call $ffi_built_in_types i64.const 0x0102030405060708)
 (func (export "ffix_new_cif") (param externref) (result i64 externref i32 i64) i64.const 0x1122334455667788 local.get 0 call $ffix_new_cif i64.const 0x0102030405060708)
 (func (export "ffix_del_cif") (param externref) (result i64  i64) i64.const 0x1122334455667788 local.get 0 call $ffix_del_cif i64.const 0x0102030405060708)
 (func (export "ffix_call") (param externref externref externref externref) (result i64  i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 call $ffix_call i64.const 0x0102030405060708)
 (func (export "ffi_closure_alloc") (param ) (result i64 externref externref i64) i64.const 0x1122334455667788  call $ffi_closure_alloc i64.const 0x0102030405060708)
 (func (export "ffi_closure_free") (param externref) (result i64  i64) i64.const 0x1122334455667788 local.get 0 call $ffi_closure_free i64.const 0x0102030405060708)
 (func (export "ffi_prep_closure_loc") (param externref externref externref externref externref) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 call $ffi_prep_closure_loc i64.const 0x0102030405060708)
 (func (export "ffix_new_c_callback") (param externref externref externref) (result i64 externref externref i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 call $ffix_new_c_callback i64.const 0x0102030405060708)
 (func (export "ffix_del_c_callback") (param externref) (result i64  i64) i64.const 0x1122334455667788 local.get 0 call $ffix_del_c_callback i64.const 0x0102030405060708)
)
