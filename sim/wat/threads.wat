(module
 (import "libuv" "uv_version" (func $version (result i32)))
 (import "libuv" "uv_dlopen" (func $dlopen (param externref) (result externref i32)))
 (import "libuv" "uv_dlsym" (func $dlsym (param externref externref) (result externref i32)))
 (import "libuv" "uv_dlclose" (func $dlclose (param externref)))
 (import "libuv" "uv_thread_create" (func $create (param funcref i64) (result externref)))
 (import "libuv" "uv_mutex_init" (func $minit (result externref)))
 (import "libuv" "uv_mutex_destroy" (func $mdestroy (param externref)))
 (import "libuv" "uv_mutex_lock" (func $lock (param externref)))
 (import "libuv" "uv_mutex_unlock" (func $unlock (param externref)))
 (import "libuv" "uv_mutex_trylock" (func $trylock (param externref) (result i32)))
 (import "libuv" "uv_cond_init" (func $cinit (result externref)))
 (import "libuv" "uv_cond_destroy" (func $cdestroy (param externref)))
 (import "libuv" "uv_cond_signal" (func $signal (param externref)))
 (import "libuv" "uv_cond_wait" (func $wait (param externref externref)))
 (import "env" "begin" (func $begin (param i64)))
 (import "env" "end" (func $end (param i64)))
 (import "env" "script" (func $script (param i64)))
 (import "env" "yield" (func $yield))
 (import "env" "bad" (func $bad (param i64 i64)))
 (import "pwart_builtin" "ref_from_index" (func $rfi (param i32 i32) (result externref)))
 (memory (export "mem") 1)
 (global $m (mut externref) (ref.null extern))
 (global $nf (mut externref) (ref.null extern))
 (global $ne (mut externref) (ref.null extern))
 (global $cap (mut i32) (i32.const 3))
 (elem declare func $worker)
 ;; 0: counter; 8: items in queue, 12: head; 64..: queue of i64; 4096+8*k: sum of consumer k
 (func $worker (param $a i64)
   (local $kind i32) (local $n i32) (local $k i32) (local $i i32) (local $v i64)
   (local.set $kind (i32.and (i32.wrap_i64 (i64.shr_u (local.get $a) (i64.const 32))) (i32.const 255)))
   (local.set $n (i32.wrap_i64 (local.get $a)))
   (local.set $k (i32.and (i32.wrap_i64 (i64.shr_u (local.get $a) (i64.const 40))) (i32.const 255)))
   (call $begin (local.get $a))
   (if (i32.eqz (local.get $kind)) (then (call $count (local.get $n))))
   (if (i32.eq (local.get $kind) (i32.const 1)) (then (call $produce (local.get $n) (local.get $k))))
   (if (i32.eq (local.get $kind) (i32.const 2)) (then (call $consume (local.get $n) (local.get $k))))
   (if (i32.eq (local.get $kind) (i32.const 3)) (then (call $trycount (local.get $n))))
   (if (i32.eq (local.get $kind) (i32.const 4)) (then (call $script (local.get $a))))
   (if (i32.eq (local.get $kind) (i32.const 5)) (then (call $deep (local.get $n) (local.get $a))))
   (if (i32.eq (local.get $kind) (i32.const 6)) (then (call $pingpong (local.get $n) (local.get $k))))
   (call $end (local.get $a)))
 (func $bump (local $v i64)
   (local.set $v (i64.load (i32.const 0)))
   call $yield
   (i64.store (i32.const 0) (i64.add (local.get $v) (i64.const 1))))
 (func $count (param $n i32)
   block $done
     loop $again
       local.get $n i32.eqz br_if $done
       (call $lock (global.get $m))
       call $bump
       (call $unlock (global.get $m))
       (local.set $n (i32.sub (local.get $n) (i32.const 1)))
       br $again
     end
   end)
 (func $trycount (param $n i32)
   block $done
     loop $again
       local.get $n i32.eqz br_if $done
       (if (call $trylock (global.get $m)) (then call $yield br $again))
       call $bump
       (call $unlock (global.get $m))
       (local.set $n (i32.sub (local.get $n) (i32.const 1)))
       br $again
     end
   end)
 (func $produce (param $n i32) (param $k i32) (local $i i32) (local $c i32)
   block $done
     loop $again
       local.get $i local.get $n i32.ge_u br_if $done
       (call $lock (global.get $m))
       block $room
         loop $full
           (i32.lt_u (i32.load (i32.const 8)) (global.get $cap)) br_if $room
           (call $wait (global.get $nf) (global.get $m))
           br $full
         end
       end
       (local.set $c (i32.load (i32.const 8)))
       call $yield
       (i64.store offset=64 (i32.mul (i32.rem_u (i32.add (i32.load (i32.const 12)) (local.get $c)) (global.get $cap)) (i32.const 8))
         (i64.extend_i32_u (i32.add (i32.mul (local.get $k) (i32.const 1000)) (local.get $i))))
       (i32.store (i32.const 8) (i32.add (local.get $c) (i32.const 1)))
       (call $signal (global.get $ne))
       (call $unlock (global.get $m))
       (local.set $i (i32.add (local.get $i) (i32.const 1)))
       br $again
     end
   end)
 (func $consume (param $n i32) (param $k i32) (local $h i32) (local $c i32) (local $v i64)
   block $done
     loop $again
       local.get $n i32.eqz br_if $done
       (call $lock (global.get $m))
       block $item
         loop $none
           (i32.load (i32.const 8)) br_if $item
           (call $wait (global.get $ne) (global.get $m))
           br $none
         end
       end
       (local.set $h (i32.load (i32.const 12)))
       (local.set $c (i32.load (i32.const 8)))
       call $yield
       (local.set $v (i64.load offset=64 (i32.mul (local.get $h) (i32.const 8))))
       (i32.store (i32.const 12) (i32.rem_u (i32.add (local.get $h) (i32.const 1)) (global.get $cap)))
       (i32.store (i32.const 8) (i32.sub (local.get $c) (i32.const 1)))
       (call $signal (global.get $nf))
       (call $unlock (global.get $m))
       (i64.store offset=4096 (i32.mul (local.get $k) (i32.const 8)) (i64.add (i64.load offset=4096 (i32.mul (local.get $k) (i32.const 8))) (local.get $v)))
       (local.set $n (i32.sub (local.get $n) (i32.const 1)))
       br $again
     end
   end)
 ;; two threads take turns: k is this one's turn, at 16 the turn
 (func $pingpong (param $n i32) (param $k i32)
   block $done
     loop $again
       local.get $n i32.eqz br_if $done
       (call $lock (global.get $m))
       block $mine
         loop $other
           (i32.eq (i32.load (i32.const 16)) (local.get $k)) br_if $mine
           (if (local.get $k) (then (call $wait (global.get $ne) (global.get $m))) (else (call $wait (global.get $nf) (global.get $m))))
           br $other
         end
       end
       call $bump
       (i32.store (i32.const 16) (i32.sub (i32.const 1) (local.get $k)))
       (if (local.get $k) (then (call $signal (global.get $nf))) (else (call $signal (global.get $ne))))
       (call $unlock (global.get $m))
       (local.set $n (i32.sub (local.get $n) (i32.const 1)))
       br $again
     end
   end)
 ;; fills the runtime stack with the token and checks that it stays
 (func $deep (param $n i32) (param $tok i64) (local $a i64) (local $b i64)
   (local.set $a (i64.add (local.get $tok) (i64.extend_i32_u (local.get $n))))
   (local.set $b (i64.xor (local.get $tok) (i64.const -1)))
   call $yield
   (if (local.get $n) (then (call $deep (i32.sub (local.get $n) (i32.const 1)) (local.get $tok))))
   (if (i64.ne (local.get $a) (i64.add (local.get $tok) (i64.extend_i32_u (local.get $n)))) (then (call $bad (local.get $tok) (local.get $a))))
   (if (i64.ne (local.get $b) (i64.xor (local.get $tok) (i64.const -1))) (then (call $bad (local.get $tok) (local.get $b)))))
 (func (export "set") (param externref externref externref i32)
   (global.set $m (local.get 0)) (global.set $nf (local.get 1)) (global.set $ne (local.get 2)) (global.set $cap (local.get 3)))
 (func (export "spawn") (param i64) (result i64 externref i64) i64.const 0x1122334455667788 (call $create (ref.func $worker) (local.get 0)) i64.const 0x0102030405060708)
 (func (export "version") (result i64 i32 i64) i64.const 0x1122334455667788 call $version i64.const 0x0102030405060708)
 (func (export "dlopen") (param i32) (result i64 externref i32 i64) i64.const 0x1122334455667788 (call $dlopen (call $rfi (i32.const 0) (local.get 0))) i64.const 0x0102030405060708)
 (func (export "dlsym") (param externref i32) (result i64 externref i32 i64) i64.const 0x1122334455667788 (call $dlsym (local.get 0) (call $rfi (i32.const 0) (local.get 1))) i64.const 0x0102030405060708)
 (func (export "dlclose") (param externref) (result i64 i64) i64.const 0x1122334455667788 (call $dlclose (local.get 0)) i64.const 0x0102030405060708)
 (func (export "minit") (result i64 externref i64) i64.const 0x1122334455667788 call $minit i64.const 0x0102030405060708)
 (func (export "mdestroy") (param externref) (result i64 i64) i64.const 0x1122334455667788 (call $mdestroy (local.get 0)) i64.const 0x0102030405060708)
 (func (export "lock") (param externref) (result i64 i64) i64.const 0x1122334455667788 (call $lock (local.get 0)) i64.const 0x0102030405060708)
 (func (export "unlock") (param externref) (result i64 i64) i64.const 0x1122334455667788 (call $unlock (local.get 0)) i64.const 0x0102030405060708)
 (func (export "trylock") (param externref) (result i64 i32 i64) i64.const 0x1122334455667788 (call $trylock (local.get 0)) i64.const 0x0102030405060708)
 (func (export "cinit") (result i64 externref i64) i64.const 0x1122334455667788 call $cinit i64.const 0x0102030405060708)
 (func (export "cdestroy") (param externref) (result i64 i64) i64.const 0x1122334455667788 (call $cdestroy (local.get 0)) i64.const 0x0102030405060708)
 (func (export "signal") (param externref) (result i64 i64) i64.const 0x1122334455667788 (call $signal (local.get 0)) i64.const 0x0102030405060708)
 (func (export "wait") (param externref externref) (result i64 i64) i64.const 0x1122334455667788 (call $wait (local.get 0) (local.get 1)) i64.const 0x0102030405060708)
)
