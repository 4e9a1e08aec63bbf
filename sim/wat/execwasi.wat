(module
 (import "pwart_builtin" "fwrite" (func $fwrite (param externref i32 i32 externref) (result i32)))
 (import "pwart_builtin" "stdio" (func $stdio (result externref externref externref)))
 (import "pwart_builtin" "ref_from_index" (func $rfi (param i32 i32) (result externref)))
 (import "wasi_snapshot_preview1" "args_sizes_get" (func $sizes (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "args_get" (func $args (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_write" (func $write (param i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "proc_exit" (func $exit (param i32)))
 (memory (export "memory") 2)
 (global $begun (mut i32) (i32.const 0))
 (global $e (mut externref) (ref.null extern))
 (global $o (mut externref) (ref.null extern))
 (data (i32.const 16) "SsRr")
 (data (i32.const 32) "EXIT")
 (func $say (param $p i32)
   call $stdio
   global.set $e global.set $o drop
   (call $rfi (i32.const 0) (local.get $p)) (i32.const 1) (i32.const 1) (global.get $o) call $fwrite drop)
 (func $init
   (drop (call $sizes (i32.const 200) (i32.const 204)))
   (call $say (i32.add (i32.const 16) (global.get $begun)))
   (global.set $begun (i32.const 1)))
 (func (export "_start")
   (call $say (i32.sub (i32.const 19) (global.get $begun)))
   (drop (call $sizes (i32.const 64) (i32.const 68)))
   (drop (call $args (i32.const 1024) (i32.const 4096)))
   (i32.store (i32.const 80) (i32.const 1024))
   (i32.store (i32.const 84) (i32.shl (i32.load (i32.const 64)) (i32.const 2)))
   (i32.store (i32.const 88) (i32.const 4096))
   (i32.store (i32.const 92) (i32.load (i32.const 68)))
   (drop (call $write (i32.const 1) (i32.const 80) (i32.const 2) (i32.const 96)))
   (if (i32.ne (i32.load (i32.const 68)) (i32.load (i32.const 204))) (then (if (global.get $begun) (then (call $say (i32.const 17))))))
   (if (i32.ge_s (i32.load (i32.const 32)) (i32.const 0)) (then (call $exit (i32.load (i32.const 32)))))
   (call $say (i32.const 16)))
 (start $init))
