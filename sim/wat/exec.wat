(module
 (import "pwart_builtin" "fwrite" (func $fwrite (param externref i32 i32 externref) (result i32)))
 (import "pwart_builtin" "stdio" (func $stdio (result externref externref externref)))
 (import "pwart_builtin" "ref_from_index" (func $rfi (param i32 i32) (result externref)))
 (memory (export "memory") 2)
 (global $begun (mut i32) (i32.const 0))
 (global $e (mut externref) (ref.null extern))
 (global $o (mut externref) (ref.null extern))
 (data (i32.const 16) "SsRr")
 (func $say (param $p i32)
   call $stdio
   global.set $e global.set $o drop
   (call $rfi (i32.const 0) (local.get $p)) (i32.const 1) (i32.const 1) (global.get $o) call $fwrite drop)
 (func $init
   (call $say (i32.add (i32.const 16) (global.get $begun)))
   (global.set $begun (i32.const 1)))
 (func (export "_start")
   (call $say (i32.sub (i32.const 19) (global.get $begun)))
   (i32.store (i32.const 65536) (i32.const 7)))
 (start $init))
