(module
 (import "pwart_builtin" "fopen" (func $fopen (param externref externref) (result externref i32)))
 (import "pwart_builtin" "fread" (func $fread (param externref i32 i32 externref) (result i32 i32)))
 (import "pwart_builtin" "fwrite" (func $fwrite (param externref i32 i32 externref) (result i32 i32)))
 (import "pwart_builtin" "fread" (func $fread1 (param externref i32 i32 externref) (result i32)))
 (import "pwart_builtin" "fwrite" (func $fwrite1 (param externref i32 i32 externref) (result i32)))
 (import "pwart_builtin" "fclose" (func $fclose (param externref) (result i32)))
 (import "pwart_builtin" "stdio" (func $stdio (result externref externref externref)))
 (import "pwart_builtin" "ref_from_index" (func $rfi (param i32 i32) (result externref)))
 (memory (export "mem") 1 20)
 (global $file (mut externref) (ref.null extern))
 (func (export "open") (param $p i32) (param $m i32) (result i64 externref i32 i64)
   i64.const 0x1122334455667788
   (call $rfi (i32.const 0) (local.get $p)) (call $rfi (i32.const 0) (local.get $m)) call $fopen
   i64.const 0x0102030405060708)
 (func (export "read") (param $o i32) (param $s i32) (param $c i32) (param $f externref) (result i64 i32 i32 i64)
   i64.const 0x1122334455667788
   (call $rfi (i32.const 0) (local.get $o)) local.get $s local.get $c local.get $f call $fread
   i64.const 0x0102030405060708)
 (func (export "write") (param $o i32) (param $s i32) (param $c i32) (param $f externref) (result i64 i32 i32 i64)
   i64.const 0x1122334455667788
   (call $rfi (i32.const 0) (local.get $o)) local.get $s local.get $c local.get $f call $fwrite
   i64.const 0x0102030405060708)
 (func (export "read1") (param $o i32) (param $s i32) (param $c i32) (param $f externref) (result i64 i32 i64)
   i64.const 0x1122334455667788
   (call $rfi (i32.const 0) (local.get $o)) local.get $s local.get $c local.get $f call $fread1
   i64.const 0x0102030405060708)
 (func (export "write1") (param $o i32) (param $s i32) (param $c i32) (param $f externref) (result i64 i32 i64)
   i64.const 0x1122334455667788
   (call $rfi (i32.const 0) (local.get $o)) local.get $s local.get $c local.get $f call $fwrite1
   i64.const 0x0102030405060708)
 (func (export "close") (param $f externref) (result i64 i32 i64)
   i64.const 0x1122334455667788
   local.get $f call $fclose
   i64.const 0x0102030405060708)
 (func (export "std") (result i64 externref externref externref i64)
   i64.const 0x1122334455667788
   call $stdio
   i64.const 0x0102030405060708)
 (func (export "grow") (param $n i32) (result i32) local.get $n memory.grow)
 ;; copies src to dst through a buffer at $o, item by item of $s bytes, $c at a time; returns items written, first error
 (func (export "copy") (param $src externref) (param $dst externref) (param $o i32) (param $s i32) (param $c i32) (result i32 i32)
   (local $n i32) (local $w i32) (local $total i32) (local $e i32)
   block $done
     loop $again
       (call $rfi (i32.const 0) (local.get $o)) local.get $s local.get $c local.get $src call $fread
       local.set $e local.set $n
       local.get $n i32.eqz br_if $done
       local.get $e br_if $done
       (call $rfi (i32.const 0) (local.get $o)) local.get $s local.get $n local.get $dst call $fwrite
       local.set $e local.set $w
       local.get $total local.get $w i32.add local.set $total
       local.get $e br_if $done
       local.get $w local.get $n i32.ne br_if $done
       br $again
     end
   end
   local.get $total local.get $e)
 ;; opens, writes, closes; returns the error numbers
 (func (export "save") (param $p i32) (param $m i32) (param $o i32) (param $n i32) (result i32 i32 i32 i32)
   (local $e1 i32) (local $e2 i32) (local $e3 i32) (local $w i32)
   (call $rfi (i32.const 0) (local.get $p)) (call $rfi (i32.const 0) (local.get $m)) call $fopen
   local.set $e1 global.set $file
   global.get $file ref.is_null i32.eqz
   if
     (call $rfi (i32.const 0) (local.get $o)) i32.const 1 local.get $n global.get $file call $fwrite
     local.set $e2 local.set $w
     global.get $file call $fclose local.set $e3
     (global.set $file (ref.null extern))
   end
   local.get $w local.get $e1 local.get $e2 local.get $e3)
)
