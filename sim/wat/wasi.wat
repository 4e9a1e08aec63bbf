(module
 (import "wasi_snapshot_preview1" "args_get" (func $args_get (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "args_sizes_get" (func $args_sizes_get (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "clock_res_get" (func $clock_res_get (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "clock_time_get" (func $clock_time_get (param i32 i64 i32) (result i32)))
 (import "wasi_snapshot_preview1" "environ_get" (func $environ_get (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "environ_sizes_get" (func $environ_sizes_get (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_advise" (func $fd_advise (param i32 i64 i64 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_allocate" (func $fd_allocate (param i32 i64 i64) (result i32)))
 (import "wasi_snapshot_preview1" "fd_close" (func $fd_close (param i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_datasync" (func $fd_datasync (param i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_fdstat_get" (func $fd_fdstat_get (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_fdstat_set_flags" (func $fd_fdstat_set_flags (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_fdstat_set_rights" (func $fd_fdstat_set_rights (param i32 i64 i64) (result i32)))
 (import "wasi_snapshot_preview1" "fd_filestat_get" (func $fd_filestat_get (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_filestat_set_size" (func $fd_filestat_set_size (param i32 i64) (result i32)))
 (import "wasi_snapshot_preview1" "fd_filestat_set_times" (func $fd_filestat_set_times (param i32 i64 i64 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_pread" (func $fd_pread (param i32 i32 i32 i64 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_prestat_get" (func $fd_prestat_get (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_prestat_dir_name" (func $fd_prestat_dir_name (param i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_pwrite" (func $fd_pwrite (param i32 i32 i32 i64 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_read" (func $fd_read (param i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_readdir" (func $fd_readdir (param i32 i32 i32 i64 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_renumber" (func $fd_renumber (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_seek" (func $fd_seek (param i32 i64 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_sync" (func $fd_sync (param i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_tell" (func $fd_tell (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "fd_write" (func $fd_write (param i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_create_directory" (func $path_create_directory (param i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_filestat_get" (func $path_filestat_get (param i32 i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_filestat_set_times" (func $path_filestat_set_times (param i32 i32 i32 i32 i64 i64 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_link" (func $path_link (param i32 i32 i32 i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_open" (func $path_open (param i32 i32 i32 i32 i32 i64 i64 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_readlink" (func $path_readlink (param i32 i32 i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_remove_directory" (func $path_remove_directory (param i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_rename" (func $path_rename (param i32 i32 i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_symlink" (func $path_symlink (param i32 i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "path_unlink_file" (func $path_unlink_file (param i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "poll_oneoff" (func $poll_oneoff (param i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "proc_exit" (func $proc_exit (param i32) ))
 (import "wasi_snapshot_preview1" "proc_raise" (func $proc_raise (param i32) (result i32)))
 (import "wasi_snapshot_preview1" "random_get" (func $random_get (param i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "sched_yield" (func $sched_yield (param ) (result i32)))
 (import "wasi_snapshot_preview1" "sock_accept" (func $sock_accept (param i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "sock_recv" (func $sock_recv (param i32 i32 i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "sock_send" (func $sock_send (param i32 i32 i32 i32 i32) (result i32)))
 (import "wasi_snapshot_preview1" "sock_shutdown" (func $sock_shutdown (param i32 i32) (result i32)))
 (memory (export "mem") 1 40)
 (func (export "grow") (param i32) (result i32) local.get 0 memory.grow)
 (func (export "args_get") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $args_get i64.const 0x0102030405060708)
 (func (export "args_sizes_get") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $args_sizes_get i64.const 0x0102030405060708)
 (func (export "clock_res_get") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $clock_res_get i64.const 0x0102030405060708)
 (func (export "clock_time_get") (param i32 i64 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 call $clock_time_get i64.const 0x0102030405060708)
 (func (export "environ_get") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $environ_get i64.const 0x0102030405060708)
 (func (export "environ_sizes_get") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $environ_sizes_get i64.const 0x0102030405060708)
 (func (export "fd_advise") (param i32 i64 i64 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 call $fd_advise i64.const 0x0102030405060708)
 (func (export "fd_allocate") (param i32 i64 i64) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 call $fd_allocate i64.const 0x0102030405060708)
 (func (export "fd_close") (param i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 call $fd_close i64.const 0x0102030405060708)
 (func (export "fd_datasync") (param i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 call $fd_datasync i64.const 0x0102030405060708)
 (func (export "fd_fdstat_get") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $fd_fdstat_get i64.const 0x0102030405060708)
 (func (export "fd_fdstat_set_flags") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $fd_fdstat_set_flags i64.const 0x0102030405060708)
 (func (export "fd_fdstat_set_rights") (param i32 i64 i64) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 call $fd_fdstat_set_rights i64.const 0x0102030405060708)
 (func (export "fd_filestat_get") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $fd_filestat_get i64.const 0x0102030405060708)
 (func (export "fd_filestat_set_size") (param i32 i64) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $fd_filestat_set_size i64.const 0x0102030405060708)
 (func (export "fd_filestat_set_times") (param i32 i64 i64 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 call $fd_filestat_set_times i64.const 0x0102030405060708)
 (func (export "fd_pread") (param i32 i32 i32 i64 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 call $fd_pread i64.const 0x0102030405060708)
 (func (export "fd_prestat_get") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $fd_prestat_get i64.const 0x0102030405060708)
 (func (export "fd_prestat_dir_name") (param i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 call $fd_prestat_dir_name i64.const 0x0102030405060708)
 (func (export "fd_pwrite") (param i32 i32 i32 i64 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 call $fd_pwrite i64.const 0x0102030405060708)
 (func (export "fd_read") (param i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 call $fd_read i64.const 0x0102030405060708)
 (func (export "fd_readdir") (param i32 i32 i32 i64 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 call $fd_readdir i64.const 0x0102030405060708)
 (func (export "fd_renumber") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $fd_renumber i64.const 0x0102030405060708)
 (func (export "fd_seek") (param i32 i64 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 call $fd_seek i64.const 0x0102030405060708)
 (func (export "fd_sync") (param i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 call $fd_sync i64.const 0x0102030405060708)
 (func (export "fd_tell") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $fd_tell i64.const 0x0102030405060708)
 (func (export "fd_write") (param i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 call $fd_write i64.const 0x0102030405060708)
 (func (export "path_create_directory") (param i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 call $path_create_directory i64.const 0x0102030405060708)
 (func (export "path_filestat_get") (param i32 i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 call $path_filestat_get i64.const 0x0102030405060708)
 (func (export "path_filestat_set_times") (param i32 i32 i32 i32 i64 i64 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 local.get 5 local.get 6 call $path_filestat_set_times i64.const 0x0102030405060708)
 (func (export "path_link") (param i32 i32 i32 i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 local.get 5 local.get 6 call $path_link i64.const 0x0102030405060708)
 (func (export "path_open") (param i32 i32 i32 i32 i32 i64 i64 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 local.get 5 local.get 6 local.get 7 local.get 8 call $path_open i64.const 0x0102030405060708)
 (func (export "path_readlink") (param i32 i32 i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 local.get 5 call $path_readlink i64.const 0x0102030405060708)
 (func (export "path_remove_directory") (param i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 call $path_remove_directory i64.const 0x0102030405060708)
 (func (export "path_rename") (param i32 i32 i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 local.get 5 call $path_rename i64.const 0x0102030405060708)
 (func (export "path_symlink") (param i32 i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 call $path_symlink i64.const 0x0102030405060708)
 (func (export "path_unlink_file") (param i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 call $path_unlink_file i64.const 0x0102030405060708)
 (func (export "poll_oneoff") (param i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 call $poll_oneoff i64.const 0x0102030405060708)
 (func (export "proc_exit") (param i32) (result i64  i64) i64.const 0x1122334455667788 local.get 0 call $proc_exit i64.const 0x0102030405060708)
 (func (export "proc_raise") (param i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 call $proc_raise i64.const 0x0102030405060708)
 (func (export "random_get") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $random_get i64.const 0x0102030405060708)
 (func (export "sched_yield") (param ) (result i64 i32 i64) i64.const 0x1122334455667788  call $sched_yield i64.const 0x0102030405060708)
 (func (export "sock_accept") (param i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 call $sock_accept i64.const 0x0102030405060708)
 (func (export "sock_recv") (param i32 i32 i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 local.get 5 call $sock_recv i64.const 0x0102030405060708)
 (func (export "sock_send") (param i32 i32 i32 i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 call $sock_send i64.const 0x0102030405060708)
 (func (export "sock_shutdown") (param i32 i32) (result i64 i32 i64) i64.const 0x1122334455667788 local.get 0 local.get 1 call $sock_shutdown i64.const 0x0102030405060708)
)
