# the WASI calls: name, C parameters. i n: i32 of n bits, l: i64, p: pointer, s: path pointer and length, b: buffer pointer and length, v/w: vectors to read into / write from
T = """args_get pp
args_sizes_get pp
clock_res_get ip
clock_time_get ilp
environ_get pp
environ_sizes_get pp
fd_advise ill1
fd_allocate ill
fd_close i
fd_datasync i
fd_fdstat_get ip
fd_fdstat_set_flags i2
fd_fdstat_set_rights ill
fd_filestat_get ip
fd_filestat_set_size il
fd_filestat_set_times ill2
fd_pread ivlp
fd_prestat_get ip
fd_prestat_dir_name ib
fd_pwrite iwlp
fd_read ivp
fd_readdir iblp
fd_renumber ii
fd_seek il1p
fd_sync i
fd_tell ip
fd_write iwp
path_create_directory is
path_filestat_get iisp
path_filestat_set_times iisll2
path_link iisis
path_open iis2ll2p
path_readlink isbp
path_remove_directory is
path_rename isis
path_symlink sis
path_unlink_file is
poll_oneoff ppip
proc_exit i
proc_raise 1
random_get b
sched_yield -
sock_accept i2p
sock_recv iv2pp
sock_send iw2p
sock_shutdown i1"""
ops = [(l.split()[0], l.split()[1].replace('-', '')) for l in T.split('\n')]
def wasm(sig):
    o = []
    for c in sig: o += {'l': ['i64'], 's': ['i32', 'i32'], 'b': ['i32', 'i32'], 'v': ['i32', 'i32'], 'w': ['i32', 'i32']}.get(c, ['i32'])
    return o
w = '(module\n'
for n, s in ops: w += f' (import "wasi_snapshot_preview1" "{n}" (func ${n} (param {" ".join(wasm(s))}) {"" if n == "proc_exit" else "(result i32)"}))\n'
w += ' (memory (export "mem") 1 40)\n (func (export "grow") (param i32) (result i32) local.get 0 memory.grow)\n'
for n, s in ops:
    p = wasm(s)
    w += f' (func (export "{n}") (param {" ".join(p)}) (result i64 {"" if n == "proc_exit" else "i32"} i64) i64.const 0x1122334455667788 {" ".join(f"local.get {i}" for i in range(len(p)))} call ${n} i64.const 0x0102030405060708)\n'
w += ')\n'
open('wasi.wat', 'w').write(w)
h = '// generated by wat/wasi.py\n#pragma once\nstruct WasiOp { const char *name, *sig; };\nstatic const WasiOp WASI_OPS[] = {\n' + ''.join(f'  {{"{n}", "{s}"}},\n' for n, s in ops) + '};\n'
open('../wasi_ops.h', 'w').write(h)
