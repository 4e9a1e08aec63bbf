// generated by wat/wasi.py
#pragma once
struct WasiOp { const char *name, *sig; };
static const WasiOp WASI_OPS[] = {
  {"args_get", "pp"},
  {"args_sizes_get", "pp"},
  {"clock_res_get", "ip"},
  {"clock_time_get", "ilp"},
  {"environ_get", "pp"},
  {"environ_sizes_get", "pp"},
  {"fd_advise", "ill1"},
  {"fd_allocate", "ill"},
  {"fd_close", "i"},
  {"fd_datasync", "i"},
  {"fd_fdstat_get", "ip"},
  {"fd_fdstat_set_flags", "i2"},
  {"fd_fdstat_set_rights", "ill"},
  {"fd_filestat_get", "ip"},
  {"fd_filestat_set_size", "il"},
  {"fd_filestat_set_times", "ill2"},
  {"fd_pread", "ivlp"},
  {"fd_prestat_get", "ip"},
  {"fd_prestat_dir_name", "ib"},
  {"fd_pwrite", "iwlp"},
  {"fd_read", "ivp"},
  {"fd_readdir", "iblp"},
  {"fd_renumber", "ii"},
  {"fd_seek", "il1p"},
  {"fd_sync", "i"},
  {"fd_tell", "ip"},
  {"fd_write", "iwp"},
  {"path_create_directory", "is"},
  {"path_filestat_get", "iisp"},
  {"path_filestat_set_times", "iisll2"},
  {"path_link", "iisis"},
  {"path_open", "iis2ll2p"},
  {"path_readlink", "isbp"},
  {"path_remove_directory", "is"},
  {"path_rename", "isis"},
  {"path_symlink", "sis"},
  {"path_unlink_file", "is"},
  {"poll_oneoff", "ppip"},
  {"proc_exit", "i"},
  {"proc_raise", "1"},
  {"random_get", "b"},
  {"sched_yield", ""},
  {"sock_accept", "i2p"},
  {"sock_recv", "iv2pp"},
  {"sock_send", "iw2p"},
  {"sock_shutdown", "i1"},
};
