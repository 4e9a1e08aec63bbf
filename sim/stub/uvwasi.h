/* The part of uvwasi's interface that pwart_syslib is written against (uvwasi itself is not in this sandbox).
   Types have the layout of WASI snapshot preview 1; the functions are the simulator's (simwasi.cpp). */
#ifndef SIM_UVWASI_H
#define SIM_UVWASI_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint32_t uvwasi_size_t;
typedef uint16_t uvwasi_errno_t;
typedef uint32_t uvwasi_fd_t;
typedef uint64_t uvwasi_timestamp_t;
typedef uint64_t uvwasi_filesize_t;
typedef int64_t uvwasi_filedelta_t;
typedef uint64_t uvwasi_rights_t;
typedef uint64_t uvwasi_dircookie_t;
typedef uint64_t uvwasi_device_t;
typedef uint64_t uvwasi_inode_t;
typedef uint64_t uvwasi_linkcount_t;
typedef uint64_t uvwasi_userdata_t;
typedef uint32_t uvwasi_clockid_t;
typedef uint32_t uvwasi_lookupflags_t;
typedef uint32_t uvwasi_exitcode_t;
typedef uint16_t uvwasi_fdflags_t;
typedef uint16_t uvwasi_oflags_t;
typedef uint16_t uvwasi_fstflags_t;
typedef uint16_t uvwasi_riflags_t;
typedef uint16_t uvwasi_roflags_t;
typedef uint16_t uvwasi_siflags_t;
typedef uint16_t uvwasi_subclockflags_t;
typedef uint16_t uvwasi_eventrwflags_t;
typedef uint8_t uvwasi_advice_t;
typedef uint8_t uvwasi_filetype_t;
typedef uint8_t uvwasi_whence_t;
typedef uint8_t uvwasi_signal_t;
typedef uint8_t uvwasi_sdflags_t;
typedef uint8_t uvwasi_eventtype_t;
typedef uint8_t uvwasi_preopentype_t;
typedef struct { void *buf; uvwasi_size_t buf_len; } uvwasi_iovec_t;
typedef struct { const void *buf; uvwasi_size_t buf_len; } uvwasi_ciovec_t;
typedef struct { uvwasi_filetype_t fs_filetype; uvwasi_fdflags_t fs_flags; uvwasi_rights_t fs_rights_base, fs_rights_inheriting; } uvwasi_fdstat_t;
typedef struct { uvwasi_device_t st_dev; uvwasi_inode_t st_ino; uvwasi_filetype_t st_filetype; uvwasi_linkcount_t st_nlink; uvwasi_filesize_t st_size; uvwasi_timestamp_t st_atim, st_mtim, st_ctim; } uvwasi_filestat_t;
typedef struct { uvwasi_preopentype_t pr_type; union { struct { uvwasi_size_t pr_name_len; } dir; } u; } uvwasi_prestat_t;
typedef struct { uvwasi_dircookie_t d_next; uvwasi_inode_t d_ino; uint32_t d_namlen; uvwasi_filetype_t d_type; } uvwasi_dirent_t;
typedef struct { uvwasi_userdata_t userdata; uvwasi_errno_t error; uvwasi_eventtype_t type; union { struct { uvwasi_filesize_t nbytes; uvwasi_eventrwflags_t flags; } fd_readwrite; } u; } uvwasi_event_t;
typedef struct { uvwasi_userdata_t userdata; uvwasi_eventtype_t type; union { struct { uvwasi_clockid_t clock_id; uvwasi_timestamp_t timeout, precision; uvwasi_subclockflags_t flags; } clock; struct { uvwasi_fd_t fd; } fd_readwrite; } u; } uvwasi_subscription_t;
struct uvwasi_fd_table_t;
typedef struct uvwasi_mem_s { void *mem_user_data; void *(*malloc)(size_t, void *); void (*free)(void *, void *); void *(*calloc)(size_t, size_t, void *); void *(*realloc)(void *, size_t, void *); } uvwasi_mem_t;
typedef struct uvwasi_s {
  struct uvwasi_fd_table_t *fds;
  uvwasi_size_t argc; char **argv; char *argv_buf; uvwasi_size_t argv_buf_size;
  uvwasi_size_t env_count; char **env; char *env_buf; uvwasi_size_t env_buf_size;
  const uvwasi_mem_t *allocator; void *loop;
} uvwasi_t;
typedef struct uvwasi_preopen_s { const char *mapped_path, *real_path; } uvwasi_preopen_t;
typedef struct uvwasi_preopen_socket_s { const char *address; int port; } uvwasi_preopen_socket_t;
typedef struct uvwasi_options_s {
  uvwasi_size_t fd_table_size; uvwasi_size_t preopenc; uvwasi_preopen_t *preopens; uvwasi_size_t preopen_socketc; uvwasi_preopen_socket_t *preopen_sockets;
  uvwasi_size_t argc; const char **argv; const char **envp; uvwasi_fd_t in, out, err; const uvwasi_mem_t *allocator;
} uvwasi_options_t;
enum { UVWASI_ESUCCESS = 0, UVWASI_E2BIG, UVWASI_EACCES, UVWASI_EADDRINUSE, UVWASI_EADDRNOTAVAIL, UVWASI_EAFNOSUPPORT, UVWASI_EAGAIN, UVWASI_EALREADY, UVWASI_EBADF, UVWASI_EBADMSG, UVWASI_EBUSY,
  UVWASI_ECANCELED, UVWASI_ECHILD, UVWASI_ECONNABORTED, UVWASI_ECONNREFUSED, UVWASI_ECONNRESET, UVWASI_EDEADLK, UVWASI_EDESTADDRREQ, UVWASI_EDOM, UVWASI_EDQUOT, UVWASI_EEXIST, UVWASI_EFAULT, UVWASI_EFBIG,
  UVWASI_EHOSTUNREACH, UVWASI_EIDRM, UVWASI_EILSEQ, UVWASI_EINPROGRESS, UVWASI_EINTR, UVWASI_EINVAL, UVWASI_EIO, UVWASI_EISCONN, UVWASI_EISDIR, UVWASI_ELOOP, UVWASI_EMFILE, UVWASI_EMLINK, UVWASI_EMSGSIZE,
  UVWASI_EMULTIHOP, UVWASI_ENAMETOOLONG, UVWASI_ENETDOWN, UVWASI_ENETRESET, UVWASI_ENETUNREACH, UVWASI_ENFILE, UVWASI_ENOBUFS, UVWASI_ENODEV, UVWASI_ENOENT, UVWASI_ENOEXEC, UVWASI_ENOLCK, UVWASI_ENOLINK,
  UVWASI_ENOMEM, UVWASI_ENOMSG, UVWASI_ENOPROTOOPT, UVWASI_ENOSPC, UVWASI_ENOSYS, UVWASI_ENOTCONN, UVWASI_ENOTDIR, UVWASI_ENOTEMPTY, UVWASI_ENOTRECOVERABLE, UVWASI_ENOTSOCK, UVWASI_ENOTSUP, UVWASI_ENOTTY,
  UVWASI_ENXIO, UVWASI_EOVERFLOW, UVWASI_EOWNERDEAD, UVWASI_EPERM, UVWASI_EPIPE, UVWASI_EPROTO, UVWASI_EPROTONOSUPPORT, UVWASI_EPROTOTYPE, UVWASI_ERANGE, UVWASI_EROFS, UVWASI_ESPIPE, UVWASI_ESRCH, UVWASI_ESTALE,
  UVWASI_ETIMEDOUT, UVWASI_ETXTBSY, UVWASI_EXDEV, UVWASI_ENOTCAPABLE };

uvwasi_errno_t uvwasi_init(uvwasi_t *, const uvwasi_options_t *);
void uvwasi_destroy(uvwasi_t *);
void uvwasi_options_init(uvwasi_options_t *);
#define W uvwasi_errno_t
#define U uvwasi_t *
W uvwasi_args_get(U, char **argv, char *argv_buf);
W uvwasi_args_sizes_get(U, uvwasi_size_t *argc, uvwasi_size_t *argv_buf_size);
W uvwasi_clock_res_get(U, uvwasi_clockid_t, uvwasi_timestamp_t *resolution);
W uvwasi_clock_time_get(U, uvwasi_clockid_t, uvwasi_timestamp_t precision, uvwasi_timestamp_t *time);
W uvwasi_environ_get(U, char **environment, char *environ_buf);
W uvwasi_environ_sizes_get(U, uvwasi_size_t *environ_count, uvwasi_size_t *environ_buf_size);
W uvwasi_fd_advise(U, uvwasi_fd_t, uvwasi_filesize_t offset, uvwasi_filesize_t len, uvwasi_advice_t);
W uvwasi_fd_allocate(U, uvwasi_fd_t, uvwasi_filesize_t offset, uvwasi_filesize_t len);
W uvwasi_fd_close(U, uvwasi_fd_t);
W uvwasi_fd_datasync(U, uvwasi_fd_t);
W uvwasi_fd_fdstat_get(U, uvwasi_fd_t, uvwasi_fdstat_t *);
W uvwasi_fd_fdstat_set_flags(U, uvwasi_fd_t, uvwasi_fdflags_t);
W uvwasi_fd_fdstat_set_rights(U, uvwasi_fd_t, uvwasi_rights_t base, uvwasi_rights_t inheriting);
W uvwasi_fd_filestat_get(U, uvwasi_fd_t, uvwasi_filestat_t *);
W uvwasi_fd_filestat_set_size(U, uvwasi_fd_t, uvwasi_filesize_t);
W uvwasi_fd_filestat_set_times(U, uvwasi_fd_t, uvwasi_timestamp_t atim, uvwasi_timestamp_t mtim, uvwasi_fstflags_t);
W uvwasi_fd_pread(U, uvwasi_fd_t, const uvwasi_iovec_t *, uvwasi_size_t, uvwasi_filesize_t offset, uvwasi_size_t *nread);
W uvwasi_fd_prestat_get(U, uvwasi_fd_t, uvwasi_prestat_t *);
W uvwasi_fd_prestat_dir_name(U, uvwasi_fd_t, char *path, uvwasi_size_t path_len);
W uvwasi_fd_pwrite(U, uvwasi_fd_t, const uvwasi_ciovec_t *, uvwasi_size_t, uvwasi_filesize_t offset, uvwasi_size_t *nwritten);
W uvwasi_fd_read(U, uvwasi_fd_t, const uvwasi_iovec_t *, uvwasi_size_t, uvwasi_size_t *nread);
W uvwasi_fd_readdir(U, uvwasi_fd_t, void *buf, uvwasi_size_t buf_len, uvwasi_dircookie_t, uvwasi_size_t *bufused);
W uvwasi_fd_renumber(U, uvwasi_fd_t from, uvwasi_fd_t to);
W uvwasi_fd_seek(U, uvwasi_fd_t, uvwasi_filedelta_t, uvwasi_whence_t, uvwasi_filesize_t *newoffset);
W uvwasi_fd_sync(U, uvwasi_fd_t);
W uvwasi_fd_tell(U, uvwasi_fd_t, uvwasi_filesize_t *offset);
W uvwasi_fd_write(U, uvwasi_fd_t, const uvwasi_ciovec_t *, uvwasi_size_t, uvwasi_size_t *nwritten);
W uvwasi_path_create_directory(U, uvwasi_fd_t, const char *path, uvwasi_size_t);
W uvwasi_path_filestat_get(U, uvwasi_fd_t, uvwasi_lookupflags_t, const char *path, uvwasi_size_t, uvwasi_filestat_t *);
W uvwasi_path_filestat_set_times(U, uvwasi_fd_t, uvwasi_lookupflags_t, const char *path, uvwasi_size_t, uvwasi_timestamp_t, uvwasi_timestamp_t, uvwasi_fstflags_t);
W uvwasi_path_link(U, uvwasi_fd_t old_fd, uvwasi_lookupflags_t, const char *old_path, uvwasi_size_t, uvwasi_fd_t new_fd, const char *new_path, uvwasi_size_t);
W uvwasi_path_open(U, uvwasi_fd_t, uvwasi_lookupflags_t, const char *path, uvwasi_size_t, uvwasi_oflags_t, uvwasi_rights_t base, uvwasi_rights_t inheriting, uvwasi_fdflags_t, uvwasi_fd_t *fd);
W uvwasi_path_readlink(U, uvwasi_fd_t, const char *path, uvwasi_size_t, char *buf, uvwasi_size_t, uvwasi_size_t *bufused);
W uvwasi_path_remove_directory(U, uvwasi_fd_t, const char *path, uvwasi_size_t);
W uvwasi_path_rename(U, uvwasi_fd_t old_fd, const char *old_path, uvwasi_size_t, uvwasi_fd_t new_fd, const char *new_path, uvwasi_size_t);
W uvwasi_path_symlink(U, const char *old_path, uvwasi_size_t, uvwasi_fd_t, const char *new_path, uvwasi_size_t);
W uvwasi_path_unlink_file(U, uvwasi_fd_t, const char *path, uvwasi_size_t);
W uvwasi_poll_oneoff(U, const uvwasi_subscription_t *in, uvwasi_event_t *out, uvwasi_size_t nsubscriptions, uvwasi_size_t *nevents);
W uvwasi_proc_exit(U, uvwasi_exitcode_t);
W uvwasi_proc_raise(U, uvwasi_signal_t);
W uvwasi_random_get(U, void *buf, uvwasi_size_t);
W uvwasi_sched_yield(U);
W uvwasi_sock_accept(U, uvwasi_fd_t, uvwasi_fdflags_t, uvwasi_fd_t *fd);
W uvwasi_sock_recv(U, uvwasi_fd_t, const uvwasi_iovec_t *, uvwasi_size_t, uvwasi_riflags_t, uvwasi_size_t *ro_datalen, uvwasi_roflags_t *);
W uvwasi_sock_send(U, uvwasi_fd_t, const uvwasi_ciovec_t *, uvwasi_size_t, uvwasi_siflags_t, uvwasi_size_t *so_datalen);
W uvwasi_sock_shutdown(U, uvwasi_fd_t, uvwasi_sdflags_t);
#undef W
#undef U
#ifdef __cplusplus
}
#endif
#endif
