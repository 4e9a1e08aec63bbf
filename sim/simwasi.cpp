#include "redirect.h"
#include "simwasi.h"
#include <algorithm>
#include <cstring>
using namespace sim;
SimWasi simwasi;
static const int F_ERR = fault_kind("WASI error"), F_SHORT = fault_kind("short transfer"), F_FULL = fault_kind("disk full"), F_CLOCK = fault_kind("clock jump"), F_INIT = fault_kind("WASI initialisation refused");
static const char *dup(const char *s) { char *p = (char *)h_malloc(D_OTHER, strlen(s) + 1); strcpy(p, s); return p; }
static void ctx(uvwasi_t *u, const char *op) { if (!simwasi.live.count(u)) violation("wasi-context", "%s on a WASI environment that is not initialised", op); }
static WasiRec &rec(uvwasi_t *u, const char *op, std::initializer_list<uint64_t> a) { preempt(); ctx(u, op); simwasi.hist.emplace_back(); auto &r = simwasi.hist.back(); r.op = op; r.args = a; return r; }
static void put(WasiRec &r, const void *at, const void *p, size_t n) { r.writes.push_back({(uint8_t *)at, std::string((const char *)p, n)}); memcpy((void *)at, p, n); }
template <class T> static void put(WasiRec &r, T *at, T v) { put(r, (const void *)at, &v, sizeof v); }
// a chosen error, or 0
static uint32_t fail(WasiRec &r) {
  if (!simwasi.fail_pct || (int)draw(FAULT, 100) < 100 - simwasi.fail_pct) return 0;
  fired(F_ERR); r.fault = true;
  return r.err = 1 + draw(FAULT, 76);
}
static std::string noise(size_t n) { std::string s(n, 0); uint32_t x = draw(OP, 1u << 30) * 2 + 1; for (auto &c : s) { x = x * 1664525 + 1013904223; c = x >> 24; } return s; }
static WasiFd *fd(uint32_t n) { return n < simwasi.fds.size() && simwasi.fds[n].used ? &simwasi.fds[n] : nullptr; }
extern "C" {
typedef uvwasi_errno_t W;
typedef uvwasi_t *U;
void uvwasi_options_init(uvwasi_options_t *o) { memset(o, 0, sizeof *o); o->fd_table_size = 3; o->out = 1; o->err = 2; }
W uvwasi_init(U u, const uvwasi_options_t *o) {
  preempt();
  if (simwasi.live.count(u)) violation("wasi-context", "a WASI environment is initialised twice");
  auto &s = simwasi;
  s.init_args.clear();
  for (uint32_t i = 0; i < o->argc; i++) s.init_args.push_back(o->argv[i]);
  s.init_in = o->in; s.init_out = o->out; s.init_err = o->err; s.init_preopens = o->preopenc;
  for (uint32_t i = 0; i < o->preopenc; i++) if (!o->preopens[i].mapped_path || !o->preopens[i].real_path) violation("wasi-init", "a preopened directory has no path");
  memset(u, 0, sizeof *u);
  if (s.init_fail_pct && (int)draw(FAULT, 100) >= 100 - s.init_fail_pct) { fired(F_INIT); s.init_failed++; logf("init refused"); return 1 + draw(FAULT, 76); }
  u->argc = o->argc;
  if (o->argc) {
    for (auto &a : s.init_args) u->argv_buf_size += a.size() + 1;
    u->argv_buf = (char *)h_malloc(D_OTHER, u->argv_buf_size);
    u->argv = (char **)h_calloc(D_OTHER, o->argc, sizeof(char *));
    char *p = u->argv_buf;
    for (uint32_t i = 0; i < o->argc; i++) { u->argv[i] = p; strcpy(p, s.init_args[i].c_str()); p += s.init_args[i].size() + 1; }
  }
  u->fds = (struct uvwasi_fd_table_t *)dup("fds");
  s.fds.assign(3 + o->preopenc, WasiFd());
  for (auto &f : s.fds) f.used = true;
  s.live.insert(u); s.inits++;
  return 0;
}
void uvwasi_destroy(U u) {
  preempt();
  if (!simwasi.live.erase(u)) violation("wasi-context", "a WASI environment that is not initialised is destroyed");
  simwasi.destroys++;
  if (u->argv) { h_free(D_OTHER, u->argv); h_free(D_OTHER, u->argv_buf); }
  h_free(D_OTHER, u->fds);
  memset((void *)u, 0xda, sizeof *u);
}
#define R(name, ...) WasiRec &r = rec(u, name, {__VA_ARGS__})
#define P(x) ((uint64_t)(x))
static W plain(WasiRec &r) { fail(r); return r.err; }
static W out(WasiRec &r, void *p, size_t n) { if (fail(r)) return r.err; std::string s = noise(n); put(r, p, s.data(), n); return 0; }
W uvwasi_args_get(U u, char **a, char *b) { ctx(u, "args_get"); for (uint32_t i = 0; i < u->argc; i++) a[i] = u->argv[i] - u->argv_buf + b; memcpy(b, u->argv_buf, u->argv_buf_size); return 0; }
W uvwasi_args_sizes_get(U u, uvwasi_size_t *c, uvwasi_size_t *n) { R("args_sizes_get", P(c), P(n)); if (fail(r)) return r.err; put(r, c, u->argc); put(r, n, u->argv_buf_size); return 0; }
W uvwasi_environ_get(U u, char **, char *) { ctx(u, "environ_get"); return 0; }
W uvwasi_environ_sizes_get(U u, uvwasi_size_t *c, uvwasi_size_t *n) { ctx(u, "environ_sizes_get"); *c = *n = 0; return 0; }
W uvwasi_clock_res_get(U u, uvwasi_clockid_t id, uvwasi_timestamp_t *t) { R("clock_res_get", id, P(t)); if (fail(r)) return r.err; put(r, t, (uvwasi_timestamp_t)(1 + id)); return 0; }
W uvwasi_clock_time_get(U u, uvwasi_clockid_t id, uvwasi_timestamp_t pr, uvwasi_timestamp_t *t) {
  R("clock_time_get", id, pr, P(t));
  if (fail(r)) return r.err;
  auto &s = simwasi;
  s.clock += 1000 + draw(OP, 100000);
  if (s.clock_jump_pct && (int)draw(FAULT, 100) >= 100 - s.clock_jump_pct) { fired(F_CLOCK); s.clock += ((int64_t)draw(FAULT, 2000000) - 1000000) * 1000000000ll * 300; }
  put(r, t, (uvwasi_timestamp_t)s.clock);
  return 0;
}
W uvwasi_fd_advise(U u, uvwasi_fd_t f, uvwasi_filesize_t o, uvwasi_filesize_t n, uvwasi_advice_t a) { R("fd_advise", f, o, n, a); return plain(r); }
W uvwasi_fd_allocate(U u, uvwasi_fd_t f, uvwasi_filesize_t o, uvwasi_filesize_t n) { R("fd_allocate", f, o, n); return plain(r); }
W uvwasi_fd_close(U u, uvwasi_fd_t f) { R("fd_close", f); if (fail(r)) return r.err; WasiFd *x = fd(f); if (!x) return r.err = UVWASI_EBADF; *x = WasiFd(); return 0; }
W uvwasi_fd_datasync(U u, uvwasi_fd_t f) { R("fd_datasync", f); return plain(r); }
W uvwasi_fd_fdstat_get(U u, uvwasi_fd_t f, uvwasi_fdstat_t *b) { R("fd_fdstat_get", f, P(b)); return out(r, b, sizeof *b); }
W uvwasi_fd_fdstat_set_flags(U u, uvwasi_fd_t f, uvwasi_fdflags_t g) { R("fd_fdstat_set_flags", f, g); return plain(r); }
W uvwasi_fd_fdstat_set_rights(U u, uvwasi_fd_t f, uvwasi_rights_t a, uvwasi_rights_t b) { R("fd_fdstat_set_rights", f, a, b); return plain(r); }
W uvwasi_fd_filestat_get(U u, uvwasi_fd_t f, uvwasi_filestat_t *b) {
  R("fd_filestat_get", f, P(b));
  if (fail(r)) return r.err;
  WasiFd *x = fd(f); if (!x) return r.err = UVWASI_EBADF;
  uvwasi_filestat_t s; memset(&s, 0, sizeof s); s.st_ino = f; s.st_filetype = x->file ? 4 : 3; s.st_nlink = 1; s.st_size = x->file ? simwasi.files[x->path].size() : 0;
  put(r, b, &s, sizeof s);
  return 0;
}
W uvwasi_fd_filestat_set_size(U u, uvwasi_fd_t f, uvwasi_filesize_t n) {
  R("fd_filestat_set_size", f, n);
  if (fail(r)) return r.err;
  WasiFd *x = fd(f); if (!x) return r.err = UVWASI_EBADF; if (!x->file) return r.err = UVWASI_EINVAL;
  if (n > 100000) return r.err = UVWASI_EFBIG;
  simwasi.files[x->path].resize(n);
  return 0;
}
W uvwasi_fd_filestat_set_times(U u, uvwasi_fd_t f, uvwasi_timestamp_t a, uvwasi_timestamp_t m, uvwasi_fstflags_t g) { R("fd_filestat_set_times", f, a, m, g); return plain(r); }
static W readv(WasiRec &r, WasiFd *x, uint64_t at, const uvwasi_iovec_t *v, uint32_t n, uint32_t *nread, uint64_t *moved) {
  for (uint32_t i = 0; i < n; i++) r.vec.push_back({(const uint8_t *)v[i].buf, v[i].buf_len});
  if (fail(r)) return r.err;
  if (!x) return r.err = UVWASI_EBADF;
  if (!x->file && x != fd(0)) return r.err = UVWASI_EISDIR;
  std::string d = x->file ? simwasi.files[x->path] : noise(50);
  uint64_t room = 0; for (auto &e : r.vec) room += e.len;
  uint64_t k = at < d.size() ? std::min<uint64_t>(room, d.size() - at) : 0;
  if (k && simwasi.short_pct && (int)draw(FAULT, 100) >= 100 - simwasi.short_pct) { fired(F_SHORT); k = draw(FAULT, std::min<uint64_t>(k, 1 << 20)); }
  uint64_t left = k, p = at;
  for (auto &e : r.vec) { uint64_t m = std::min<uint64_t>(left, e.len); if (m) put(r, e.buf, d.data() + p, m); p += m; left -= m; }
  *moved = k;
  put(r, nread, (uint32_t)k);
  return 0;
}
static W writev(WasiRec &r, WasiFd *x, uint64_t at, const uvwasi_ciovec_t *v, uint32_t n, uint32_t *nw, uint64_t *moved) {
  for (uint32_t i = 0; i < n; i++) r.vec.push_back({(const uint8_t *)v[i].buf, v[i].buf_len});
  if (fail(r)) return r.err;
  if (!x) return r.err = UVWASI_EBADF;
  std::string all; for (auto &e : r.vec) all.append((const char *)e.buf, e.len);
  uint64_t k = all.size();
  if (k && simwasi.short_pct && (int)draw(FAULT, 100) >= 100 - simwasi.short_pct) { fired(F_SHORT); k = draw(FAULT, std::min<uint64_t>(k, 1 << 20)); }
  if (x->file && at + k > simwasi.capacity) { fired(F_FULL); if (at >= simwasi.capacity) return r.err = UVWASI_ENOSPC; k = simwasi.capacity - at; }
  r.data = all.substr(0, k);
  if (x->file) { if (at > 1000000) return r.err = UVWASI_EFBIG; auto &d = simwasi.files[x->path]; if (d.size() < at + k) d.resize(at + k); d.replace(at, k, r.data); }
  *moved = k;
  put(r, nw, (uint32_t)k);
  return 0;
}
W uvwasi_fd_pread(U u, uvwasi_fd_t f, const uvwasi_iovec_t *v, uvwasi_size_t n, uvwasi_filesize_t o, uvwasi_size_t *nr) { R("fd_pread", f, P(v), n, o, P(nr)); uint64_t m; return readv(r, fd(f), o, v, n, nr, &m); }
W uvwasi_fd_read(U u, uvwasi_fd_t f, const uvwasi_iovec_t *v, uvwasi_size_t n, uvwasi_size_t *nr) { R("fd_read", f, P(v), n, P(nr)); uint64_t m = 0; WasiFd *x = fd(f); W e = readv(r, x, x ? x->pos : 0, v, n, nr, &m); if (!e && x->file) x->pos += m; return e; }
W uvwasi_fd_pwrite(U u, uvwasi_fd_t f, const uvwasi_ciovec_t *v, uvwasi_size_t n, uvwasi_filesize_t o, uvwasi_size_t *nw) { R("fd_pwrite", f, P(v), n, o, P(nw)); uint64_t m; return writev(r, fd(f), o, v, n, nw, &m); }
W uvwasi_fd_write(U u, uvwasi_fd_t f, const uvwasi_ciovec_t *v, uvwasi_size_t n, uvwasi_size_t *nw) {
  R("fd_write", f, P(v), n, P(nw)); uint64_t m = 0; WasiFd *x = fd(f);
  if (x && x->append && x->file) x->pos = simwasi.files[x->path].size();
  W e = writev(r, x, x ? x->pos : 0, v, n, nw, &m); if (!e && x->file) x->pos += m; return e;
}
W uvwasi_fd_prestat_get(U u, uvwasi_fd_t f, uvwasi_prestat_t *b) { R("fd_prestat_get", f, P(b)); if (fail(r)) return r.err; uvwasi_prestat_t s; memset(&s, 0, sizeof s); s.u.dir.pr_name_len = 1; put(r, b, &s, sizeof s); return 0; }
W uvwasi_fd_prestat_dir_name(U u, uvwasi_fd_t f, char *p, uvwasi_size_t n) { R("fd_prestat_dir_name", f, P(p), n); return out(r, p, std::min<uint32_t>(n, 20)); }
W uvwasi_fd_readdir(U u, uvwasi_fd_t f, void *b, uvwasi_size_t n, uvwasi_dircookie_t c, uvwasi_size_t *used) {
  R("fd_readdir", f, P(b), n, c, P(used));
  if (fail(r)) return r.err;
  std::string d; uint64_t k = 0;
  for (auto &x : simwasi.files) { if (k++ < c % 7) continue; uvwasi_dirent_t e; memset(&e, 0, sizeof e); e.d_next = k; e.d_ino = k * 77; e.d_namlen = x.first.size(); e.d_type = 4; d.append((char *)&e, sizeof e); d += x.first; }
  if (d.size() > n) d.resize(n);
  if (d.size()) put(r, b, d.data(), d.size());
  put(r, used, (uint32_t)d.size());
  return 0;
}
W uvwasi_fd_renumber(U u, uvwasi_fd_t a, uvwasi_fd_t b) { R("fd_renumber", a, b); if (fail(r)) return r.err; if (!fd(a) || !fd(b)) return r.err = UVWASI_EBADF; if (a != b) { *fd(b) = *fd(a); *fd(a) = WasiFd(); } return 0; }
W uvwasi_fd_seek(U u, uvwasi_fd_t f, uvwasi_filedelta_t o, uvwasi_whence_t w, uvwasi_filesize_t *n) {
  R("fd_seek", f, P(o), w, P(n));
  if (fail(r)) return r.err;
  WasiFd *x = fd(f); if (!x) return r.err = UVWASI_EBADF; if (!x->file) return r.err = UVWASI_ESPIPE;
  int64_t base = w == 0 ? 0 : w == 1 ? (int64_t)x->pos : (int64_t)simwasi.files[x->path].size();
  if (w > 2 || o < -1000000000ll || o > 1000000000ll || base + o < 0) return r.err = UVWASI_EINVAL;
  x->pos = base + o;
  put(r, n, (uvwasi_filesize_t)x->pos);
  return 0;
}
W uvwasi_fd_sync(U u, uvwasi_fd_t f) { R("fd_sync", f); return plain(r); }
W uvwasi_fd_tell(U u, uvwasi_fd_t f, uvwasi_filesize_t *o) { R("fd_tell", f, P(o)); if (fail(r)) return r.err; WasiFd *x = fd(f); if (!x) return r.err = UVWASI_EBADF; put(r, o, (uvwasi_filesize_t)x->pos); return 0; }
#define PATH(p, n) r.paths.push_back(std::string(p, n))
W uvwasi_path_create_directory(U u, uvwasi_fd_t f, const char *p, uvwasi_size_t n) { R("path_create_directory", f, P(p), n); PATH(p, n); return plain(r); }
W uvwasi_path_filestat_get(U u, uvwasi_fd_t f, uvwasi_lookupflags_t g, const char *p, uvwasi_size_t n, uvwasi_filestat_t *b) { R("path_filestat_get", f, g, P(p), n, P(b)); PATH(p, n); return out(r, b, sizeof *b); }
W uvwasi_path_filestat_set_times(U u, uvwasi_fd_t f, uvwasi_lookupflags_t g, const char *p, uvwasi_size_t n, uvwasi_timestamp_t a, uvwasi_timestamp_t m, uvwasi_fstflags_t h) { R("path_filestat_set_times", f, g, P(p), n, a, m, h); PATH(p, n); return plain(r); }
W uvwasi_path_link(U u, uvwasi_fd_t f, uvwasi_lookupflags_t g, const char *p, uvwasi_size_t n, uvwasi_fd_t f2, const char *p2, uvwasi_size_t n2) { R("path_link", f, g, P(p), n, f2, P(p2), n2); PATH(p, n); PATH(p2, n2); return plain(r); }
W uvwasi_path_open(U u, uvwasi_fd_t d, uvwasi_lookupflags_t g, const char *p, uvwasi_size_t n, uvwasi_oflags_t o, uvwasi_rights_t a, uvwasi_rights_t b, uvwasi_fdflags_t h, uvwasi_fd_t *f) {
  R("path_open", d, g, P(p), n, o, a, b, h, P(f)); PATH(p, n);
  if (fail(r)) return r.err;
  std::string path(p, n);
  bool have = simwasi.files.count(path);
  if (!have && !(o & 1)) return r.err = UVWASI_ENOENT;
  if (have && (o & 5) == 5) return r.err = UVWASI_EEXIST;
  if (simwasi.fds.size() > 12) return r.err = UVWASI_EMFILE;
  if (o & 8) simwasi.files[path].clear(); else simwasi.files[path];
  uint32_t k = 0; while (k < simwasi.fds.size() && simwasi.fds[k].used) k++;
  if (k == simwasi.fds.size()) simwasi.fds.emplace_back();
  WasiFd &x = simwasi.fds[k]; x.used = x.file = true; x.path = path; x.append = h & 1;
  put(r, f, (uvwasi_fd_t)k);
  return 0;
}
W uvwasi_path_readlink(U u, uvwasi_fd_t f, const char *p, uvwasi_size_t n, char *b, uvwasi_size_t m, uvwasi_size_t *used) { R("path_readlink", f, P(p), n, P(b), m, P(used)); PATH(p, n); if (fail(r)) return r.err; std::string s = noise(std::min<uint32_t>(m, 13)); if (s.size()) put(r, b, s.data(), s.size()); put(r, used, (uint32_t)s.size()); return 0; }
W uvwasi_path_remove_directory(U u, uvwasi_fd_t f, const char *p, uvwasi_size_t n) { R("path_remove_directory", f, P(p), n); PATH(p, n); return plain(r); }
W uvwasi_path_rename(U u, uvwasi_fd_t f, const char *p, uvwasi_size_t n, uvwasi_fd_t f2, const char *p2, uvwasi_size_t n2) {
  R("path_rename", f, P(p), n, f2, P(p2), n2); PATH(p, n); PATH(p2, n2);
  if (fail(r)) return r.err;
  std::string a(p, n), b(p2, n2); auto it = simwasi.files.find(a);
  if (it == simwasi.files.end()) return r.err = UVWASI_ENOENT;
  if (a != b) { std::string d = it->second; simwasi.files.erase(it); simwasi.files[b] = d; for (auto &x : simwasi.fds) if (x.used && x.file && x.path == a) x.path = b; }
  return 0;
}
W uvwasi_path_symlink(U u, const char *p, uvwasi_size_t n, uvwasi_fd_t f, const char *p2, uvwasi_size_t n2) { R("path_symlink", P(p), n, f, P(p2), n2); PATH(p, n); PATH(p2, n2); return plain(r); }
W uvwasi_path_unlink_file(U u, uvwasi_fd_t f, const char *p, uvwasi_size_t n) { R("path_unlink_file", f, P(p), n); PATH(p, n); if (fail(r)) return r.err; if (!simwasi.files.erase(std::string(p, n))) return r.err = UVWASI_ENOENT; return 0; }
W uvwasi_poll_oneoff(U u, const uvwasi_subscription_t *in, uvwasi_event_t *o, uvwasi_size_t n, uvwasi_size_t *ne) {
  R("poll_oneoff", P(in), P(o), n, P(ne));
  if (!n) return r.err = UVWASI_EINVAL;
  for (uint32_t i = 0; i < n; i++) r.data.append((const char *)&in[i], sizeof in[i]);
  if (fail(r)) return r.err;
  uint32_t k = 1 + draw(OP, n);
  for (uint32_t i = 0; i < k; i++) { uvwasi_event_t e; memset(&e, 0, sizeof e); e.userdata = in[i].userdata; e.type = in[i].type; put(r, &o[i], &e, sizeof e); }
  put(r, ne, k);
  return 0;
}
W uvwasi_proc_exit(U u, uvwasi_exitcode_t c) { R("proc_exit", c); if (simwasi.on_exit) simwasi.on_exit(c); return r.err; }
W uvwasi_proc_raise(U u, uvwasi_signal_t s) { R("proc_raise", s); return plain(r); }
W uvwasi_random_get(U u, void *b, uvwasi_size_t n) { R("random_get", P(b), n); if (fail(r)) return r.err; std::string s = noise(n); if (n) put(r, b, s.data(), n); return 0; }
W uvwasi_sched_yield(U u) { R("sched_yield"); return plain(r); }
W uvwasi_sock_accept(U u, uvwasi_fd_t f, uvwasi_fdflags_t g, uvwasi_fd_t *o) { R("sock_accept", f, g, P(o)); if (fail(r)) return r.err; put(r, o, (uvwasi_fd_t)(40 + draw(OP, 10))); return 0; }
W uvwasi_sock_recv(U u, uvwasi_fd_t f, const uvwasi_iovec_t *v, uvwasi_size_t n, uvwasi_riflags_t g, uvwasi_size_t *len, uvwasi_roflags_t *fl) {
  R("sock_recv", f, P(v), n, g, P(len), P(fl));
  for (uint32_t i = 0; i < n; i++) r.vec.push_back({(const uint8_t *)v[i].buf, v[i].buf_len});
  if (fail(r)) return r.err;
  uint64_t left = draw(OP, 200), k = 0;
  for (auto &e : r.vec) { uint64_t m = std::min<uint64_t>(left, e.len); if (m) { std::string s = noise(m); put(r, e.buf, s.data(), m); } left -= m; k += m; }
  put(r, len, (uint32_t)k); put(r, fl, (uvwasi_roflags_t)draw(OP, 2));
  return 0;
}
W uvwasi_sock_send(U u, uvwasi_fd_t f, const uvwasi_ciovec_t *v, uvwasi_size_t n, uvwasi_siflags_t g, uvwasi_size_t *len) {
  R("sock_send", f, P(v), n, g, P(len));
  for (uint32_t i = 0; i < n; i++) r.vec.push_back({(const uint8_t *)v[i].buf, v[i].buf_len});
  if (fail(r)) return r.err;
  for (auto &e : r.vec) r.data.append((const char *)e.buf, e.len);
  put(r, len, (uint32_t)r.data.size());
  return 0;
}
W uvwasi_sock_shutdown(U u, uvwasi_fd_t f, uvwasi_sdflags_t h) { R("sock_shutdown", f, h); return plain(r); }
}
