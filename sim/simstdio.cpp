#include "simstdio.h"
#include <errno.h>
#include <cstring>
#include <cstdio>
using namespace sim;
SimStdio simstdio;
struct SimFile { std::string path; size_t pos; bool rd, wr, app, open, err, eof; int stdno; };
static std::vector<SimFile *> all;
static const int F_EIO = fault_kind("stdio I/O error"), F_SHORT = fault_kind("stdio partial transfer before error"), F_ENOSPC = fault_kind("disk full"),
  F_EMFILE = fault_kind("open refused"), F_CLOSE = fault_kind("close reports delayed write error");
static SimFile std_[3] = {{"", 0, true, false, false, true, false, false, 0}, {"", 0, false, true, true, true, false, false, 1}, {"", 0, false, true, true, true, false, false, 2}};
extern "C" { void *simio_stdin = &std_[0], *simio_stdout = &std_[1], *simio_stderr = &std_[2]; }
void *simstd(int i) { return &std_[i]; }
bool simfile_open(void *f) {
  for (auto &s : std_) if (f == &s) return s.open;
  for (auto *s : all) if (f == s) return s->open;
  return false;
}
static SimFile *chk(void *f, const char *op) {
  if (!simfile_open(f)) violation("stdio-bad-handle", "%s on something that is not an open file", op);
  return (SimFile *)f;
}
static bool fail() { return simstdio.fail_pct && (int)draw(FAULT, 100) >= 100 - simstdio.fail_pct; }
static void okerrno() { if (simstdio.dirty_errno && draw(FAULT, 3) == 1) errno = ENOTTY; }
static StdioRec &rec(const char *op) {
  auto &h = simstdio.hist[cur()];
  h.emplace_back();
  StdioRec &r = h.back();
  r.op = op; r.fiber = cur();
  return r;
}
extern "C" void *simio_fopen(const char *path, const char *mode) {
  preempt();
  StdioRec &r = rec("fopen");
  r.path = path; r.mode = mode;
  bool plus = strchr(mode, '+');
  auto bad = [&](int e) { errno = r.err = e; r.failed = true; return nullptr; };
  if (mode[0] != 'r' && mode[0] != 'w' && mode[0] != 'a') return bad(EINVAL);
  if (simstdio.opened >= simstdio.open_limit) { fired(F_EMFILE); return bad(EMFILE); }
  if (fail()) { fired(F_EMFILE); static const int es[] = {EACCES, EMFILE, EINTR, ENOMEM, ENOSPC}; return bad(es[draw(FAULT, 5)]); }
  if (mode[0] == 'r' && !simstdio.files.count(path)) return bad(ENOENT);
  if (mode[0] == 'w') simstdio.files[path].clear(); else simstdio.files[path];
  SimFile *f = new SimFile{path, 0, mode[0] == 'r' || plus, mode[0] != 'r' || plus, mode[0] == 'a', true, false, false, -1};
  all.push_back(f);
  simstdio.opened++;
  okerrno();
  r.opened = f;
  return f;
}
extern "C" size_t simio_fread(void *buf, size_t size, size_t n, void *fh) {
  preempt();
  SimFile *f = chk(fh, "fread");
  StdioRec &r = rec("fread");
  r.buf = buf; r.size = size; r.count = n; r.file = fh;
  size_t want;
  if (__builtin_mul_overflow(size, n, &want)) want = 0;
  if (!want) return 0;
  if (!f->rd) { errno = r.err = EBADF; r.failed = true; f->err = true; return 0; }
  std::string &d = simstdio.files[f->path];
  size_t av = f->stdno == 0 ? 0 : f->pos < d.size() ? d.size() - f->pos : 0;
  size_t k = std::min(want, av);
  bool e = fail();
  if (e) { fired(F_EIO); if (k) { k = draw(FAULT, std::min<size_t>(k, 1 << 20)); if (k) fired(F_SHORT); } }
  if (k < want && !e) f->eof = true;
  memcpy(buf, d.data() + f->pos, k);
  f->pos += k;
  r.data.assign((char *)buf, k);
  if (e) { errno = r.err = EIO; r.failed = true; f->err = true; } else if (k == want) okerrno();
  return r.items = k / size;
}
extern "C" size_t simio_fwrite(const void *buf, size_t size, size_t n, void *fh) {
  preempt();
  SimFile *f = chk(fh, "fwrite");
  StdioRec &r = rec("fwrite");
  r.buf = buf; r.size = size; r.count = n; r.file = fh;
  size_t want;
  if (__builtin_mul_overflow(size, n, &want)) want = 0;
  if (!want) return 0;
  if (!f->wr) { errno = r.err = EBADF; r.failed = true; f->err = true; return 0; }
  size_t k = want; int e = 0;
  std::string &d = f->stdno == 1 ? simstdio.out : f->stdno == 2 ? simstdio.err : simstdio.files[f->path];
  if (f->app) f->pos = d.size();
  if (!(simstdio.std_ok && f->stdno >= 0) && fail()) { e = EIO; fired(F_EIO); k = draw(FAULT, std::min<size_t>(k, 1 << 20)); if (k) fired(F_SHORT); }
  if (f->pos + k > simstdio.capacity) { e = ENOSPC; fired(F_ENOSPC); k = f->pos < simstdio.capacity ? simstdio.capacity - f->pos : 0; }
  if (d.size() < f->pos + k) d.resize(f->pos + k);
  memcpy(&d[0] + f->pos, buf, k);
  r.data.assign((char *)buf, k);
  f->pos += k;
  if (e) { errno = r.err = e; r.failed = true; f->err = true; } else okerrno();
  return r.items = k / size;
}
extern "C" int simio_fclose(void *fh) {
  preempt();
  SimFile *f = chk(fh, "fclose");
  StdioRec &r = rec("fclose");
  r.file = fh;
  f->open = false;
  if (f->stdno < 0) simstdio.opened--;
  if (fail()) { fired(F_CLOSE); errno = r.err = draw(FAULT, 2) ? EIO : ENOSPC; r.failed = true; return -1; }
  okerrno();
  return 0;
}
extern "C" int simio_fflush(void *) { return 0; }
extern "C" int simio_ferror(void *f) { return chk(f, "ferror")->err; }
extern "C" int simio_feof(void *f) { return chk(f, "feof")->eof; }
extern "C" void simio_clearerr(void *f) { chk(f, "clearerr")->err = chk(f, "clearerr")->eof = false; }
extern "C" int simio_fseek(void *fh, long o, int w) {
  preempt();
  SimFile *f = chk(fh, "fseek");
  if (f->stdno >= 0 || simstdio.pipe) { errno = ESPIPE; return -1; }
  if (fail()) { fired(F_EIO); errno = EIO; return -1; }
  f->pos = (w == SEEK_SET ? 0 : w == SEEK_CUR ? f->pos : simstdio.files[f->path].size()) + o;
  f->eof = false;
  return 0;
}
extern "C" long simio_ftell(void *fh) {
  preempt();
  SimFile *f = chk(fh, "ftell");
  if (f->stdno >= 0 || simstdio.pipe) { errno = ESPIPE; return -1; }
  if (fail()) { fired(F_EIO); errno = EIO; return -1; }
  return f->pos + (f->pos ? simstdio.sparse : 0);
}
extern "C" int simio_fileno(void *f) { for (int i = 0; i < 3; i++) if (f == simstd(i)) return i; errno = EBADF; return -1; }
