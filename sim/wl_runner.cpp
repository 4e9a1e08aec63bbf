// S06: the command line runner pwart_wasiexec as one process: arguments, the program file with its faults, refused memory, WASI that cannot start.
#include "wcall.h"
#include "simstdio.h"
#include "simwasi.h"
#include "wat_exec.h"
#include "wat_execwasi.h"
#include <setjmp.h>
extern "C" int pwart_wasiexec_main(int argc, char **argv);
extern int sim_prints;
using namespace sim;
namespace {
const int P_RAN = probe_kind("program ran to its end"), P_EXIT = probe_kind("program ended the process"), P_NOFILE = probe_kind("no such file"), P_BAD = probe_kind("file is no program"), P_SEEK = probe_kind("file cannot be positioned"),
  P_BIG = probe_kind("file above one gigabyte"), P_READ = probe_kind("file read only in part"), P_NOWASI = probe_kind("WASI not available"), P_PLAIN = probe_kind("program without WASI while WASI is not available"), P_NOSTART = probe_kind("nothing to start"), P_NOARG = probe_kind("no program named"), P_REFUSED = probe_kind("program not loaded for lack of memory");
const int F_MEM = fault_kind("memory refused"), F_EXEC = fault_kind("executable memory refused");
jmp_buf out;
int64_t code = -1;
size_t file_size; int refuse_what; uint64_t nth; bool refused;
bool refuse(Domain d, const char *, size_t n) {
  bool hit = refuse_what == 1 ? d == D_OTHER && file_size > 300 && n >= file_size && n < file_size + 64
    : refuse_what == 2 ? d == D_PW && n >= 131072 : refuse_what == 3 ? d == D_PW && n >= 60000 && n < 131072 : refuse_what == 4 ? d == D_SLJIT && nth-- == 0 : false;
  if (hit) { fired(F_MEM); refused = true; }
  return hit;
}
bool refuse_exec(size_t) { if (refuse_what != 5) return false; fired(F_EXEC); refused = true; return true; }
void on_exit_(uint32_t c) { code = c; longjmp(out, 1); }
typedef std::string Str;
// sections of a module: without one of them, or with a custom section before it
Str edit(const Str &b, int drop, size_t pad) {
  Str r = b.substr(0, 8);
  if (pad) { Str c = Str("\3pad", 4) + Str(pad, 'x'); r += '\0'; size_t n = c.size(); do { r += (char)((n & 127) | (n > 127 ? 128 : 0)); n >>= 7; } while (n); r += c; }
  for (size_t i = 8; i < b.size();) {
    size_t at = i, len = 0; int id = (uint8_t)b[i++];
    for (int k = 0;; k += 7) { len |= (size_t)(b[i] & 0x7f) << k; if (!(b[i++] & 0x80)) break; }
    if (id != drop) r += b.substr(at, i + len - at);
    i += len;
  }
  return r;
}
void change(Str &s, const char *a, const char *b) { size_t p = s.find(a); if (p == Str::npos) harness_error("no %s in the program", a); s.replace(p, strlen(b), b); }
void run_s06() {
  static const char *PATHS[] = {"a.wasm", "dir/prog.wasm", "file with spaces", "\xc3\xa9.wasm", "x"};
  wc::config();
  bool wasi = opd(3) != 0, start = opd(3) != 0, entry = opd(6) != 5;
  Str bytes = wasi ? Str((const char *)wat_execwasi, sizeof wat_execwasi) : Str((const char *)wat_exec, sizeof wat_exec);
  int64_t status = -1;
  if (wasi) { status = opd(3) == 2 ? (int64_t)opd(256) : -1; int32_t v = status; size_t p = bytes.find("EXIT"); memcpy(&bytes[p], &v, 4); }
  bytes = edit(bytes, start ? 99 : 8, opd(3) == 2 ? opd(60000) : 0);
  if (!entry) change(bytes, "_start", "_stert");
  int bad = opd(6) == 5 ? 1 + opd(4) : 0;
  switch (bad) {
    case 1: bytes.clear(); break;
    case 2: bytes = "#!/bin/sh\necho no program\n"; break;
    case 3: change(bytes, "fwrite", "fwrote"); break;
    case 4: bytes[0] ^= 1 << opd(8); break;
    default: break;
  }
  Str path = PATHS[opd(5)];
  bool missing = opd(12) == 11;
  if (!missing) simstdio.files[path] = bytes;
  simstdio.files["other.wasm"] = Str((const char *)wat_exec, sizeof wat_exec);
  std::vector<Str> args = {"pwart_wasiexec"};
  if (opd(16) != 15) { args.push_back(path); for (int i = opd(6); i > 0; i--) { static const char *A[] = {"", "-x", "other.wasm", "two words", "\xc3\xa9"}; args.push_back(opd(4) ? A[opd(5)] : Str(opd(600), 'a' + i)); } }
  simstdio.dirty_errno = opd(2); simstdio.std_ok = true;
  if (opd(3) == 2) simstdio.fail_pct = 5 + opd(30);
  int shape = opd(20);
  if (shape == 19) simstdio.pipe = true; else if (shape == 18) simstdio.sparse = (1l << 30) + opd(1 << 20) * (opd(2) ? 1l : 1l << 20);
  simwasi.init_fail_pct = opd(6) == 5 ? 70 : 0;
  refuse_what = opd(4) == 3 ? 1 + opd(5) : 0; nth = opd(40); file_size = bytes.size();
  std::vector<char *> argv;
  for (auto &a : args) argv.push_back(const_cast<char *>(a.c_str()));
  argv.push_back(nullptr);
  logf("%s%s%s, %zu bytes, kind %d, %zu arguments, exits %d, shape %d, refuse %d", wasi ? "wasi" : "plain", start ? " with start" : "", entry ? " with _start" : "", bytes.size(), bad, args.size() - 2, (int)status, shape, refuse_what);
  set_context("running pwart_wasiexec");
  op_mark();
  heapcfg.refuse = refuse; exec_refuse = refuse_exec;
  simwasi.on_exit = on_exit_;
  int rc = 0;
  if (!setjmp(out)) { rc = pwart_wasiexec_main(args.size(), argv.data()); code = -1; rc = rc; }
  bool ended = code >= 0;
  heapcfg.refuse = nullptr; exec_refuse = nullptr;
  op_mark();
  logf("returned %d, exit %d, output '%s', messages %d", rc, (int)code, simstdio.out.c_str(), sim_prints > 0);
  // what became of the file
  bool opened = false, partial = false, dead = simwasi.live.empty(), tried = false;
  Str read;
  for (auto &r : simstdio.hist[cur()]) {
    if (!strcmp(r.op, "fopen")) { if (r.path != path) violation("file", "the runner opened %s instead of %s", r.path.c_str(), path.c_str()); if (r.mode.find_first_of("wa+") != Str::npos) violation("file", "the program file was opened for writing"); opened = r.opened != nullptr; tried = true; if (opened && missing) harness_error("a missing file was opened"); }
    if (!strcmp(r.op, "fread")) { read += r.data; }
    if (!strcmp(r.op, "fread") && r.failed) partial = true;
  }
  const Str &o = simstdio.out;
  Str full = Str(start ? "S" : "") + (entry ? start ? "R" : "r" : ""), done = full + (wasi && entry && status < 0 ? "S" : "");
  bool named = args.size() > 1, ran = !o.empty();
  // nothing of it may have run, and the user must be told, if it could not be had whole
  const char *why = nullptr;
  if (!named) why = "no program was named", hit(P_NOARG);
  else if (!opened) why = "the file could not be opened", hit(P_NOFILE);
  else if (simstdio.pipe) why = "the file cannot be measured", hit(P_SEEK);
  else if (simstdio.sparse) why = "the file is too large", hit(P_BIG);
  else if (partial) why = "the file could not be read", hit(P_READ);
  else if (bad) why = "the file is no program", hit(P_BAD);
  else if (wasi && dead) why = "WASI is not available", hit(P_NOWASI);
  if (named && !tried && !(refused && rc)) violation("file", "the program file was never opened");
  if (rc == 0 && dead && !simwasi.init_failed) violation("no wasi", "WASI was not started although nothing kept it from starting");
  if (rc == 0 && dead && !sim_prints) violation("silent", "WASI could not be started and the user was told nothing");
  if (why && ran) violation("ran anyway", "a program ran although %s", why);
  if (why && (rc == 0 || ended)) violation("status", "the runner ended with %d although %s", rc, why);
  if (rc != 0 && ran) violation("status", "the runner ended with %d although the program ran", rc);
  if (rc != 0 && named && !sim_prints) violation("silent", "the runner ended with %d and told nothing", rc);
  // without any fault the program must run
  bool faults = simstdio.fail_pct || refused || simstdio.sparse || why;
  if (!faults && rc) violation("refused", "the runner ended with %d although nothing was wrong", rc);
  if (rc != 0) { if (refused) hit(P_REFUSED); finish(ST_OK); }
  if (read != bytes) violation("content", "a program ran after %zu of its %zu bytes were read", read.size(), bytes.size());
  if (!wasi && dead) hit(P_PLAIN);
  if (!entry) hit(P_NOSTART);
  if (o != done) violation("executed", "the program's steps were '%s' instead of '%s'", o.c_str(), done.c_str());
  if (wasi && entry && ended != (status >= 0)) violation("exit", "the program's exit was %s", ended ? "made up" : "lost");
  if (ended && code != status) violation("exit", "the program ended with %lld instead of %lld", (long long)code, (long long)status);
  hit(ended ? P_EXIT : P_RAN);
  if (!dead) {
    if (std::vector<Str>(args.begin() + 1, args.end()) != simwasi.init_args) violation("arguments", "WASI was given %zu arguments instead of %zu, or other ones", simwasi.init_args.size(), args.size() - 1);
  }
  if (wasi && entry) {
    Str want; uint32_t at = 4096; Str ptrs;
    for (size_t i = 1; i < args.size(); i++) { ptrs.append((const char *)&at, 4); want += args[i] + '\0'; at += args[i].size() + 1; }
    bool seen = false;
    for (auto &r : simwasi.hist) if (r.op == "fd_write") { seen = true; if (r.data != ptrs + want) violation("arguments", "the program sees other arguments than those given"); }
    if (!seen) violation("executed", "the program's output did not arrive");
  }
  finish(ST_OK);
}
Reg reg({"S06", run_s06, "exploration", "distinct event logs: program, file, arguments, faults and how the process ended",
  60000, 900000, "pwart_wasiexec, the system libraries, namespaces, compiler and runtime", "C stdio, uvwasi and libuv (simulated), process exit, heap and executable memory",
  {"a program that uses WASI exports its memory as `memory`", "one program per process, at most 8 arguments"}});
}
