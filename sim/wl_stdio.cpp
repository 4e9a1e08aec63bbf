// S02: the file builtins against the simulated C library: one call each, the exact addresses and counts,
// the error number of this very operation.
#include "wcall.h"
#include "simstdio.h"
#include "wat_stdio.h"
#include <algorithm>
using namespace sim;
namespace {
const int P_BIG = probe_kind("transfer above one page"), P_EOF = probe_kind("read stopped at the end of the file"), P_GROWN = probe_kind("transfer after memory growth"),
  P_COPY = probe_kind("program copied a file"), P_SAVE = probe_kind("program saved a file"), P_STD = probe_kind("standard stream used"), P_SHARED = probe_kind("file open twice");
const uint64_t G1 = 0x1122334455667788ull, G2 = 0x0102030405060708ull;
struct Handle { uint64_t h; std::string path, mode; bool std = false; };
pwart_namespace ns;
std::map<std::string, int> openc;
const char *PATHS[] = {"a", "dir/b", "file with spaces", "a.txt", "\xc3\xa9", ""};
const char *MODES[] = {"r", "w", "a", "r+", "w+", "rb", "wb", "a+", "q", ""};
struct Prog {
  pwart_module_state m; pwart_wasm_memory *mem; uint8_t *stack = nullptr; std::vector<uint8_t> want; std::vector<Handle> hs; bool grown = false;
  std::vector<StdioRec> &hist() { return simstdio.hist[cur()]; }
  void sync() { want.assign(mem->bytes, mem->bytes + (size_t)mem->pages * 65536); }
  size_t size() { return want.size(); }
  void poke(uint32_t o, const void *p, size_t n) { memcpy(mem->bytes + o, p, n); memcpy(want.data() + o, p, n); }
  void check(const char *what) {
    size_t n = (size_t)mem->pages * 65536;
    if (n != want.size()) violation("memory size", "memory has %zu bytes instead of %zu after %s", n, want.size(), what);
    if (memcmp(mem->bytes, want.data(), n)) { size_t i = 0; while (mem->bytes[i] == want[i]) i++; violation("memory", "%s left %02x instead of %02x at %zu", what, mem->bytes[i], want[i], i); }
  }
  std::vector<uint64_t> run(const char *name, const std::vector<wc::V> &a, const char *res) {
    hist().clear();
    std::string s; for (auto &v : a) { char b[24]; snprintf(b, sizeof b, " %llx", v.t == 'r' ? (unsigned long long)(v.v != 0) : (unsigned long long)v.v); s += b; }
    logf("t%d %s%s", cur(), name, s.c_str());
    set_context("%s", name);
    auto o = wc::call(wc::fn(m, name), stack + 64 + 16 * opd(4), a, res);
    if (*res == 'l' && (o[0] != G1 || o.back() != G2)) violation("operands", "%s lost operands of its caller", name);
    return o;
  }
  StdioRec &one(const char *op) {
    auto &h = hist();
    if (h.size() != 1) violation("calls", "%zu C library calls instead of one %s", h.size(), op);
    if (strcmp(h[0].op, op)) violation("calls", "the C library's %s was called instead of %s", h[0].op, op);
    if (h[0].failed) logf("  failed %d", h[0].err);
    return h[0];
  }
  void errcheck(const StdioRec &r, uint32_t e) {
    if (r.failed && (int)e != r.err) violation("error number", "%s failed with %d but reported %d", r.op, r.err, (int)e);
    if (!r.failed && e) violation("error number", "%s succeeded but reported error %d", r.op, (int)e);
  }
  // C call r of a transfer between memory and file: arguments, memory effect
  void transfer(const StdioRec &r, bool rd, uint32_t off, uint32_t size, uint32_t count, uint64_t file, const char *what) {
    if (strcmp(r.op, rd ? "fread" : "fwrite")) violation("calls", "%s called %s", what, r.op);
    if (r.file != (void *)file) violation("file", "%s used another file", what);
    if (r.size != size || r.count != count) violation("count", "%s asked for %zu items of %zu bytes instead of %u of %u", what, r.count, r.size, count, size);
    if (r.buf != mem->bytes + off) violation("address", "%s used the address %+lld from the memory instead of %u", what, (long long)((uint8_t *)r.buf - mem->bytes), off);
    if (rd) memcpy(want.data() + off, r.data.data(), r.data.size());
    else if (memcmp(r.data.data(), want.data() + off, r.data.size())) violation("data", "%s passed other bytes", what);
    if (r.data.size() > 4096) hit(P_BIG);
    if (grown) hit(P_GROWN);
    if (rd && !r.failed && r.items < r.count && size) hit(P_EOF);
  }
  uint32_t place(size_t n) {                    // n bytes anywhere, often at an edge
    size_t room = size() - n;
    switch (opd(4)) { case 0: return opd(std::min<size_t>(room + 1, 200)); case 1: return room - opd(std::min<size_t>(room + 1, 40)); default: return opd(room + 1); }
  }
  void dims(uint32_t &s, uint32_t &c) {
    static const uint32_t S[] = {1, 1, 1, 3, 8, 17, 512, 4096, 0};
    s = S[opd(9)]; c = opd(8) == 7 ? 0 : 1 + opd(opd(5) == 4 ? 3000 : 60);
    while ((uint64_t)s * c > size() / 2) c /= 2;
  }
  void open() {
    const char *p = PATHS[opd(6)], *md = MODES[opd(4) ? opd(8) : opd(10)];
    size_t lp = strlen(p) + 1, lm = strlen(md) + 1;
    uint32_t at = place(lp + lm);
    poke(at, p, lp); poke(at + lp, md, lm);
    auto o = run("open", {wc::i(at), wc::i(at + lp)}, "lril");
    StdioRec &r = one("fopen");
    if (r.path != p || r.mode != md) violation("file name", "opened '%s' mode '%s' instead of '%s' mode '%s'", r.path.c_str(), r.mode.c_str(), p, md);
    if ((void *)o[1] != r.opened) violation("file", "open returned something else than the opened file");
    errcheck(r, o[2]);
    if (r.opened) { hs.push_back({o[1], p, md}); if (++openc[p] > 1) hit(P_SHARED); }
  }
  void io(bool rd) {
    if (hs.empty()) return;
    Handle &h = hs[opd(hs.size())];
    uint32_t s, c; dims(s, c);
    uint32_t at = place((size_t)s * c);
    bool two = opd(2);
    auto o = run(rd ? two ? "read" : "read1" : two ? "write" : "write1", {wc::i(at), wc::i(s), wc::i(c), wc::r(h.h)}, two ? "liil" : "lil");
    StdioRec &r = one(rd ? "fread" : "fwrite");
    transfer(r, rd, at, s, c, h.h, r.op);
    if (o[1] != r.items) violation("count", "%s transferred %zu items but reported %u", r.op, r.items, (uint32_t)o[1]);
    if (two) errcheck(r, o[2]);
    if (h.std) hit(P_STD);
  }
  void close(size_t i) {
    Handle h = hs[i]; hs.erase(hs.begin() + i);
    if (!h.std) openc[h.path]--;
    auto o = run("close", {wc::r(h.h)}, "lil");
    StdioRec &r = one("fclose");
    if (r.file != (void *)h.h) violation("file", "another file was closed");
    errcheck(r, o[1]);
  }
  void standard() {
    auto o = run("std", {}, "lrrrl");
    if (!hist().empty()) violation("calls", "asking for the standard streams called the C library");
    for (int k = 0; k < 3; k++) if ((void *)o[1 + k] != simstd(k)) violation("file", "standard stream %d is another file", k);
    bool have = false; for (auto &h : hs) have |= h.std;
    if (!have) for (int k = 0; k < 3; k++) hs.push_back({o[1 + k], "", k ? "w" : "r", true});
  }
  void copy() {                                 // the program's own loop, replayed from what the C library did
    if (hs.size() < 2) return;
    Handle &a = hs[opd(hs.size())], &b = hs[opd(hs.size())];
    if (a.std || b.std || a.path == b.path) return;
    if (simstdio.files[a.path].size() > 40000) return;
    uint32_t s, c; dims(s, c);
    if (!s || !c) return;
    hit(P_COPY);
    uint32_t at = place((size_t)s * c);
    auto o = run("copy", {wc::r(a.h), wc::r(b.h), wc::i(at), wc::i(s), wc::i(c)}, "ii");
    auto &h = hist(); size_t k = 0; uint32_t total = 0; int err = 0;
    for (;;) {
      if (k >= h.size()) violation("calls", "the program stopped before its file ended");
      StdioRec &r = h[k++];
      transfer(r, true, at, s, c, a.h, "copy");
      err = r.failed ? r.err : 0;
      if (!r.items || err) break;
      if (k >= h.size()) violation("calls", "the program read %zu items and did not write them", r.items);
      StdioRec &w = h[k++];
      transfer(w, false, at, s, r.items, b.h, "copy");
      err = w.failed ? w.err : 0;
      total += w.items;
      if (err || w.items != r.items) break;
    }
    if (k != h.size()) violation("calls", "the program went on after its file ended or failed");
    if (o[0] != total || (int)o[1] != err) violation("program", "the program counted %u items and error %d instead of %u and %d", (uint32_t)o[0], (int)o[1], total, err);
  }
  void save() {
    const char *p = PATHS[opd(5)], *md = MODES[opd(8)];
    size_t lp = strlen(p) + 1, lm = strlen(md) + 1;
    uint32_t at = place(lp + lm), n = opd(200), from = place(n);
    poke(at, p, lp); poke(at + lp, md, lm);
    hit(P_SAVE);
    auto o = run("save", {wc::i(at), wc::i(at + lp), wc::i(from), wc::i(n)}, "iiii");
    auto &h = hist();
    if (h.empty() || strcmp(h[0].op, "fopen")) violation("calls", "the program did not open its file");
    errcheck(h[0], o[1]);
    if (!h[0].opened) { if (h.size() != 1 || o[0] || o[2] || o[3]) violation("program", "the program went on without a file"); return; }
    if (h.size() != 3 || strcmp(h[2].op, "fclose") || h[2].file != h[0].opened) violation("calls", "the program did not write and close the file it opened");
    transfer(h[1], false, from, 1, n, (uint64_t)h[0].opened, "save");
    if (o[0] != h[1].items) violation("count", "%zu items written, %u reported", h[1].items, (uint32_t)o[0]);
    errcheck(h[1], o[2]); errcheck(h[2], o[3]);
  }
  void grow() {
    uint32_t n = opd(3);
    auto o = run("grow", {wc::i(n)}, "i");
    if ((int)o[0] < 0) return;
    if (n) grown = true;
    size_t old = want.size();
    want.resize(old + (size_t)n * 65536);
  }
  void live() {
    stack = (uint8_t *)pwart_allocate_stack(16384);
    for (int i = 4 + opd(24); i > 0; i--) {
      op_mark();
      const char *what = "an operation";
      switch (opd(13)) {
        case 0: case 1: case 2: open(); what = "open"; break;
        case 3: case 4: case 5: io(true); what = "read"; break;
        case 6: case 7: case 8: io(false); what = "write"; break;
        case 9: if (!hs.empty()) { size_t k = opd(hs.size()); if (!hs[k].std) close(k); } what = "close"; break;
        case 10: switch (opd(3)) { case 0: standard(); break; case 1: grow(); what = "growth"; break; default: { uint8_t b[64]; for (auto &x : b) x = opd(256); poke(place(64), b, 64); } } break;
        case 11: copy(); what = "copy"; break;
        default: save(); what = "save"; break;
      }
      check(what);
    }
    for (size_t k = hs.size(); k-- > 0;) if (!hs[k].std) close(k);
    pwart_free_stack(stack);
  }
};
void run_s02() {
  simstdio.fail_pct = opd(3) ? opd(40) : 0;
  simstdio.dirty_errno = opd(2);
  if (opd(4) == 3) simstdio.capacity = 100 + opd(5000);
  if (opd(4) == 3) simstdio.open_limit = 1 + opd(4);
  for (int i = 0; i < 4; i++) if (opd(2)) { std::string &d = simstdio.files[PATHS[i]]; for (int n = opd(3) == 2 ? opd(9000) : opd(100); n > 0; n--) d += (char)(n * 7 + i); }
  { uint32_t q = opd(3) ? 0 : 20 + opd(200); set_sched({q, opd(2) == 1}); }
  wc::config();
  ns = pwart_namespace_new();
  int np = opd(3) == 2 ? 2 + opd(2) : 1;
  std::vector<Prog> ps(np);
  char names[4][4] = {"p0", "p1", "p2", "p3"};
  for (int k = 0; k < np; k++) { auto b = wc::unbounded(wat_stdio, sizeof wat_stdio); ps[k].m = opd(2) ? wc::load(ns, names[k], b.data(), b.size()) : wc::load(ns, names[k], wat_stdio, sizeof wat_stdio); ps[k].mem = pwart_get_export_memory(ps[k].m, "mem"); ps[k].sync(); }
  if (np == 1) ps[0].live();
  else { std::vector<int> t; for (auto &p : ps) { Prog *q = &p; t.push_back(spawn([q] { q->live(); }, "program", 256 * 1024)); } for (int x : t) join(x); }
  for (auto &f : simstdio.files) ilmix(f.second.size());
  pwart_namespace_delete(ns);
  finish(ST_OK);
}
static Reg reg({"S02", run_s02, "exploration", "distinct event logs: open, read, write, close, copy and save operations of one or several programs with the errors they met",
  90000, 1800000, "the file builtins of pwart, compiled WebAssembly programs calling them, compiler and runtime", "C stdio (in-memory files with errors, partial transfers, full disk, refused opens), heap and executable memory",
  {"buffers and names stay inside the program's memory", "files are not used after they were closed"}});
}
