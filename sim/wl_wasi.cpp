// S03: the WASI binding on a simulated uvwasi: one call each with the program's arguments, effects on the program's memory as it
// is at that moment, the outcome reported, arguments and environment delivered completely.
#include "wcall.h"
#include "simuv.h"
#include "simwasi.h"
#include "wat_wasi.h"
#include "wasi_ops.h"
#include <algorithm>
extern "C" {
#include <pwart_syslib.h>
}
using namespace sim;
namespace {
const int P_GROWN = probe_kind("WASI call after growth"), P_MOVING = probe_kind("program whose memory moves when it grows"), P_SWITCH = probe_kind("WASI switched to another program"), P_REINIT = probe_kind("WASI initialised again"), P_VEC = probe_kind("vector of several parts"), P_EDGE = probe_kind("buffer at the end of memory"),
  P_ENV = probe_kind("environment delivered"), P_ARGS = probe_kind("arguments delivered"), P_BACK = probe_kind("read back what was written"), P_OVER = probe_kind("overlapping buffers"), P_POLL = probe_kind("several subscriptions");
const uint64_t G1 = 0x1122334455667788ull, G2 = 0x0102030405060708ull;
const char *PATHS[] = {"a", "b.txt", "dir/c", "\xc3\xa9", "long name with spaces and more than thirty-two bytes", ""};
const uint32_t SPECIAL[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x12345678};
struct Prog {
  pwart_module_state m; pwart_wasm_memory *mem; std::vector<uint8_t> want; bool grown = false;
  void sync() { want.assign(mem->bytes, mem->bytes + (size_t)mem->pages * 65536); }
  void poke(uint32_t o, const void *p, size_t n) { memcpy(mem->bytes + o, p, n); memcpy(want.data() + o, p, n); }
  void check(const char *what) {
    size_t n = (size_t)mem->pages * 65536;
    if (n != want.size()) violation("memory size", "memory has %zu bytes instead of %zu after %s", n, want.size(), what);
    if (memcmp(mem->bytes, want.data(), n)) { size_t i = 0; while (mem->bytes[i] == want[i]) i++; violation("memory", "%s left %02x instead of %02x at %zu", what, mem->bytes[i], want[i], i); }
  }
  uint32_t place(size_t n) {                     // n bytes anywhere, often at an edge
    uint32_t room = want.size() - n;
    switch (opd(8)) { case 0: return 0; case 1: case 2: hit(P_EDGE); return room; case 3: return 4 * opd(8) > room ? room : 4 * opd(8); default: return opd(room + 1); }
  }
  uint32_t u32(uint32_t o) { uint32_t v; memcpy(&v, want.data() + o, 4); return v; }
};
uint8_t *stack;
std::vector<Prog *> progs;
Prog *p;
uint32_t some32() { return opd(2) ? SPECIAL[opd(7)] : (uint32_t)opd(~0u); }
uint64_t some64() { return opd(3) ? (uint64_t)opd(300) : (uint64_t)some32() << 32 | some32(); }
uint32_t some_fd() {
  std::vector<uint32_t> o;
  for (size_t i = 3; i < simwasi.fds.size(); i++) if (simwasi.fds[i].used) o.push_back(i);
  return o.empty() || opd(12) == 0 ? some32() : opd(12) == 0 ? opd(4) : o[opd(o.size())];
}
struct Vec { uint32_t off, len; };
std::vector<std::string> argv;
size_t base_other;
std::vector<uint64_t> thunk(const char *name, const std::vector<wc::V> &a, const char *res) {
  simwasi.hist.clear(); simuv.hist.clear();
  set_context("%s", name);
  std::string s; for (auto &v : a) { char b[24]; snprintf(b, sizeof b, " %llx", (unsigned long long)v.v); s += b; }
  logf("%s%s", name, s.c_str());
  auto o = wc::call(wc::fn(p->m, name), stack + 64 + 16 * opd(4), a, res);
  if (*res == 'l' && (o[0] != G1 || o.back() != G2)) violation("operands", "%s lost operands of its caller", name);
  if (heap_live(D_OTHER) != base_other) violation("system-leak", "%s left %zd blocks of the system libraries", name, (ssize_t)heap_live(D_OTHER) - (ssize_t)base_other);
  op_mark();
  return o;
}
void list(bool env) {                            // arguments or environment, sizes and contents
  std::vector<std::string> all;
  if (env) for (auto &e : simuv.env) all.push_back(e.first + "=" + e.second); else all = argv;
  uint32_t total = 0; for (auto &s : all) total += s.size() + 1;
  const char *what = env ? "environ" : "args";
  auto refused = [&] { if (!env) return !simwasi.hist.empty() && simwasi.hist.back().err; auto &h = simuv.hist[cur()]; return std::any_of(h.begin(), h.end(), [](UvRec &r) { return !strcmp(r.op, "os_environ") && r.res; }); };
  uint32_t c = p->place(8), z = opd(2) ? (c >= 4 ? c - 4 : c + 4) : c + 4;
  std::string n = std::string(what) + "_sizes_get";
  auto o = thunk(n.c_str(), {wc::i(c), wc::i(z)}, "lil");
  if (refused()) { if (!(uint32_t)o[1]) violation("outcome", "%s reported success although the system refused", n.c_str()); }
  else {
    if ((uint32_t)o[1]) violation("outcome", "%s reported error %u", n.c_str(), (uint32_t)o[1]);
    uint32_t gc, gz; memcpy(&gc, p->mem->bytes + c, 4); memcpy(&gz, p->mem->bytes + z, 4);
    if (gc != all.size() || gz != total) violation("list-sizes", "%s says %u strings of %u bytes instead of %zu of %u", n.c_str(), gc, gz, all.size(), total);
  }
  memcpy(p->want.data() + c, p->mem->bytes + c, 4); memcpy(p->want.data() + z, p->mem->bytes + z, 4);
  p->check(n.c_str());
  if (p->grown) hit(P_GROWN);
  uint32_t both = 4 * all.size() + total, at = p->place(both), v = at, b = at + 4 * all.size();
  if (opd(2)) b = at, v = at + total;
  n = std::string(what) + "_get";
  o = thunk(n.c_str(), {wc::i(v), wc::i(b)}, "lil");
  if (refused()) { if (!(uint32_t)o[1]) violation("outcome", "%s reported success although the system refused", n.c_str()); }
  else {
    if ((uint32_t)o[1]) violation("outcome", "%s reported error %u", n.c_str(), (uint32_t)o[1]);
    hit(env ? P_ENV : P_ARGS);
    uint32_t next = b;
    for (size_t i = 0; i < all.size(); i++) {
      uint32_t q; memcpy(&q, p->mem->bytes + v + 4 * i, 4);
      if (q != next) violation("list", "%s put string %zu at %u instead of %u", n.c_str(), i, q, next);
      if (memcmp(p->mem->bytes + q, all[i].c_str(), all[i].size() + 1)) violation("list", "%s delivered another string %zu", n.c_str(), i);
      next += all[i].size() + 1;
    }
  }
  memcpy(p->want.data() + at, p->mem->bytes + at, both);
  p->check(n.c_str());
}
void call(const WasiOp &op) {
  std::string name = op.name, sig = op.sig;
  if (name == "args_get" || name == "args_sizes_get") return list(false);
  if (name == "environ_get" || name == "environ_sizes_get") return list(true);
  std::vector<wc::V> a;
  std::vector<uint64_t> expect;                  // C arguments; a vector's address is not compared
  std::vector<bool> free_;
  std::vector<std::string> paths;
  std::vector<Vec> vec;
  uint8_t *mb = p->mem->bytes;
  uint32_t subs = 1 + opd(opd(3) ? 2 : 6);
  auto ptr = [&](uint32_t off) { a.push_back(wc::i(off)); expect.push_back((uint64_t)(mb + off)); free_.push_back(false); };
  auto val = [&](uint32_t v, uint32_t mask) { a.push_back(wc::i(v)); expect.push_back(v & mask); free_.push_back(false); };
  uint32_t last = 0; bool had = false;           // buffers may overlap
  auto place = [&](size_t n) { uint32_t o = p->place(n); if (had && opd(10) == 0 && last + n <= p->want.size()) { hit(P_OVER); o = last; } last = o; had = true; return o; };
  for (size_t i = 0; i < sig.size(); i++) switch (sig[i]) {
    case 'i': {
      uint32_t v = some32();
      if (name == "poll_oneoff") v = opd(20) ? subs : 0; else if (name.substr(0, 4) != "proc" && (i == 0 || name == "fd_renumber" || (name == "path_link" && i == 3) || (name == "path_rename" && i == 2) || name == "path_symlink") && name != "clock_time_get") v = some_fd();
      if (name == "poll_oneoff") subs = v;
      val(v, ~0u); break;
    }
    case '1': { uint32_t v = opd(3) ? opd(4) : opd(256); val(v, 0xff); break; }
    case '2': { static const uint32_t OF[] = {0, 1, 1, 9, 5, 8, 2}; uint32_t v = name == "path_open" && !opd(8) == 0 ? OF[opd(7)] : opd(3) ? opd(8) : opd(65536); val(v, 0xffff); break; }
    case 'l': {
      uint64_t v = some64();
      if (name == "fd_seek" && opd(3)) v = (int64_t)opd(200) - 60; else if (name == "path_open") v = some64() << 32 | some32(); else if (name.substr(0, 2) == "fd" && opd(4)) v = opd(300);
      a.push_back(wc::l(v)); expect.push_back(v); free_.push_back(false); break;
    }
    case 'p': ptr(place(name == "poll_oneoff" ? 6 * sizeof(uvwasi_subscription_t) : 64)); break;
    case 's': {
      std::string s = PATHS[opd(6)]; if (opd(6) == 0 && s.size()) s.resize(opd(s.size()));
      uint32_t off = place(s.size() + 1); std::string w = s + (opd(2) ? "" : "tail");
      if (off + w.size() > p->want.size()) w = s;
      p->poke(off, w.data(), w.size()); ptr(off); val(s.size(), ~0u); paths.push_back(s); break;
    }
    case 'b': { uint32_t n = opd(3) == 2 ? opd(3000) : opd(40); ptr(place(n)); val(n, ~0u); break; }
    default: {
      uint32_t n = opd(4) == 3 ? opd(40) : opd(4), at = place(8 * n);
      if (n > 1) hit(P_VEC);
      for (uint32_t k = 0; k < n; k++) {
        uint32_t len = opd(6) == 5 ? opd(9000) : opd(40); Vec v{place(len), len};
        p->poke(at + 8 * k, &v.off, 4); p->poke(at + 8 * k + 4, &v.len, 4);
      }
      for (uint32_t k = 0; k < n; k++) {         // parts may lie over the vector itself only by its own choice of places
        vec.push_back({p->u32(at + 8 * k), p->u32(at + 8 * k + 4)});
      }
      a.push_back(wc::i(at)); expect.push_back(0); free_.push_back(true); val(n, ~0u);
    }
  }
  paths.clear();                                 // as memory says now: later buffers may have been laid over earlier ones
  for (size_t i = 0, k = 0; i < sig.size(); i++) { if (sig[i] == 's') paths.push_back(std::string((char *)p->want.data() + (uint32_t)a[k].v, a[k + 1].v)); k += strchr("sbvw", sig[i]) ? 2 : 1; }
  std::string gathered; for (auto &v : vec) gathered.append((char *)p->want.data() + v.off, v.len);
  std::string in; if (name == "poll_oneoff") { in.assign((char *)p->want.data() + (uint32_t)a[0].v, subs * sizeof(uvwasi_subscription_t)); if (subs > 1) hit(P_POLL); }
  bool exits = name == "proc_exit";
  auto o = thunk(op.name, a, exits ? "ll" : "lil");
  auto &h = simwasi.hist;
  if (h.size() != 1 || h[0].op != name) violation("calls", "%s made %zu calls, the first %s", op.name, h.size(), h.empty() ? "none" : h[0].op.c_str());
  WasiRec &r = h[0];
  if (r.err) logf("  error %u", r.err);
  if (r.args.size() != expect.size()) harness_error("%s records %zu arguments instead of %zu", op.name, r.args.size(), expect.size());
  for (size_t i = 0; i < expect.size(); i++) if (!free_[i] && r.args[i] != expect[i]) violation("argument", "%s got 0x%llx as argument %zu instead of 0x%llx", op.name, (unsigned long long)r.args[i], i, (unsigned long long)expect[i]);
  if (r.paths != paths) violation("path", "%s got another path", op.name);
  if (r.vec.size() != vec.size()) violation("vector", "%s got %zu parts instead of %zu", op.name, r.vec.size(), vec.size());
  for (size_t i = 0; i < vec.size(); i++) if (r.vec[i].buf != mb + vec[i].off || r.vec[i].len != vec[i].len) violation("vector", "%s got part %zu at %+lld of %u bytes instead of %u of %u", op.name, i, (long long)(r.vec[i].buf - mb), r.vec[i].len, vec[i].off, vec[i].len);
  if (sig.find('w') != std::string::npos && r.data != gathered.substr(0, r.data.size())) violation("vector", "%s passed other bytes", op.name);
  if (name == "poll_oneoff" && r.data != in) violation("subscriptions", "%s passed other subscriptions", op.name);
  if (!exits && (uint32_t)o[1] != r.err) violation("outcome", "%s returned %u instead of %u", op.name, (uint32_t)o[1], r.err);
  for (auto &w : r.writes) {
    if (w.at < mb || w.at + w.bytes.size() > mb + p->want.size()) continue;      // a vector kept elsewhere
    memcpy(p->want.data() + (w.at - mb), w.bytes.data(), w.bytes.size());
  }
  if (p->mem->bytes != mb) harness_error("memory moved during a call");
  p->check(op.name);
  if (p->grown) hit(P_GROWN);
}
const WasiOp &named(const char *n) { for (auto &o : WASI_OPS) if (!strcmp(o.name, n)) return o; harness_error("no WASI call %s", n); }
void copy_back() {                               // a file written, closed, opened and read by the program
  hit(P_BACK);
  auto run = [&](const char *n, const std::vector<wc::V> &a) {
    auto o = thunk(n, a, "lil");
    for (auto &r : simwasi.hist) for (auto &w : r.writes) { if (w.at < p->mem->bytes || w.at + w.bytes.size() > p->mem->bytes + p->want.size()) continue; memcpy(p->want.data() + (w.at - p->mem->bytes), w.bytes.data(), w.bytes.size()); }
    p->check(n);
    return (uint32_t)o[1];
  };
  uint32_t len = 1 + opd(500), src = 1024 + opd(1000), dst = 4096 + opd(1000), vecs = 100, fdp = 200, cnt = 204, path = 300;
  std::string data(len, 0); for (auto &c : data) c = opd(256);
  p->poke(path, "copy", 4); p->poke(src, data.data(), len);
  auto open = [&](uint32_t fl) { return run("path_open", {wc::i(3), wc::i(0), wc::i(path), wc::i(4), wc::i(fl), wc::l(~0ull), wc::l(0), wc::i(0), wc::i(fdp)}); };
  if (open(9)) return;
  uint32_t f = p->u32(fdp), done = 0;
  for (int tries = 0; done < len && tries < 40; tries++) {
    uint32_t left = len - done, cut = opd(left + 1), e[4] = {src + done, cut, src + done + cut, left - cut};
    p->poke(vecs, e, 16);
    if (run("fd_write", {wc::i(f), wc::i(vecs), wc::i(2), wc::i(cnt)})) continue;
    done += p->u32(cnt);
  }
  auto shut = [&] { for (int i = 0; i < 40; i++) { uint32_t e = run("fd_close", {wc::i(f)}); if (!e || e == UVWASI_EBADF) return; } };
  shut();
  if (done < len || open(0)) return;
  f = p->u32(fdp);
  uint32_t got = 0, end = 0;
  for (int tries = 0; !end && tries < 40; tries++) {
    uint32_t e[4] = {dst + got, opd(60), dst + got, 0}; e[2] += e[1]; e[3] = 1 + opd(200); if (got + e[1] + e[3] > 1500) break;
    p->poke(vecs, e, 16);
    if (run("fd_read", {wc::i(f), wc::i(vecs), wc::i(2), wc::i(cnt)})) continue;
    got += p->u32(cnt);
    if (got >= len) end = 1;
  }
  shut();
  if (end && (got != len || memcmp(p->mem->bytes + dst, data.data(), len))) violation("file", "a program read back %u bytes of a file that differ from the %u it wrote", got, len);
}
void init() {
  for (;;) {
    std::vector<char *> v; for (auto &s : argv) v.push_back((char *)s.c_str());
    v.push_back(nullptr);
    pwart_wasi_module_set_wasiargs(argv.size(), v.data());
    uint64_t n = simwasi.inits;
    char *e = pwart_wasi_module_init();
    bool ok = simwasi.inits > n;
    logf("init %zu arguments: %s", argv.size(), e ? "refused" : "ok");
    if (ok && e) violation("init", "initialising reported '%s' although it succeeded", e);
    if (!ok && !e) violation("init", "a refused initialisation was reported as done");
    if (simwasi.init_args != argv) violation("init", "the environment got other arguments");
    if (simwasi.init_in != 0 || simwasi.init_out != 1 || simwasi.init_err != 2) violation("init", "the environment got other standard streams");
    if (simwasi.live.size() != (ok ? 1 : 0)) violation("init", "%zu environments are initialised", simwasi.live.size());
    if (ok) break;
    if (opd(3) == 2) simwasi.init_fail_pct = 0;
  }
  base_other = heap_live(D_OTHER);
}
std::vector<std::string> words(int max) {
  static const char *W[] = {"prog", "", "-x", "--long=value", "with space", "\xe2\x82\xac", "0123456789012345678901234567890123456789"};
  std::vector<std::string> o; for (int i = opd(max); i > 0; i--) o.push_back(W[opd(7)]);
  return o;
}
void run_s03() {
  static const int PCT[] = {0, 0, 5, 25};
  simwasi.fail_pct = PCT[opd(4)]; simwasi.short_pct = PCT[opd(4)]; simwasi.clock_jump_pct = PCT[opd(4)]; simwasi.init_fail_pct = PCT[opd(4)];
  simuv.env_refuse_pct = opd(4) == 3 ? 30 : 0;
  if (opd(3) == 2) simwasi.capacity = opd(400);
  for (auto &s : words(6)) simuv.env.push_back({"K" + std::to_string(simuv.env.size()), s});
  argv = words(6);
  size_t other0 = heap_live(D_OTHER), pw0 = heap_live(D_PW), sy0 = heap_live(D_SYSLIB), jit0 = heap_live(D_SLJIT);
  uint64_t seq = heap_seq();
  wc::config();
  auto *wasi = pwart_wasi_module_new();
  auto *ns = pwart_namespace_new();
  pwart_namespace_define_host_module(ns, "wasi_snapshot_preview1", wasi);
  init();
  stack = (uint8_t *)pwart_allocate_stack(32768);
  for (int i = 1 + (opd(3) == 2); i > 0; i--) {
    Prog *q = new Prog;
    if (opd(3)) { auto b = wc::unbounded(wat_wasi, sizeof wat_wasi); q->m = wc::load(ns, i == 1 ? "one" : "two", b.data(), b.size()); hit(P_MOVING); }
    else q->m = wc::load(ns, i == 1 ? "one" : "two", wat_wasi, sizeof wat_wasi);
    q->mem = pwart_get_export_memory(q->m, "mem");
    q->sync(); progs.push_back(q);
  }
  p = progs[0];
  { std::string fill(8192, 0); uint32_t x = opd(1u << 30) + 1; for (auto &c : fill) { x = x * 1664525 + 1013904223; c = x >> 24; } for (auto *q : progs) q->poke(q->place(8192), fill.data(), 8192); }
  pwart_wasi_module_set_wasimemory(p->mem);
  static const char *HOT[] = {"path_open", "path_open", "path_open", "fd_write", "fd_write", "fd_read", "fd_read", "fd_pread", "fd_pwrite", "fd_seek", "fd_tell", "fd_close", "fd_filestat_get", "clock_time_get", "path_rename", "fd_readdir"};
  for (int i = 8 + opd(50); i > 0; i--) {
    switch (opd(24)) {
      case 0: {
        uint32_t n = opd(5) == 4 ? 20 : opd(3); uint32_t old = p->mem->pages;
        uint32_t got = (uint32_t)thunk("grow", {wc::i(n)}, "i")[0];
        if (got == old) { p->want.resize((size_t)(old + n) * 65536); if (n) p->grown = true; } else if (got != ~0u) violation("grow", "growth returned %u instead of %u", got, old);
        p->check("memory.grow");
        break;
      }
      case 1: if (progs.size() > 1) { hit(P_SWITCH); p = p == progs[0] ? progs[1] : progs[0]; pwart_wasi_module_set_wasimemory(p->mem); logf("switch"); } break;
      case 2: if (opd(3) == 2) { hit(P_REINIT); if (opd(2)) argv = words(6); init(); } break;
      case 3: copy_back(); break;
      case 4: case 5: case 6: case 7: case 8: case 9: call(WASI_OPS[opd(sizeof WASI_OPS / sizeof *WASI_OPS)]); break;
      default: call(named(HOT[opd(16)]));
    }
  }
  for (auto *q : progs) q->check("the end");
  pwart_free_stack(stack);
  if (char *e = pwart_namespace_delete(ns)) violation("delete", "deleting the namespace failed: %s", e);
  if (char *e = pwart_wasi_module_delete(wasi)) violation("delete", "deleting the module failed: %s", e);
  if (!simwasi.live.empty()) violation("init", "the environment is left initialised");
  if (heap_live(D_OTHER) != other0 || heap_live(D_PW) != pw0 || heap_live(D_SYSLIB) != sy0 || heap_live(D_SLJIT) != jit0) violation("leak", "blocks are left at the end: %s", heap_describe_live(seq).c_str());
}
Reg reg({"S03", run_s03, "exploration", "distinct event logs: WASI calls with their arguments and outcomes, growth and program switches in order",
  20000, 400000, "the WASI binding of pwart_syslib, compiled WebAssembly programs calling it, compiler and runtime", "uvwasi (in-memory file system, descriptors, clock, recorded calls) and libuv's environment list, heap and executable memory",
  {"structures of uvwasi have the layout of WASI's (the binding passes them through)", "buffers lie inside the program's memory, vectors have at most 40 parts", "one WASI environment per process, as documented"}});
}
