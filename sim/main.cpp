// Driver: seeded search over runs, gating, minimisation, replay, evidence.
#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <array>
#include <unordered_set>
#include <algorithm>
#include <fstream>
#include <sstream>
using namespace sim;
namespace sim { void install_signals(); std::vector<Workload> &workloads(); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Workload *find_wl(const std::string &id) {
  for (auto &w : workloads()) if (id == w.id) return &w;
  return nullptr;
}
static Slot *new_slot() {
  void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Slot *)p;
}
static uint64_t run_seed(uint64_t base, const char *prop, uint64_t idx) {
  return mix64(mix64(base) ^ fnv(prop, strlen(prop)) ^ mix64(idx + 77));
}
// one execution in a pristine child
static void exec_run(Workload *w, Slot *s, uint64_t seed, bool replay) {
  int pid = fork();
  if (pid < 0) { perror("fork"); s->status = ST_ERROR; return; }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    begin_run(s, seed, replay);
    install_signals();
    run_main([w] { choose_cpu(); w->run(); });
    _exit(0);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0) {}
  if (s->status == ST_NONE) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { s->status = ST_ERROR; snprintf(s->msg, sizeof s->msg, "run was killed"); }
    else {
      s->status = ST_VIOL;
      snprintf(s->key, sizeof s->key, "died");
      snprintf(s->msg, sizeof s->msg, "the process running the system ended unexpectedly (wait status %d)", st);
    }
  }
}
struct Tapes { std::vector<uint32_t> t[NSTREAM]; };
static Tapes get_tapes(Slot *s) { Tapes r; for (int i = 0; i < NSTREAM; i++) r.t[i].assign(s->tape[i], s->tape[i] + s->tapelen[i]); return r; }
static void put_tapes(Slot *s, const Tapes &t) {
  for (int i = 0; i < NSTREAM; i++) {
    s->tapelen[i] = std::min<size_t>(t.t[i].size(), TAPE_CAP);
    memcpy(s->tape[i], t.t[i].data(), s->tapelen[i] * 4);
  }
}
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void write_replay(const std::string &path, Workload *w, const char *variant, uint64_t seed, uint64_t idx, Slot *s, const Tapes &t) {
  std::ofstream f(path);
  f << "{\n \"property\": " << jstr(w->id) << ",\n \"variant\": " << jstr(variant) << ",\n \"verif_seed\": " << seed << ",\n \"run_index\": " << idx
    << ",\n \"key\": " << jstr(s->key) << ",\n \"message\": " << jstr(s->msg) << ",\n \"loghash\": \"" << s->loghash << "\",\n";
  for (int i = 0; i < NSTREAM; i++) {
    f << " \"tape" << i << "\": [";
    for (size_t k = 0; k < t.t[i].size(); k++) f << (k ? "," : "") << t.t[i][k];
    f << "],\n";
  }
  f << " \"trace\": [";
  std::istringstream is(std::string(s->log, s->loglen));
  std::string l; bool first = true;
  while (std::getline(is, l)) { f << (first ? "\n  " : ",\n  ") << jstr(l); first = false; }
  f << "\n ]\n}\n";
}
static bool read_replay(const std::string &path, std::string &prop, std::string &key, uint64_t &hash, Tapes &t) {
  std::ifstream f(path);
  if (!f) return false;
  std::stringstream ss; ss << f.rdbuf();
  std::string s = ss.str();
  auto str = [&](const char *k) {
    std::string pat = std::string("\"") + k + "\": \"";
    size_t p = s.find(pat); if (p == std::string::npos) return std::string();
    p += pat.size(); size_t e = s.find('"', p); return s.substr(p, e - p);
  };
  prop = str("property"); key = str("key"); hash = strtoull(str("loghash").c_str(), nullptr, 10);
  for (int i = 0; i < NSTREAM; i++) {
    char pat[32]; snprintf(pat, sizeof pat, "\"tape%d\": [", i);
    size_t p = s.find(pat); if (p == std::string::npos) return false;
    p += strlen(pat);
    const char *c = s.c_str() + p;
    while (*c && *c != ']') { char *e; t.t[i].push_back(strtoul(c, &e, 10)); c = e; while (*c == ',' || *c == ' ') c++; }
  }
  return true;
}

// ---- minimisation ----------------------------------------------------------
struct Shrinker {
  Workload *w; Slot *s; std::string key; Tapes best; double deadline; int tries = 0;
  std::vector<std::array<uint32_t, NSTREAM>> marks;
  bool attempt(const Tapes &c) {
    if (now() > deadline) return false;
    tries++;
    put_tapes(s, c);
    exec_run(w, s, 0, true);
    if (s->status != ST_VIOL || key != s->key) return false;
    Tapes n;
    for (int i = 0; i < NSTREAM; i++) { n.t[i].assign(s->tape[i], s->tape[i] + std::min(s->used[i], s->tapelen[i])); while (!n.t[i].empty() && n.t[i].back() == 0) n.t[i].pop_back(); }
    best = n;
    marks.clear();
    for (uint32_t k = 0; k < s->nmarks; k++) { std::array<uint32_t, NSTREAM> a; for (int i = 0; i < NSTREAM; i++) a[i] = s->marks[k][i]; marks.push_back(a); }
    return true;
  }
  void run() {
    if (!attempt(best)) return;
    bool progress = true;
    while (progress && now() < deadline) {
      progress = false;
      // delete whole operations
      for (size_t len = std::max<size_t>(1, marks.size() / 2); len >= 1; len /= 2) {
        for (size_t i = 0; i + 1 <= marks.size() && now() < deadline;) {
          size_t j = std::min(i + len, marks.size());
          Tapes c = best;
          bool any = false;
          for (int k = 0; k < NSTREAM; k++) {
            size_t a = std::min<size_t>(marks[i][k], c.t[k].size());
            size_t b = j < marks.size() ? std::min<size_t>(marks[j][k], c.t[k].size()) : c.t[k].size();
            if (b > a) { c.t[k].erase(c.t[k].begin() + a, c.t[k].begin() + b); any = true; }
          }
          if (any && attempt(c)) progress = true; else i += len;
        }
        if (len == 1) break;
      }
      for (int k = NSTREAM - 1; k >= 0; k--) {
        // zero blocks, delete blocks
        for (size_t len = std::max<size_t>(1, best.t[k].size() / 2); len >= 1; len /= 2) {
          for (size_t i = 0; i < best.t[k].size() && now() < deadline; i += len) {
            Tapes c = best;
            bool any = false;
            for (size_t x = i; x < std::min(i + len, c.t[k].size()); x++) if (c.t[k][x]) { c.t[k][x] = 0; any = true; }
            if (any && attempt(c)) { progress = true; continue; }
            if (len <= 8) {
              c = best;
              if (i < c.t[k].size()) {
                c.t[k].erase(c.t[k].begin() + i, c.t[k].begin() + std::min(i + len, c.t[k].size()));
                size_t was = best.t[k].size();
                if (attempt(c) && best.t[k].size() < was) progress = true;
              }
            }
          }
          if (len == 1) break;
        }
        for (size_t i = 0; i < best.t[k].size() && now() < deadline; i++) {
          for (uint32_t div : {2u, 1u}) {
            if (i >= best.t[k].size() || best.t[k][i] < 2) break;
            Tapes c = best;
            c.t[k][i] = div == 2 ? c.t[k][i] / 2 : c.t[k][i] - 1;
            if (attempt(c)) { progress = true; if (div == 2) i--; break; }
          }
        }
      }
    }
  }
};

// ---- known findings --------------------------------------------------------
struct Known { std::string prop, key, match, text; };
static std::vector<Known> load_known(const std::string &path, const std::string &prop) {
  std::vector<Known> r;
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 6, "known:") != 0) continue;
    // known: property=X key=Y match=<text up to ' || '> || description
    Known k;
    auto get = [&](const char *n, const char *end) { size_t p = l.find(n); if (p == std::string::npos) return std::string(); p += strlen(n); size_t e = l.find(end, p); return l.substr(p, e == std::string::npos ? e : e - p); };
    k.prop = get("property=", " "); k.key = get("key=", " "); k.match = get("match=", " || "); k.text = get(" || ", "\n");
    if (k.prop == prop) r.push_back(k);
  }
  return r;
}

struct Agg {   // shared by workers
  uint64_t runs, ok, trunc, ops, steps, switches, simtime;
  uint64_t faults[NKIND], probes[NKIND], known, dup_checked;
  uint64_t nh;
  uint64_t hashes[1 << 20];
  uint64_t ilh[1 << 20];
};

int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && !getenv("SIM_NOASLR")) {
      setenv("SIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::string prop, tier = "quick", evid, repdir = ".", replay, known_path, variant = SIM_VARIANT;
  int64_t one = -1; uint64_t from = 0; int64_t runs = -1; int dup = 16; double budget = -1; bool determinism = false, verbose = false; int nw = 8; bool keep = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--evidence") evid = nx();
    else if (a == "--replays") repdir = nx(); else if (a == "--replay") replay = nx(); else if (a == "--known") known_path = nx();
    else if (a == "--one") one = atoll(nx().c_str()); else if (a == "--runs") runs = atoll(nx().c_str()); else if (a == "--from") from = atoll(nx().c_str());
    else if (a == "--dup") dup = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--workers") nw = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--keep-going") keep = true;
    else if (a == "--list") { for (auto &w : workloads()) puts(w.id); return 0; }
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
  }
  (void)determinism;
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
  signal(SIGPIPE, SIG_IGN);

  if (!replay.empty()) {
    std::string p, key; uint64_t h; Tapes t;
    if (!read_replay(replay, p, key, h, t)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
    Workload *w = find_wl(p);
    if (!w) { fprintf(stderr, "no workload %s in this binary\n", p.c_str()); return 3; }
    Slot *s = new_slot();
    put_tapes(s, t);
    exec_run(w, s, 0, true);
    if (verbose) fwrite(s->log, 1, s->loglen, stdout);
    if (s->status == ST_VIOL && key == s->key && (h == s->loghash || key == "hang")) {
      printf("reproduced: %s: %s\n", s->key, s->msg);
      printf("VIOLATION property=%s replay=%s\n", p.c_str(), replay.c_str());
      return 1;
    }
    printf("not reproduced: status %d key %s msg %s hash %llu (expected %s %llu)\n", s->status, s->key, s->msg, (unsigned long long)s->loghash, key.c_str(), (unsigned long long)h);
    return 0;
  }
  Workload *w = find_wl(prop);
  if (!w) { fprintf(stderr, "no workload %s\n", prop.c_str()); return 3; }
  if (one >= 0) {
    Slot *s = new_slot();
    exec_run(w, s, run_seed(seed, w->id, one), false);
    fwrite(s->log, 1, s->loglen, stdout);
    printf("status %d key %s msg %s ops %llu steps %llu tapes %u %u %u hash %llx\n", s->status, s->key, s->msg, (unsigned long long)s->ops, (unsigned long long)s->steps, s->tapelen[0], s->tapelen[1], s->tapelen[2], (unsigned long long)s->loghash);
    return s->status == ST_VIOL ? 1 : 0;
  }
  double t0 = now();
  uint64_t target = runs >= 0 ? runs : (tier == "thorough" ? w->thorough_runs : w->quick_runs);
  if (budget < 0) budget = tier == "thorough" ? 700 : 240;
  auto known = load_known(known_path, w->id);

  struct Shared { volatile uint64_t min_viol, min_err; char errmsg[512]; } *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->min_viol = sh->min_err = ~0ull;
  std::vector<Agg *> ag(nw);
  std::vector<Slot *> slots(nw);
  std::vector<int> pids(nw);
  for (int k = 0; k < nw; k++) {
    ag[k] = (Agg *)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slots[k] = new_slot();
  }
  for (int k = 0; k < nw; k++) {
    pids[k] = fork();
    if (pids[k]) continue;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Agg *a = ag[k]; Slot *s = slots[k];
    std::map<std::string, int> seen;
    for (uint64_t i = from + k; i < from + target; i += nw) {
      if (!keep && (i > sh->min_viol || i > sh->min_err)) break;
      if (now() - t0 > budget) break;
      uint64_t rs = run_seed(seed, w->id, i);
      exec_run(w, s, rs, false);
      if (s->status == ST_ERROR) { exec_run(w, s, rs, false); }
      if (s->status == ST_ERROR) { uint64_t m = sh->min_err; if (i < m) { sh->min_err = i; snprintf(sh->errmsg, sizeof sh->errmsg, "%s", s->msg); } if (!keep) break; printf("[%llu] ERROR %s\n", (unsigned long long)i, s->msg); continue; }
      a->runs++;
      a->ops += s->ops; a->steps += s->steps; a->switches += s->switches; a->simtime += s->simtime_us;
      for (int q = 0; q < (int)NKIND; q++) { a->faults[q] += s->faults[q]; a->probes[q] += s->probes[q]; }
      if (s->status == ST_OK) a->ok++;
      if (s->status == ST_TRUNC) a->trunc++;
      if (s->status == ST_OK && s->ops >= 2 && a->nh < (1 << 20)) { a->hashes[a->nh] = s->loghash; a->ilh[a->nh] = s->ilhash; a->nh++; }
      if (s->status == ST_VIOL) {
        bool kn = false;
        for (auto &q : known) if (q.key == s->key && strstr(s->msg, q.match.c_str())) kn = true;
        if (kn) { a->known++; continue; }
        if (keep) { std::string kk = s->key; if (seen[kk]++ < 2) { printf("[%llu] %s: %s\n", (unsigned long long)i, s->key, s->msg); fflush(stdout); } continue; }
        for (;;) { uint64_t m = sh->min_viol; if (i >= m || __sync_bool_compare_and_swap(&sh->min_viol, m, i)) break; }
        break;
      }
      if (dup && (i / nw) % dup == 0) {   // determinism self-check
        uint64_t h = s->loghash, il = s->ilhash; int st = s->status;
        exec_run(w, s, rs, false);
        a->dup_checked++;
        if (s->loghash != h || s->ilhash != il || s->status != st) { sh->min_err = i; snprintf(sh->errmsg, sizeof sh->errmsg, "run %llu is not repeatable", (unsigned long long)i); if (!keep) break; printf("NONDET %llu\n", (unsigned long long)i); }
      }
    }
    _exit(0);
  }
  for (int k = 0; k < nw; k++) { int st; waitpid(pids[k], &st, 0); }
  // union
  Agg *t = new Agg(); memset(t, 0, sizeof *t);
  std::unordered_set<uint64_t> hs, il;
  for (auto *a : ag) {
    t->runs += a->runs; t->ok += a->ok; t->trunc += a->trunc; t->ops += a->ops; t->steps += a->steps; t->switches += a->switches; t->simtime += a->simtime; t->known += a->known; t->dup_checked += a->dup_checked;
    for (int q = 0; q < (int)NKIND; q++) { t->faults[q] += a->faults[q]; t->probes[q] += a->probes[q]; }
    for (uint64_t q = 0; q < a->nh; q++) { hs.insert(a->hashes[q]); il.insert(a->ilh[q]); }
  }
  double wall_search = now() - t0;
  int rc = 0;
  std::string rep;
  Slot *s = new_slot();
  std::string vmsg;
  if (sh->min_viol == ~0ull && sh->min_err != ~0ull) {
    fprintf(stderr, "harness error in run %llu: %s\n", (unsigned long long)sh->min_err, sh->errmsg);
    rc = 2;
  }
  if (sh->min_viol != ~0ull) {
    uint64_t i = sh->min_viol, rs = run_seed(seed, w->id, i);
    exec_run(w, s, rs, false);
    Tapes orig = get_tapes(s);
    std::string key = s->key;
    printf("run %llu: %s: %s\n", (unsigned long long)i, s->key, s->msg);
    Shrinker sk{w, s, key, orig, now() + (tier == "thorough" ? 90 : 45), 0, {}};
    if (s->status == ST_VIOL) sk.run();
    mkdir(repdir.c_str(), 0755);
    rep = repdir + "/" + w->id + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".json";
    bool ok = false;
    for (int pass = 0; pass < 2 && !ok; pass++) {
      const Tapes &c = pass == 0 ? sk.best : orig;
      put_tapes(s, c); exec_run(w, s, 0, true);
      uint64_t h1 = s->loghash; bool v1 = s->status == ST_VIOL && key == s->key;
      put_tapes(s, c); exec_run(w, s, 0, true);
      bool v2 = s->status == ST_VIOL && key == s->key && (s->loghash == h1 || key == "hang");
      if (!v1 || !v2) continue;
      write_replay(rep, w, variant.c_str(), seed, i, s, c);
      std::string cmd = "/proc/self/exe";
      int pid = fork();
      if (!pid) { if (!freopen("/dev/null", "w", stdout)) {} execl("/proc/self/exe", "sim", "--replay", rep.c_str(), nullptr); _exit(9); }
      int st; waitpid(pid, &st, 0);
      ok = WIFEXITED(st) && WEXITSTATUS(st) == 1;
    }
    printf("minimised in %d replays to %zu/%zu/%zu choices (from %zu/%zu/%zu)\n", sk.tries, sk.best.t[0].size(), sk.best.t[1].size(), sk.best.t[2].size(), orig.t[0].size(), orig.t[1].size(), orig.t[2].size());
    if (!ok) { fprintf(stderr, "violation did not replay; treated as harness error\n"); rc = 2; }
    else {
      vmsg = std::string(s->key) + ": " + s->msg;
      printf("--- trace (last lines)\n");
      std::string lg(s->log, s->loglen);
      size_t p = lg.size() > 2500 ? lg.find('\n', lg.size() - 2500) + 1 : 0;
      fputs(lg.c_str() + p, stdout);
      printf("VIOLATION property=%s replay=%s\n", w->id, rep.c_str());
      rc = 1;
    }
  }
  if (!evid.empty()) {
    // sample: run index `from` once more for its log
    std::string samples;
    for (int k = 0; k < 3; k++) {
      exec_run(w, s, run_seed(seed, w->id, from + k * 37), false);
      std::string lg(s->log, std::min<uint32_t>(s->loglen, 900));
      samples += std::string(k ? ",\n   " : "\n   ") + "{\"run_index\": " + std::to_string(from + k * 37) + ", \"operations\": " + std::to_string(s->ops) + ", \"log_head\": " + jstr(lg) + "}";
    }
    double wall = now() - t0;
    std::ofstream f(evid);
    f << "{\n \"property\": " << jstr(w->id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": " << jstr(w->level) << ",\n \"coverage\": {\n";
    f << "  \"evaluations\": " << t->runs << ",\n  \"distinct_nontrivial\": " << hs.size() << ",\n  \"rule\": " << jstr(w->rule) << ",\n";
    f << "  \"runs_completed\": " << t->ok << ",\n  \"runs_cut_by_step_limit\": " << t->trunc << ",\n  \"runs_matching_known_findings\": " << t->known << ",\n";
    f << "  \"runs_per_hour\": " << (uint64_t)(t->runs / std::max(0.001, wall_search) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(t->runs / std::max(0.001, wall_search) * 3600) << ",\n";
    f << "  \"operations\": " << t->ops << ",\n  \"scheduling_steps\": " << t->steps << ",\n  \"context_switches\": " << t->switches << ",\n  \"simulated_time_us\": " << t->simtime << ",\n";
    f << "  \"distinct_interleaving_or_state_signatures\": " << il.size() << ",\n  \"signature_measure\": \"hash of every context switch (step, target) and every state sample of a run\",\n";
    f << "  \"runs_executed_twice_for_determinism\": " << t->dup_checked << ",\n  \"faults_injected\": {";
    bool first = true;
    for (int q = 0; q < nfaults(); q++) if (t->faults[q]) { f << (first ? "" : ", ") << jstr(fault_name(q)) << ": " << t->faults[q]; first = false; }
    f << "},\n  \"probes\": {";
    first = true;
    for (int q = 0; q < nprobes(); q++) if (t->probes[q]) { f << (first ? "" : ", ") << jstr(probe_name(q)) << ": " << t->probes[q]; first = false; }
    f << "},\n  \"real_components\": " << jstr(w->real_parts) << ",\n  \"stubbed_components\": " << jstr(w->stub_parts) << ",\n  \"variant\": " << jstr(variant) << ",\n  \"workers\": " << nw << ",\n";
    if (rc == 1) f << "  \"violation\": " << jstr(vmsg) << ",\n  \"replay\": " << jstr(rep) << ",\n";
    f << "  \"samples\": [" << samples << "\n  ]\n },\n \"assumptions\": [";
    for (size_t q = 0; q < w->assumptions.size(); q++) f << (q ? ", " : "") << jstr(w->assumptions[q]);
    f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
  }
  for (auto &k : known) printf("KNOWN-FINDING: property=%s %s\n", w->id, k.text.c_str());
  printf("%s %s: %llu runs (%llu complete, %llu cut), %zu distinct, %llu ops, %.1fs, rc %d\n", w->id, tier.c_str(), (unsigned long long)t->runs, (unsigned long long)t->ok, (unsigned long long)t->trunc, hs.size(), (unsigned long long)t->ops, now() - t0, rc);
  if (verbose) {
    for (int q = 0; q < nfaults(); q++) if (t->faults[q]) printf("  fault %-28s %llu\n", fault_name(q), (unsigned long long)t->faults[q]);
    for (int q = 0; q < nprobes(); q++) printf("  probe %-28s %llu\n", probe_name(q), (unsigned long long)t->probes[q]);
  }
  return rc;
}
