// R01/R02: streaming regular-expression matcher against a reference matcher
// that is built from the generated syntax tree (it never parses the pattern).
#include "redirect.h"
#include <algorithm>
#include <bitset>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
extern "C" {
#include "sljitLir.h"
#include "regexJIT.h"
}
using namespace sim;
namespace {
const int F_HEAP = fault_kind("allocation refused while compiling a pattern");
const int F_EXEC = fault_kind("executable memory refused while compiling a pattern");
const int F_MATCH = fault_kind("allocation refused while starting a match");
const int F_CUT = fault_kind("input cut inside a match");
const int F_RESET = fault_kind("match reset in progress");
const int F_ABANDON = fault_kind("match abandoned in progress");
const int P_MATCH = probe_kind("match found");
const int P_NONE = probe_kind("no match");
const int P_FIN = probe_kind("matcher reported finished early");
const int P_ID = probe_kind("rule identifier reported");
const int P_BIG = probe_kind("pattern above 62 stack items");
const int P_CUT = probe_kind("pattern cut short but valid");
const int P_INV = probe_kind("invalid pattern rejected");
const int P_HIGH = probe_kind("character above 0x7f matched");
const int P_INTER = probe_kind("other match advanced between two pieces");
const int P_NLB = probe_kind("match at an inner line");

// ---------------------------------------------------------------- patterns
struct Node;
typedef std::shared_ptr<Node> NP;
struct Node {
  enum K { EMPTY, SET, CAT, ALT, REP, ID } k;
  std::bitset<256> set;
  std::vector<NP> kid;
  int lo = 0, hi = -1, id = 0;
};
NP mk(Node::K k) { auto n = std::make_shared<Node>(); n->k = k; return n; }

struct Nfa {
  struct Eps { int to, id; };
  std::vector<std::vector<Eps>> eps;
  std::vector<std::bitset<256>> set;   // at most one character edge per state
  std::vector<int> to;
  int start = 0, acc = 0;
  int add() { eps.push_back({}); set.push_back({}); to.push_back(-1); return (int)to.size() - 1; }
  int build(const Node &n, int from) {
    switch (n.k) {
      case Node::EMPTY: return from;
      case Node::SET: { int t = add(); int f = add(); eps[from].push_back({f, 0}); set[f] = n.set; to[f] = t; return t; }
      case Node::ID: { int t = add(); eps[from].push_back({t, n.id}); return t; }
      case Node::CAT: for (auto &k : n.kid) from = build(*k, from); return from;
      case Node::ALT: { int t = add(); for (auto &k : n.kid) { int s = add(); eps[from].push_back({s, 0}); int e = build(*k, s); eps[e].push_back({t, 0}); } return t; }
      case Node::REP: {
        for (int i = 0; i < n.lo; i++) from = build(*n.kid[0], from);
        if (n.hi < 0) {
          int s = add(), t = add();
          eps[from].push_back({s, 0});
          int e = build(*n.kid[0], s);
          eps[e].push_back({s, 0});
          eps[s].push_back({t, 0});
          return t;
        }
        int t = add();
        for (int i = n.lo; i < n.hi; i++) { eps[from].push_back({t, 0}); from = build(*n.kid[0], from); }
        eps[from].push_back({t, 0});
        return t;
      }
    }
    return from;
  }
};

struct Pat {
  std::string s;
  int flags = 0;                 // given to the compiler
  bool beg = false, end = false, nl = false, ng = false;
  Nfa n;
  int size = 0;
};
bool is_nl(uint8_t c) { return c == '\n' || c == '\r'; }

// reference: incremental simulation, one state vector per beginning
struct Ref {
  const Pat *p = nullptr;
  std::string text;
  struct Th { int begin; std::vector<int> id; bool dead; std::vector<std::pair<int, int>> ends; };
  std::vector<Th> th;
  void close(std::vector<int> &id) {
    std::vector<int> wl;
    for (size_t i = 0; i < id.size(); i++) if (id[i] >= 0) wl.push_back(i);
    while (!wl.empty()) {
      int s = wl.back(); wl.pop_back();
      for (auto &e : p->n.eps[s]) { int v = std::max(id[s], e.id); if (id[e.to] < v) { id[e.to] = v; wl.push_back(e.to); } }
    }
  }
  void birth() {
    int b = text.size();
    if (p->beg && !(b == 0 || (p->nl && is_nl(text[b - 1])))) return;
    Th t{b, std::vector<int>(p->n.to.size(), -1), false, {}};
    t.id[p->n.start] = 0;
    close(t.id);
    if (t.id[p->n.acc] >= 0) t.ends.push_back({b, t.id[p->n.acc]});
    th.push_back(std::move(t));
  }
  void reset(const Pat *q) { p = q; text.clear(); th.clear(); birth(); }
  void feed(uint8_t c) {
    text.push_back(c);
    for (auto &t : th) {
      if (t.dead) continue;
      std::vector<int> nx(t.id.size(), -1);
      bool any = false;
      for (size_t i = 0; i < t.id.size(); i++) if (t.id[i] >= 0 && p->n.to[i] >= 0 && p->n.set[i][c]) { int d = p->n.to[i]; nx[d] = std::max(nx[d], t.id[i]); any = true; }
      if (!any) { t.dead = true; continue; }
      close(nx);
      t.id.swap(nx);
      if (t.id[p->n.acc] >= 0) t.ends.push_back({(int)text.size(), t.id[p->n.acc]});
    }
    birth();
  }
  bool result(int &b, int &e, int &id) {
    int n = text.size();
    for (auto &t : th) {
      bool f = false;
      for (auto &x : t.ends) {
        bool ok = !p->end || x.first == n || (p->nl && is_nl(text[x.first]));
        if (!ok) continue;
        if (f && p->ng) break;
        f = true; b = t.begin; e = x.first; id = x.second;
      }
      if (f) return true;
    }
    return false;
  }
};

// generator: produces text and tree together
const char *const alpha = "aabbccde\n\r x1{},-$^]\xe9\xff";
uint8_t rnd_char(uint32_t spread) { return (uint8_t)alpha[draw(OP, spread)]; }
uint32_t spread;       // how much of alpha is in use
struct Gen {
  int budget;
  bool nl;
  std::string lit(uint8_t c) {
    if (strchr("\\.()|*+?{[", c) && c) return std::string("\\") + (char)c;
    if (c == '^' || c == '$') return std::string("\\") + (char)c;
    if (draw(OP, 12) == 1) return std::string("\\") + (char)c;
    return std::string(1, (char)c);
  }
  NP atom(std::string &s, int depth) {
    uint32_t k = draw(OP, 12);
    if (k >= 10 && depth > 0) {
      s += "(";
      NP a = alt(s, depth - 1);
      s += ")";
      return a;
    }
    budget--;
    NP n = mk(Node::SET);
    if (k == 7) {
      s += ".";
      n->set.set();
      if (nl) { n->set.reset('\n'); n->set.reset('\r'); budget -= 2; }
      return n;
    }
    if (k >= 8) {
      bool inv = draw(OP, 3) == 1;
      s += inv ? "[^" : "[";
      if (draw(OP, 8) == 1) { s += "]"; n->set.set(']'); }
      int cnt = 1 + draw(OP, draw(OP, 6) == 1 ? 9 : 3);
      auto put = [&](uint8_t c) { if (c == ']' || c == '\\' || c == '^' || c == '-' || draw(OP, 12) == 1) s += "\\"; s += (char)c; };
      for (int i = 0; i < cnt; i++) {
        uint8_t a = rnd_char(spread);
        put(a);
        budget--;
        if (draw(OP, 3) == 1) {
          uint8_t b = rnd_char(spread);
          s += "-";
          // an escaped first character of the right side is always accepted
          put(b);
          for (int c = std::min(a, b); c <= std::max(a, b); c++) n->set.set(c);
        } else n->set.set(a);
      }
      if (draw(OP, 8) == 1) { s += "-"; n->set.set('-'); }
      s += "]";
      if (inv) n->set.flip();
      return n;
    }
    uint8_t c = rnd_char(spread);
    n->set.set(c);
    s += lit(c);
    return n;
  }
  NP item(std::string &s, int depth) {
    int b0 = budget;
    NP a = atom(s, depth);
    int ops = draw(OP, 5) == 1 ? 1 + draw(OP, 2) : draw(OP, 3) == 1 ? 1 : 0;
    for (int i = 0; i < ops; i++) {
      int cost = std::max(1, b0 - budget);
      uint32_t k = draw(OP, 8);
      NP r = mk(Node::REP);
      r->kid.push_back(a);
      char t[40];
      if (k == 0) { s += "*"; r->lo = 0; r->hi = -1; budget -= 2; }
      else if (k == 1) { s += "+"; r->lo = 1; r->hi = -1; budget--; }
      else if (k == 2) { s += "?"; r->lo = 0; r->hi = 1; budget--; }
      else if (k == 3) {
        r = mk(Node::CAT);
        NP d = mk(Node::ID);
        d->id = draw(OP, 6);
        snprintf(t, sizeof t, "{%d!}", d->id);
        s += t;
        r->kid = {a, d};
        budget--;
      } else {
        int room = std::max(1, std::min(90, budget / cost));
        int hi = draw(OP, 5) == 1 ? draw(OP, room + 1) : draw(OP, std::min(room, 4) + 1);
        int lo = draw(OP, hi + 1);
        if (k == 4) { lo = hi; snprintf(t, sizeof t, "{%d}", hi); }
        else if (k == 5) { lo = hi; r->lo = lo; r->hi = -1; snprintf(t, sizeof t, lo || draw(OP, 2) ? "{%d,}" : "{,}", lo); }
        else if (k == 6 && lo == 0) snprintf(t, sizeof t, "{,%d}", hi);
        else snprintf(t, sizeof t, "{%d,%d}", lo, hi);
        r->lo = lo;
        r->hi = k == 5 ? -1 : hi;
        s += t;
        budget -= cost * std::max(0, hi - 1) + (hi - lo) + 1;
      }
      a = r;
    }
    return a;
  }
  NP cat(std::string &s, int depth) {
    NP c = mk(Node::CAT);
    int n = draw(OP, 10) == 1 ? 0 : 1 + draw(OP, 4);
    if (draw(OP, 16) == 1) {
      NP d = mk(Node::ID); d->id = draw(OP, 6);
      s += "{" + std::to_string(d->id) + "!}";
      c->kid.push_back(d);
      if (n == 0) n = 1;
    }
    for (int i = 0; i < n && budget > 0; i++) c->kid.push_back(item(s, depth));
    return c;
  }
  NP alt(std::string &s, int depth) {
    NP a = mk(Node::ALT);
    int n = 1 + (draw(OP, 3) == 1 ? 1 + draw(OP, 3) : 0);
    for (int i = 0; i < n; i++) {
      if (i) { s += "|"; budget -= 2; }
      a->kid.push_back(cat(s, depth));
    }
    return a;
  }
};
std::string show(const std::string &s) {
  std::string o;
  for (uint8_t c : s) { char t[8]; if (c >= 32 && c < 127) o += (char)c; else { snprintf(t, sizeof t, "\\x%02x", c); o += t; } }
  return o;
}
std::unique_ptr<Pat> gen_pattern() {
  std::unique_ptr<Pat> p(new Pat);
  uint32_t fl = draw(OP, 4) == 0 ? 0 : draw(OP, 16);
  p->flags = fl;
  p->nl = fl & REGEX_NEWLINE;
  p->ng = fl & REGEX_MATCH_NON_GREEDY;
  p->beg = fl & REGEX_MATCH_BEGIN;
  p->end = fl & REGEX_MATCH_END;
  spread = draw(OP, 3) == 1 ? strlen(alpha) : draw(OP, 2) ? 10 : 6;
  Gen g;
  g.nl = p->nl;
  g.budget = draw(OP, 6) == 1 ? 160 : 12 + draw(OP, 40);
  int b0 = g.budget;
  std::string body;
  NP t = g.alt(body, 3);
  p->size = b0 - g.budget;
  bool c = draw(OP, 4) == 1, d = draw(OP, 4) == 1;
  if (!c && !body.empty() && body[0] == '^') c = true;
  p->s = (c ? "^" : "") + body + (d ? "$" : "");
  p->beg |= c;
  p->end |= d;
  p->n.start = p->n.add();
  int e = p->n.build(*t, p->n.start);
  p->n.acc = e;
  if (p->s.size() > 62) hit(P_BIG);
  logf("pattern '%s' flags %d", show(p->s).c_str(), p->flags);
  return p;
}
// a text that tends to contain matches
std::string gen_text(const Pat &p) {
  std::string s;
  int parts = draw(OP, 4);
  uint32_t sp = draw(OP, 3) == 1 ? strlen(alpha) : 11;
  for (int i = 0; i <= parts && s.size() < 100; i++) {
    uint32_t k = draw(OP, 4);
    if (k == 0) { int n = draw(OP, 8); while (n--) s += (char)rnd_char(sp); }
    else if (k == 1) { int n = 1 + draw(OP, 2); while (n--) s += draw(OP, 2) ? '\n' : '\r'; }
    else {
      std::vector<int> cur(p.n.to.size(), -1);
      Ref r; r.p = &p;
      cur[p.n.start] = 0;
      r.close(cur);
      int lim = draw(OP, 5) == 1 ? 90 : 12;
      while (lim-- && s.size() < 130) {
        std::vector<int> c;
        for (size_t j = 0; j < cur.size(); j++) if (cur[j] >= 0 && p.n.to[j] >= 0 && p.n.set[j].any()) c.push_back(j);
        if (c.empty() || (cur[p.n.acc] >= 0 && draw(OP, 6) == 1)) break;
        int j = c[draw(OP, c.size())];
        uint8_t ch = rnd_char(strlen(alpha));
        for (int tries = 0; tries < 256 && !p.n.set[j][ch]; tries++) ch = tries < 6 ? rnd_char(strlen(alpha)) : (uint8_t)(ch + 1);
        s += (char)ch;
        std::vector<int> nx(cur.size(), -1);
        for (size_t q = 0; q < cur.size(); q++) if (cur[q] >= 0 && p.n.to[q] >= 0 && p.n.set[q][ch]) nx[p.n.to[q]] = 0;
        r.close(nx);
        cur.swap(nx);
      }
    }
  }
  return s;
}

// ------------------------------------------------------------- allocations
int refuse_in = -1;       // refuse when it reaches 0
int refuse_all = 0;       // and everything after
int refuse_who = 0;       // only in this fiber
uint64_t refusals, attempts;
int which_fault;
bool decide(int fk) {
  attempts++;
  if (refuse_in < 0 || cur() != refuse_who) return false;
  if (refuse_in > 0) { refuse_in--; return false; }
  if (!refuse_all) refuse_in = -1;
  refusals++;
  fired(fk);
  return true;
}
bool h_refuse(Domain d, const char *, size_t) { return (d == D_REGEX || d == D_SLJIT) && decide(which_fault); }
bool x_refuse(size_t) { return decide(F_EXEC); }

struct Mach { std::unique_ptr<Pat> p; regex_machine *m = nullptr; int users = 0; };
regex_machine *compile(const Pat &p, int *err, bool witherr = true) {
  uint8_t *b = (uint8_t *)guard_alloc(p.s.size() + (p.s.empty() ? 1 : 0));
  memcpy(b, p.s.data(), p.s.size());
  set_context("regex_compile '%s' flags %d", show(p.s).c_str(), p.flags);
  which_fault = F_HEAP;
  regex_machine *m = regex_compile((const char *)b, p.s.size(), p.flags, witherr ? err : nullptr);
  set_context("%s", "");
  guard_free(b);
  return m;
}
struct Snap { size_t r, s, c; uint64_t x; };
Snap snap() { sljit_free_unused_memory_exec(); return {heap_live(D_REGEX), heap_live(D_SLJIT), code_live(), exec_live_bytes()}; }
void same(const Snap &a, uint64_t seq, const char *what) {
  Snap b = snap();
  if (a.r != b.r || a.s != b.s) violation("regex-leak", "%s left memory behind: %s", what, heap_describe_live(seq).c_str());
  if (a.c != b.c || a.x != b.x) violation("regex-leak-exec", "%s left executable memory behind (%zu blocks of code, %llu bytes mapped before, %llu after)", what, b.c - a.c, (unsigned long long)a.x, (unsigned long long)b.x);
}

uint64_t advance_seq;
int guards;            // guarded buffers used (a limited resource)
// one text through one match object
struct Stream1 {
  Mach *mc = nullptr;
  regex_match *m = nullptr;
  Ref ref;
  std::string text;
  size_t at = 0;
  bool fin = false;
  int fb = 0, fe = 0, fi = 0; bool fm = false;
  void begin_text() {
    ref.reset(mc->p.get());
    text = gen_text(*mc->p);
    at = 0;
    fin = false;
    logf("t%d text '%s' on '%s'", cur(), show(text).c_str(), show(mc->p->s).c_str());
  }
  void check() {
    int b = 0, e = 0, id = 0;
    bool want = ref.result(b, e, id);
    int ge = -7, gi = -7;
    int gb = regex_get_result(m, &ge, &gi);
    const char *ps = mc->p->s.c_str();
    if (want && (gb != b || ge != e || gi != id))
      violation("regex-result", "pattern '%s' flags %d on '%s': expected match [%d,%d) id %d, got begin %d end %d id %d", show(ps).c_str(), mc->p->flags, show(ref.text).c_str(), b, e, id, gb, ge, gi);
    if (!want && gb != -1)
      violation("regex-result", "pattern '%s' flags %d on '%s': expected no match, got begin %d end %d id %d", show(ps).c_str(), mc->p->flags, show(ref.text).c_str(), gb, ge, gi);
    hit(want ? P_MATCH : P_NONE);
    if (want && id) hit(P_ID);
    if (want && e > b && (uint8_t)ref.text[b] > 0x7f) hit(P_HIGH);
    if (want && b > 0 && mc->p->nl && mc->p->beg) hit(P_NLB);
    if (regex_is_match_finished(m)) {
      hit(P_FIN);
      if (!fin) { fin = true; fm = want; fb = b; fe = e; fi = id; }
    }
    else if (fin) violation("regex-finished", "pattern '%s' flags %d: a finished match became unfinished", show(ps).c_str(), mc->p->flags);
    if (fin && (fm != want || (want && (fb != b || fe != e || fi != id))))
      violation("regex-finished", "pattern '%s' flags %d on '%s': match was reported finished too early", show(ps).c_str(), mc->p->flags, show(ref.text).c_str());
  }
  void piece() {
    size_t left = text.size() - at;
    size_t n = left;
    uint32_t k = draw(FAULT, 5);
    if (k == 1) n = draw(FAULT, left + 1);
    else if (k == 2) n = std::min<size_t>(left, 1);
    else if (k == 3) n = std::min<size_t>(left, draw(FAULT, 5));
    if (n < left) fired(F_CUT);
    bool g = guards < 400;
    if (g) guards++;
    uint8_t *b = g ? (uint8_t *)guard_alloc(n ? n : 1) : (uint8_t *)malloc(n ? n : 1);
    memcpy(b, text.data() + at, n);
    set_context("regex_continue_match '%s'", show(mc->p->s).c_str());
    regex_continue_match(m, (const char *)b, (int)n);
    set_context("%s", "");
    memset(b, 'Z', n ? n : 1);
    if (g) guard_free(b); else free(b);
    for (size_t i = 0; i < n; i++) ref.feed(text[at + i]);
    at += n;
    advance_seq++;
    logf("t%d fed %zu", cur(), n);
    ilmix(n);
  }
};
struct NoPreempt { bool o = no_preempt; NoPreempt() { no_preempt = true; } ~NoPreempt() { no_preempt = o; } };
regex_match *begin(Mach *mc) {
  NoPreempt np;
  which_fault = F_MATCH;
  uint64_t r0 = refusals;
  Snap s0 = snap();
  uint64_t seq = heap_seq();
  set_context("regex_begin_match '%s'", show(mc->p->s).c_str());
  regex_match *m = regex_begin_match(mc->m);
  set_context("%s", "");
  if (!m) {
    if (refusals == r0) violation("regex-spurious", "starting a match failed although no allocation was refused");
    same(s0, seq, "a failed match start");
  } else if (refusals != r0) violation("regex-refused-ok", "starting a match succeeded although its allocation was refused");
  return m;
}

std::vector<std::unique_ptr<Mach>> machs;
Mach *new_machine() {
  std::unique_ptr<Mach> mc(new Mach);
  mc->p = gen_pattern();
  int err = -5;
  uint64_t r0 = refusals;
  mc->m = compile(*mc->p, &err);
  if (!mc->m) {
    if (refusals != r0) { refuse_in = -1; mc->m = compile(*mc->p, &err); }
    if (!mc->m) violation("regex-compile", "valid pattern '%s' flags %d is rejected with error %d", show(mc->p->s).c_str(), mc->p->flags, err);
  }
  if (err) violation("regex-compile", "pattern '%s' compiled but reports error %d", show(mc->p->s).c_str(), err);
  machs.push_back(std::move(mc));
  return machs.back().get();
}
void client(int texts, int checkmode, int wild) {
  Stream1 s;
  for (int i = 0; i < texts; i++) {
    op_mark();
    if (s.m && draw(OP, 3) != 1) {
      logf("t%d reset", cur());
      if (s.at < s.text.size()) fired(F_RESET);
      set_context("regex_reset_match");
      regex_reset_match(s.m);
      set_context("%s", "");
    } else {
      if (s.m) {
        if (s.at < s.text.size()) fired(F_ABANDON);
        regex_free_match(s.m);
        s.mc->users--;
        if (!s.mc->users && draw(OP, 6) == 1) {
          regex_machine *gone = s.mc->m;
          machs.erase(std::remove_if(machs.begin(), machs.end(), [&](std::unique_ptr<Mach> &x) { return x.get() == s.mc; }), machs.end());
          logf("t%d free machine", cur());
          regex_free_machine(gone);
        }
        s.m = nullptr;
      }
      if (machs.empty() || (machs.size() < 6 && draw(OP, 6) == 1)) new_machine();
      s.mc = machs[draw(OP, machs.size())].get();
      s.mc->users++;
      if (wild && refuse_in < 0 && draw(FAULT, 5) == 4) { refuse_in = 0; refuse_who = cur(); }
      s.m = begin(s.mc);
      if (refuse_who == cur()) refuse_in = -1;
      if (!s.m) s.m = begin(s.mc);
    }
    s.begin_text();
    if (checkmode && draw(OP, 2)) s.check();
    while (s.at < s.text.size()) {
      uint64_t a0 = advance_seq;
      yield_point("match");
      if (advance_seq != a0) hit(P_INTER);
      s.piece();
      if (checkmode || s.at == s.text.size()) s.check();
      if (wild && draw(FAULT, 12) == 11) break;       // reset or abandon half way
    }
    if (s.at == s.text.size()) s.check();
    if (draw(OP, 6) == 1) { s.piece(); s.check(); }   // an empty piece changes nothing (or more text)
  }
  if (s.m) { regex_free_match(s.m); s.mc->users--; }
}
void setup_faults() { heapcfg.refuse = h_refuse; exec_refuse = x_refuse; exec_reuse = draw(FAULT, 2); }
void teardown() {
  refuse_in = -1;
  for (auto &x : machs) regex_free_machine(x->m);
  machs.clear();
  sljit_free_unused_memory_exec();
  if (heap_live(D_REGEX) || heap_live(D_SLJIT)) violation("regex-leak", "memory left after everything was freed: %s", heap_describe_live(0).c_str());
  if (code_live() || exec_live_bytes()) violation("regex-leak-exec", "executable memory left after everything was freed");
}
void run_r01() {
  setup_faults();
  int nm = 1 + draw(OP, 3), nt = 1 + draw(OP, 4);
  int wild = draw(FAULT, 3);
  logf("machines %d clients %d", nm, nt);
  for (int i = 0; i < nm; i++) { op_mark(); new_machine(); }
  std::vector<int> t;
  for (int i = 0; i < nt; i++) {
    int texts = 1 + draw(OP, 6), cm = draw(OP, 3);
    t.push_back(spawn([=] { client(texts, cm, wild); }, "matcher"));
  }
  for (int x : t) join(x);
  op_mark();
  teardown();
}

// ------------------------------------------------------------------- R02
std::string spoil(const std::string &v) {
  // patterns that are invalid whatever surrounds them
  switch (draw(OP, 11)) {
    case 8: return v + "[^";
    case 9: return v + "[^a-";
    case 10: return v + "[b\\";
    case 0: return "*" + v;
    case 1: return "+" + v;
    case 2: return "?" + v;
    case 3: return "(" + v;                    // one parenthesis too many
    case 4: return v.empty() ? "(" : v + "\\";
    case 5: return "(" + v + "))";
    case 6: return v + "|*a";
    default: return v + "[ab";
  }
}
void match_once(Mach *mc) {
  Stream1 s;
  s.mc = mc;
  s.m = begin(mc);
  s.begin_text();
  while (s.at < s.text.size()) s.piece();
  s.check();
  regex_free_match(s.m);
}
void run_r02() {
  setup_faults();
  int ops = 2 + draw(OP, 8);
  std::vector<std::unique_ptr<Stream1>> open;
  for (int i = 0; i < ops; i++) {
    op_mark();
    uint32_t k = draw(OP, 8);
    if (k == 0) {
      auto p = gen_pattern();
      // an odd trailing backslash or bracket could be swallowed: only use bodies whose own syntax is complete
      bool cut = draw(OP, 3) == 2 && !p->s.empty();
      if (cut) p->s.resize(draw(OP, p->s.size()));        // may or may not be valid
      else p->s = spoil(p->s);
      if (p->s.size() > 1 && p->s.back() == '\\' && p->s[p->s.size() - 2] == '\\') continue;
      Snap s0 = snap();
      uint64_t seq = heap_seq();
      refuse_all = draw(FAULT, 2);
      if (draw(FAULT, 2) == 1) refuse_in = draw(FAULT, 12);
      uint64_t r0 = refusals;
      int err = -5;
      logf("invalid '%s'", show(p->s).c_str());
      regex_machine *m = compile(*p, &err);
      refuse_in = -1;
      if (m && cut) { regex_free_machine(m); same(s0, seq, "a pattern that was cut short"); hit(P_CUT); continue; }
      if (m) violation("regex-invalid", "invalid pattern '%s' compiled", show(p->s).c_str());
      if (refusals == r0 && err != REGEX_INVALID_REGEX) violation("regex-invalid", "invalid pattern '%s' reports error %d", show(p->s).c_str(), err);
      if (refusals != r0 && err != REGEX_INVALID_REGEX && err != REGEX_MEMORY_ERROR) violation("regex-invalid", "invalid pattern '%s' reports error %d", show(p->s).c_str(), err);
      same(s0, seq, "a rejected pattern");
      hit(P_INV);
    } else if (k == 1 && !open.empty()) {
      auto &s = open[draw(OP, open.size())];
      if (s->at < s->text.size()) { s->piece(); s->check(); }
      else { regex_reset_match(s->m); s->begin_text(); s->check(); }
    } else if (k == 2 && !machs.empty() && open.size() < 4) {
      std::unique_ptr<Stream1> s(new Stream1);
      s->mc = machs[draw(OP, machs.size())].get();
      if (draw(FAULT, 2) == 1) refuse_in = 0;
      s->m = begin(s->mc);
      refuse_in = -1;
      if (!s->m) s->m = begin(s->mc);
      s->begin_text();
      open.push_back(std::move(s));
    } else if (machs.size() < 5) {
      std::unique_ptr<Mach> mc(new Mach);
      mc->p = gen_pattern();
      // how many allocations does it take?
      Snap s0 = snap();
      uint64_t seq = heap_seq(), a0 = attempts;
      int err = -5;
      regex_machine *m = compile(*mc->p, &err);
      if (!m || err) violation("regex-compile", "valid pattern '%s' flags %d is rejected with error %d", show(mc->p->s).c_str(), mc->p->flags, err);
      int need = (int)(attempts - a0);
      regex_free_machine(m);
      same(s0, seq, "compiling and freeing a pattern");
      int rounds = 1 + draw(FAULT, 6);
      int step = need / rounds + 1, off = draw(FAULT, step);
      for (int r = 0; r < rounds; r++) {
        int n = r * step + off;
        if (n >= need) break;
        refuse_all = draw(FAULT, 2);
        refuse_in = n;
        uint64_t r0 = refusals;
        err = -5;
        bool we = draw(OP, 6) != 1;
        m = compile(*mc->p, &err, we);
        refuse_in = -1;
        logf("compile, allocation %d of %d refused -> %s err %d", n, need, m ? "machine" : "null", err);
        if (refusals == r0) {   // fewer allocations were needed this time
          if (!m) violation("regex-spurious", "compiling '%s' failed (error %d) although no allocation was refused", show(mc->p->s).c_str(), err);
          regex_free_machine(m);
          continue;
        }
        if (m) violation("regex-refused-ok", "compiling '%s' returned a machine although allocation %d of %d was refused", show(mc->p->s).c_str(), n, need);
        if (we && err != REGEX_MEMORY_ERROR) violation("regex-refused-err", "compiling '%s' with allocation %d of %d refused reports error %d", show(mc->p->s).c_str(), n, need, err);
        same(s0, seq, "a compilation that was refused memory");
        ilmix(n);
        // what is already there still works
        for (auto &s : open) if (draw(OP, 3) == 1 && s->at < s->text.size()) { s->piece(); s->check(); }
      }
      err = -5;
      mc->m = compile(*mc->p, &err);
      if (!mc->m || err) violation("regex-retry", "pattern '%s' fails with error %d once memory is available again", show(mc->p->s).c_str(), err);
      match_once(mc.get());
      machs.push_back(std::move(mc));
    }
  }
  op_mark();
  for (auto &s : open) { while (s->at < s->text.size()) s->piece(); s->check(); regex_free_match(s->m); }
  teardown();
}
Reg r1({"R01", run_r01, "exploration", "event log of a completed run with at least two operations (hash-distinct)", 30000, 600000,
  "regexJIT.c and the whole of sljit, generated code executed natively", "heap, mmap, scheduler",
  {"patterns use the documented syntax with small repeat counts (at most about 160 terms)", "one match object is used by one thread at a time"}});
Reg r2({"R02", run_r02, "exploration", "event log of a completed run with at least two operations (hash-distinct)", 20000, 400000,
  "regexJIT.c and the whole of sljit, generated code executed natively", "heap, mmap",
  {"patterns use the documented syntax with small repeat counts (at most about 160 terms)"}});
}
