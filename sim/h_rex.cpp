// rex under simulation: C10 (shared automata, engines, chunkings), C11 (rejected expressions leave no trace)
#include "simrt.h"
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <cstring>
using namespace sim;
extern "C" {
#include "rlib/rmem.h"
#include "rlib/rutf.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexregex.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
#include "rex/rextransition.h"
}
#include "rexgen.h"
static const char *REAL = "rex (compiler, NFA, subset construction, DFA, the three simulators, the regex scanner) and rlib: the repository's sources, instrumented at every memory access";
static const char *STUB = "thread scheduler, system memory allocator (simulated heap), mem*/str* routines";

// ---------------------------------------------------------------------------------------------------- automata and their answers
typedef std::map<size_t, std::multiset<size_t>> Accepts;         // bytes consumed -> user data reported at that point
struct Ans { Accepts acc; };
struct Auto { rexdb_t *nfa = nullptr; long start = -1; rexdb_t *dfadb = nullptr; rexdfa_t *dfa = nullptr, *dfasub = nullptr; };
static std::string astr(const Accepts &a) { std::string s = "{"; for (auto &kv : a) { s += strf(" %zu:", kv.first); for (auto u : kv.second) s += strf("%zu,", u); } return s + " }"; }
static void auto_free(Auto &a) { if (a.dfa) rex_dfa_destroy(a.dfa); if (a.dfasub) rex_dfa_destroy(a.dfasub); if (a.dfadb) rex_db_destroy(a.dfadb); if (a.nfa) rex_db_destroy(a.nfa); a = Auto(); }
static long add(rexdb_t *db, long prev, const std::string &e, size_t ud) { char *p = (char *)guard_copy(e.data(), e.size()); long r = rex_db_addexpression(db, prev, p, e.size(), ud); guard_free(p); return r; }
static void auto_finish(Auto &a) { a.dfadb = rex_db_createdfa(a.nfa, a.start); if (!a.dfadb) fail("build-failed", "no automaton for accepted expressions"); a.dfa = rex_db_todfa(a.dfadb, 0); a.dfasub = rex_db_todfa(a.dfadb, 1); if (!a.dfa || !a.dfasub) fail("build-failed", "no DFA for accepted expressions"); }
static Auto build(const std::vector<std::string> &es, const std::vector<size_t> &ud) { Auto a; a.nfa = rex_db_create(REXDB_TYPE_NFA); for (size_t i = 0; i < es.size(); i++) { long r = add(a.nfa, a.start, es[i], ud[i]); if (r < 0) { auto_free(a); return a; } a.start = r; } auto_finish(a); return a; }

// one text fed in pieces; each piece lives in its own block that is gone when the next one arrives
struct Feed { const std::string &t; size_t pos; std::vector<size_t> cuts; };
static std::vector<size_t> draw_cuts(const std::string &t, size_t from) { // piece ends, on character boundaries
  std::vector<size_t> c; uint64_t how = draw(4); if (how == 0) { c.push_back(t.size()); return c; } size_t p = from; uint64_t m = 1 + draw(how == 1 ? 1 : how == 2 ? 5 : 40);
  while (p < t.size()) { size_t e = p, k = 1 + draw(m); for (size_t i = 0; i < k && e < t.size(); i++) { ruint32 wc; int inc = r_utf8_mbtowc(&wc, (const unsigned char *)t.data() + e, (const unsigned char *)t.data() + t.size()); e += inc > 0 ? inc : 1; } c.push_back(e); p = e; }
  if (c.empty()) c.push_back(t.size()); return c;
}
template <class F> static void feed(const std::string &t, size_t from, const std::vector<size_t> &cuts, F step) { // step(wc, inc) -> go on
  size_t p = from;
  for (size_t e : cuts) { size_t n = e - p; char *b = (char *)guard_copy(t.data() + p, n); size_t q = 0; bool go = true; while (q < n) { ruint32 wc; int inc = r_utf8_mbtowc(&wc, (unsigned char *)b + q, (unsigned char *)b + n); if (inc <= 0) break; q += inc; if (!step(wc, inc)) { go = false; break; } } guard_free(b); if (!go) return; p = e; if (chance(1, 8)) yield_now(); }
}
enum { NFA, DFADB, DFA, DFASUB, NENG };
static const char *EN[] = {"NFA simulation", "on-the-fly DFA simulation", "pre-built DFA", "pre-built DFA with sub-states"};
static Accepts dfa_accepts(rexdfa_t *d, const std::string &t, size_t from, const std::vector<size_t> &cuts, bool viafn) {
  Accepts r; rexuint_t st = REX_DFA_STARTSTATE; size_t len = 0;
  feed(t, from, cuts, [&](ruint32 wc, int inc) {
    rexuint_t n = 0; if (viafn) n = rex_dfa_next(d, st, wc); else { REX_DFA_NEXT(d, st, wc, &n); }
    st = n; len += inc; if (st == REX_DFA_DEADSTATE) return false; rexdfs_t *s = rex_dfa_state(d, st); if (!s) fail("bad-state", "transition to state %u of %u", (unsigned)st, (unsigned)d->nstates);
    if (s->type == REX_STATETYPE_ACCEPT) { if (!s->naccsubstates) fail("bad-state", "accepting state %u reports no expression", (unsigned)st); for (rexuint_t i = 0; i < s->naccsubstates; i++) { rexdfss_t *ss = viafn ? rex_dfa_accsubstate(d, st, i) : REX_DFA_ACCSUBSTATE(d, st, i); if (!ss) fail("bad-state", "accepting sub-state missing"); r[len].insert(ss->userdata); } }
    return true; });
  return r;
}
// sims may be reused (a search context's earlier use must not matter)
struct Sims { rex_nfasimulator_t *n = nullptr; rex_dfasimulator_t *d = nullptr; Sims() { n = rex_nfasimulator_create(); d = rex_dfasimulator_create(); } ~Sims() { rex_nfasimulator_destroy(n); rex_dfasimulator_destroy(d); } };
static Accepts from_accepts(rarray_t *acc, rexdb_t *dfadb) {
  Accepts r; for (size_t i = 0; i < r_array_length(acc); i++) { rex_accept_t *a = (rex_accept_t *)r_array_slot(acc, i);
    if (!dfadb) r[a->inputsize].insert(a->state->userdata);
    else for (size_t k = 0; k < r_array_length(a->state->subset); k++) { rexsubstate_t *ss = rex_db_getsubstate(dfadb, r_array_index(a->state->subset, k, size_t)); if (ss && ss->ss_type == REX_STATETYPE_ACCEPT) r[a->inputsize].insert(ss->ss_userdata); } }
  return r;
}
static Accepts answer(const Auto &a, int eng, Sims &s, const std::string &t, size_t from, const std::vector<size_t> &cuts, int var) {
  switch (eng) {
  case NFA: if (var == 2) { char *b = (char *)guard_copy(t.data() + from, t.size() - from); rex_nfasimulator_run(s.n, a.nfa, a.start, b, t.size() - from); guard_free(b); return from_accepts(s.n->accepts, nullptr); }
    rex_nfasimulator_start(s.n, a.nfa, a.start); feed(t, from, cuts, [&](ruint32 wc, int inc) { return rex_nfasimulator_next(s.n, a.nfa, wc, inc) != 0; }); return from_accepts(s.n->accepts, nullptr);
  case DFADB: if (var == 2) { char *b = (char *)guard_copy(t.data() + from, t.size() - from); size_t r = rex_dfasimulator_run(s.d, a.dfadb, 1, b, t.size() - from); guard_free(b); Accepts x = from_accepts(s.d->accepts, a.dfadb); size_t last = x.empty() ? 0 : x.rbegin()->first; if (r != last) fail("engines-disagree", "rex_dfasimulator_run returns %zu, its last accept is at %zu", r, last); return x; }
    rex_dfasimulator_start(s.d, a.dfadb, 1); feed(t, from, cuts, [&](ruint32 wc, int inc) { return rex_dfasimulator_next(s.d, a.dfadb, wc, inc) != 0; }); return from_accepts(s.d->accepts, a.dfadb);
  case DFA: return dfa_accepts(a.dfa, t, from, cuts, var != 0);
  default: return dfa_accepts(a.dfasub, t, from, cuts, var != 0);
  }
}
// the scanner: match length and position of the first match
struct Scan { int ret; long where; bool operator==(const Scan &o) const { return ret == o.ret && where == o.where; } };
static Scan run_scan(rexregex_t *r, unsigned enc, const std::string &t) { char *b = (char *)guard_copy(t.data(), t.size()); const char *w = nullptr; Scan s; s.ret = rex_regex_scan(r, enc, b, b + t.size(), &w); s.where = s.ret > 0 ? w - b : -1; guard_free(b); return s; }
static int run_match(rexregex_t *r, unsigned enc, const std::string &t, size_t from) { char *b = (char *)guard_copy(t.data() + from, t.size() - from); int m = rex_regex_match(r, enc, b, b + (t.size() - from)); guard_free(b); return m; }

struct Q { int kind; std::string t; size_t from; std::vector<size_t> cuts; int eng, var; unsigned enc; Accepts want; Scan ws; };
static bool high_free(const std::string &s) { for (unsigned char c : s) if (c >= 0x80) return false; return true; }
static size_t charpos(const std::string &t) { size_t p = 0, k = draw(t.size() + 1); while (p < k) { ruint32 wc; int inc = r_utf8_mbtowc(&wc, (const unsigned char *)t.data() + p, (const unsigned char *)t.data() + t.size()); if (inc <= 0) break; p += inc; } return std::min(p, t.size()); }

// ---------------------------------------------------------------------------------------------------- C10
static void c10() {
  g_words.clear(); g_mean.clear(); heap_big_fill = draw(4) == 3 ? 0xA5 : 0; uint64_t base = heap_unrooted(); set_soft_budget(60000000ull);
  int ne = 1 + (int)draw(3); std::vector<std::string> es; std::vector<size_t> ud; Auto A;
  for (int i = 0; i < ne; i++) { es.push_back(expr()); ud.push_back(draw(4) ? 100 + i : draw(3)); }
  std::string d; for (int i = 0; i < ne; i++) d += strf(" %zu:%s", ud[i], show(es[i]).c_str()); event("expressions%s", d.c_str());
  A = build(es, ud); if (!A.nfa) { count("probe.expression_rejected"); return; }
  rexregex_t *re = rex_regex_create(es[0].data(), es[0].size()); if (!re) fail("build-failed", "expression %s accepted by the database, refused by rex_regex_create", show(es[0]).c_str());
  std::string e2 = expr(); Auto B = build({e2}, {7});
  // solo answers, and agreement of the engines
  set_quiet_points(true);
  int nt = 1 + (int)draw(4), nq = 1 + (int)draw(4); std::vector<std::vector<Q>> qs(nt); bool hits = false; Sims ref;
  auto prepare = [&](Q &q) {
    q.t = gen_text(draw(4) == 3 ? 70 : 24); q.from = charpos(q.t); q.cuts = draw_cuts(q.t, q.from); q.eng = (int)draw(NENG); q.var = (int)draw(3); q.enc = draw(3) == 2 ? REX_ENCODING_BYTE : REX_ENCODING_UTF8; q.kind = (int)draw(3);
    if (q.enc == REX_ENCODING_BYTE && !high_free(q.t)) q.enc = REX_ENCODING_UTF8;
    std::vector<size_t> one{q.t.size()}; Accepts w[NENG];
    for (int e = 0; e < NENG; e++) w[e] = answer(A, e, ref, q.t, q.from, one, 0);
    for (int e = 1; e < NENG; e++) if (w[e] != w[0]) fail("engines-disagree", "%s on %s from %zu: %s gives %s, %s gives %s", d.c_str(), show(q.t).c_str(), q.from, EN[0], astr(w[0]).c_str(), EN[e], astr(w[e]).c_str());
    // and with what the expressions describe
    { Accepts m; for (int i = 0; i < ne; i++) for (size_t x : described(es[i], q.t, q.from)) m[x].insert(ud[i]); auto flat = [](const Accepts &a) { std::map<size_t, std::set<size_t>> f; for (auto &kv : a) f[kv.first].insert(kv.second.begin(), kv.second.end()); return f; };
      if (flat(m) != flat(w[0])) fail("wrong-language", "%s on %s from %zu: the expressions describe %s, every engine finds %s", d.c_str(), show(q.t).c_str(), q.from, astr(m).c_str(), astr(w[0]).c_str()); }
    q.want = w[0]; if (!q.want.empty()) hits = true;
    // scanner against matching at every position in turn
    Scan n = {0, -1}; for (size_t p = 0; p < q.t.size();) { int m = run_match(re, q.enc, q.t, p); if (m > 0) { n = {m, (long)p}; break; } ruint32 wc; int inc = q.enc == REX_ENCODING_BYTE ? 1 : r_utf8_mbtowc(&wc, (const unsigned char *)q.t.data() + p, (const unsigned char *)q.t.data() + q.t.size()); p += inc > 0 ? inc : 1; }
    q.ws = run_scan(re, q.enc, q.t); if (!(q.ws == n)) fail("engines-disagree", "scan of %s for %s gives length %d at %ld, matching at each position gives length %d at %ld", show(q.t).c_str(), show(es[0]).c_str(), q.ws.ret, q.ws.where, n.ret, n.where);
    if (ne == 1 && q.enc == REX_ENCODING_UTF8) { int m = run_match(re, q.enc, q.t, q.from); size_t last = q.want.empty() ? 0 : q.want.rbegin()->first; if ((size_t)m != last) fail("engines-disagree", "match of %s on %s from %zu gives %d, the automaton's longest accept is %zu", show(es[0]).c_str(), show(q.t).c_str(), q.from, m, last); }
    if (n.ret > 0) count("probe.scan_hit"); count(q.want.empty() ? "probe.no_accept" : "probe.accept"); count("op.engine_comparison");
  };
  for (auto &v : qs) { v.resize(nq); for (auto &q : v) prepare(q); }
  std::string tb = gen_text(20); Accepts wb; if (B.nfa) wb = answer(B, DFA, ref, tb, 0, {tb.size()}, 0);
  // the objects the threads share: in most runs fresh ones that nobody has searched with before
  bool cold = draw(4) != 0; Auto A2 = A; rexregex_t *re2 = re; if (cold) { A2 = build(es, ud); re2 = rex_regex_create(es[0].data(), es[0].size()); if (!A2.nfa || !re2) fail("build-failed", "expressions%s accepted once and refused when built again", d.c_str()); count("probe.cold_shared_objects"); }
  bool builder = draw(2) && B.nfa; set_quiet_points(false); set_budget(600000000ull);
  event("threads %d queries %d%s", nt, nq, builder ? " and a builder" : "");
  for (int t = 0; t < nt; t++) spawn(strf("search%d", t).c_str(), [&, t] {
    std::unique_ptr<Sims> s(new Sims); 
    for (auto &q : qs[t]) {
      if (draw(5) == 4) s.reset(new Sims);
      if (q.kind == 2) { Scan g = run_scan(re2, q.enc, q.t); if (!(g == q.ws)) fail("threads-influence", "scan of %s for %s: alone length %d at %ld, with other threads length %d at %ld", show(q.t).c_str(), show(es[0]).c_str(), q.ws.ret, q.ws.where, g.ret, g.where); count("op.scan"); }
      else { Accepts g = answer(A2, q.eng, *s, q.t, q.from, q.cuts, q.var); if (g != q.want) fail(nt > 1 || builder ? "threads-influence" : "chunking-matters", "%s on %s from %zu in %zu pieces: alone and in one piece %s, now %s", EN[q.eng], show(q.t).c_str(), q.from, q.cuts.size(), astr(q.want).c_str(), astr(g).c_str()); count("op.search"); if (q.cuts.size() > 1) count("fault.chunked_delivery"); }
      event("search%d query done", t);
    }
  });
  if (builder) spawn("builder", [&] { for (int i = 0; i < 2; i++) { Sims s; Auto C = build({e2}, {7}); if (!C.nfa) fail("threads-influence", "expression %s was accepted alone and is refused with other threads", show(e2).c_str()); Accepts g = answer(C, (int)draw(NENG), s, tb, 0, {tb.size()}, (int)draw(3)); if (g != wb) fail("threads-influence", "expression %s built with other threads: alone %s, now %s", show(e2).c_str(), astr(wb).c_str(), astr(g).c_str()); auto_free(C); count("op.concurrent_build"); } });
  set_sched(draw_sched()); run_tasks();
  // the shared automata still answer as before
  for (auto &v : qs) for (auto &q : v) { Accepts g = answer(A2, q.eng, ref, q.t, q.from, {q.t.size()}, 1); if (g != q.want) fail("automaton-changed", "%s on %s answers differently after the concurrent searches", EN[q.eng], show(q.t).c_str()); }
  if (chance(1, 8)) { for (size_t i = 0; i <= (size_t)rex_db_numstates(A.nfa); i++) { rexstate_t *st = rex_db_getstate(A.nfa, i); rex_db_dumpstate(A.nfa, i); if (st) rex_transitions_dump(st->trans); } for (size_t i = 0; i <= (size_t)rex_db_numstates(A.dfadb); i++) rex_db_dumpstate(A.dfadb, i); for (size_t i = 0; i < A.dfa->nstates; i++) { rex_dfa_dumpstate(A.dfa, i); rex_dfa_dumpstate(A.dfasub, i); } fflush(stdout); count("op.states_dumped"); }
  if (cold) { auto_free(A2); rex_regex_destroy(re2); }
  auto_free(A); auto_free(B); rex_regex_destroy(re);
  { rex_nfasimulator_destroy(ref.n); rex_dfasimulator_destroy(ref.d); ref.n = nullptr; ref.d = nullptr; }
  qs.clear();
  if (heap_unrooted() != base) fail("leak", "%llu blocks left", (unsigned long long)(heap_unrooted() - base));
  if (hits) nontrivial(); distinct(sched_hash()); distinct(hash_str(d));
}
static Reg r10({"C10", c10, "one run = 1-3 expressions in one automaton, 1-4 threads with 1-4 queries each (engine, text, start, chunking) over the shared automata and a shared scanner, optionally a thread building other automata; engines, scanner and position-wise matching agree and every thread finds what it finds alone; non-trivial when some query accepted; distinct by expressions and schedule", REAL, STUB});

// ---------------------------------------------------------------------------------------------------- C11
static std::string bad_expr() {
  static const std::vector<std::string> B = {"(", ")", "a(", "(ab", "[a-", "[a", "a**", "a{", "a{2", "a{2,", "a{4,2}", "|a", "a|", "a||b", "(a|)", "\\", "a{x}", "(((a)", "[]", "*", "a(b[c)", "ab)", "a{2}{", "(a{3}b|c", "a|(b", "[^", "[^]", "[a-]", "[-a]", "[#", "[#x", "[#z]", "a{99", "a{2,x}", "()", "a\nb(", "(a\n)", "a{2 3}", "((a|b)", "[a-\\", "a{1,2", "{2}", "+", "?", "a]", "ab{0}(", "(a{0}", "(ab{2,3}){2", "[a#]", "x(y{2}[", "", "\n", "\r", " ", std::string("a\0(", 3), "[\xe4\xb8", "(\xff", "\xc3", "a{2}|"};
  std::string s;
  switch (draw(6)) {
  case 0: case 1: s = B[draw(B.size())]; break;
  case 2: s = expr(); s.resize(draw(s.size() + 1)); break;                                                       // truncated
  case 3: s = expr(); if (s.size()) s[draw(s.size())] = "()[]{}|*+?\\,-#\0\n\xff"[draw(17)]; break;              // corrupted
  case 4: s = expr(); s.insert(draw(s.size() + 1), 1, "()[]{}|*+?"[draw(10)]); break;
  default: s = expr(); for (int i = 0, n = 1 + (int)draw(3); i < n; i++) s += B[draw(B.size())]; break;
  }
  return s;
}
static bool counts_small(const std::string &s) { // keep repetition counts and nesting from exploding the automaton
  int opens = 0; for (size_t i = 0; i < s.size(); i++) if (s[i] == '{') { size_t v = 0, j = i + 1; opens++; for (; j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ',' || s[j] == ' '); j++) if (isdigit((unsigned char)s[j])) { v = v * 10 + (s[j] - '0'); if (v > 99) return false; } else v = 0; }
  return opens <= 3;
}
// an independent reading of the expression syntax; says "malformed" only where no reading of the documentation allows it
struct Wf {
  const std::string &s; size_t p = 0; explicit Wf(const std::string &x) : s(x) {}
  void nb() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++; }
  bool at(char c) { return p < s.size() && s[p] == c; }
  bool num(size_t &v) { if (p >= s.size() || !isdigit((unsigned char)s[p])) return false; v = 0; while (p < s.size() && isdigit((unsigned char)s[p])) v = v * 10 + (s[p++] - '0'); return true; }
  bool count() { p++; nb(); size_t lo, hi; if (!num(lo)) return false; nb(); hi = lo; if (at(',')) { p++; nb(); hi = (size_t)-1; if (num(hi)) nb(); } if (!at('}') || lo > hi) return false; p++; return true; }
  bool cls() { p++; if (at('^')) p++; if (p >= s.size() || s[p] == ']') return false; while (p < s.size() && s[p] != ']') { if (s[p] == '\\') p++; p++; } if (p >= s.size()) return false; p++; return true; }
  bool alt() { if (!cat()) return false; while (at('|')) { p++; nb(); if (!cat()) return false; } return true; }
  bool cat() { size_t n = 0; for (;; n++) { nb(); if (p >= s.size() || s[p] == '|' || s[p] == ')') return n > 0; if (strchr("{}*?+]", s[p])) return false;
      if (s[p] == '[') { if (!cls()) return false; } else if (s[p] == '(') { p++; if (!alt() || !at(')')) return false; p++; } else { if (s[p] == '\\' && ++p >= s.size()) return false; p++; while (p < s.size() && ((unsigned char)s[p] & 0xc0) == 0x80) p++; }
      nb(); if (at('*') || at('?') || at('+')) p++; else if (at('{') && !count()) return false; } }
  bool malformed() { for (unsigned char c : s) if (c == '\n' || c == '\r' || !c || c == '\v' || c == '\f') return false; return !(alt() && p == s.size()); }
};
static void c11() {
  g_words.clear(); g_mean.clear(); heap_big_fill = draw(4) == 3 ? 0xA5 : 0; uint64_t base = heap_unrooted(); set_soft_budget(60000000ull);
  int n = 2 + (int)draw(6); rexdb_t *db = rex_db_create(REXDB_TYPE_NFA); long start = -1; std::vector<std::string> ok; std::vector<size_t> ids; int rejected = 0;
  for (int i = 0; i < n; i++) {
    bool bad = draw(2); std::string e = bad ? bad_expr() : expr(); if (!counts_small(e)) continue;
    size_t s0 = rex_db_numstates(db), t0 = rex_db_numtransitions(db); set_quiet_points(false);
    set_budget(400000000ull); long r = add(db, start, e, 1000 + i); event("add %d %s => %ld", i, show(e).c_str(), r); count("op.add_expression");
    if (r < 0) { count("fault.expression_rejected"); rejected++; if (start >= 0 && (rex_db_numstates(db) != s0 || rex_db_numtransitions(db) != t0)) count("probe.size_changed_by_rejection"); }
    else { if (start >= 0 && r != start) fail("start-moved", "start state changed from %ld to %ld by expression %s", start, r, show(e).c_str()); start = r; ok.push_back(e); ids.push_back(1000 + i); }
    if (r >= 0 && Wf(e).malformed()) fail("malformed-accepted", "malformed expression %s was accepted", show(e).c_str());
    if (Wf(e).malformed()) count("fault.malformed_expression");
    if (r < 0) { rexdb_t *f = rex_db_create(REXDB_TYPE_NFA); long fr = add(f, -1, e, 5); rex_db_destroy(f); if (fr >= 0) fail("history-dependent", "expression %s is rejected in this set and accepted by a new one", show(e).c_str()); if (!bad && high_free(e)) fail("valid-rejected", "valid expression %s was rejected", show(e).c_str()); }
    if (chance(1, 6) && start >= 0) { count("op.intermediate_automaton"); set_soft_budget(60000000ull); rexdb_t *d = rex_db_createdfa(db, start); rex_db_destroy(d); }       // a history with a compilation in between
    if (chance(1, 8)) { rexregex_t *q = rex_regex_create(e.data(), e.size()); if ((q == nullptr) != (r < 0)) fail("rejection-inconsistent", "expression %s: database %s it, rex_regex_create %s it", show(e).c_str(), r < 0 ? "rejects" : "accepts", q ? "accepts" : "rejects"); if (q) rex_regex_destroy(q); }
  }
  if (ok.empty()) { rex_db_destroy(db); if (heap_unrooted() != base) fail("leak", "%llu blocks left after only rejected expressions", (unsigned long long)(heap_unrooted() - base)); if (rejected > 1) { nontrivial(); distinct(rejected); } return; }
  set_soft_budget(60000000ull); Auto H; H.nfa = db; H.start = start; auto_finish(H);
  Auto C = build(ok, ids); if (!C.nfa) fail("history-dependent", "an expression accepted after rejected ones is refused without them");
  std::vector<Auto> single; for (size_t i = 0; i < ok.size(); i++) { Auto s = build({ok[i]}, {ids[i]}); if (!s.nfa) fail("history-dependent", "expression %s is accepted in the set and refused alone", show(ok[i]).c_str()); single.push_back(s); }
  if (H.dfa->nstates != C.dfa->nstates) count("probe.state_count_differs");
  int nt = 3 + (int)draw(6); bool hits = false; set_budget(400000000ull);
  { Sims s;
    for (int k = 0; k < nt; k++) {
      std::string t = gen_text(24); std::vector<size_t> one{t.size()}; Accepts want; for (size_t i = 0; i < single.size(); i++) { Pos m; for (auto &kv : answer(single[i], DFA, s, t, 0, one, 0)) { want[kv.first].insert(kv.second.begin(), kv.second.end()); m.insert(kv.first); }
        if (g_mean.count(ok[i]) && m != described(ok[i], t, 0)) fail("wrong-language", "%s on %s: accepts %zu prefixes, describes %zu", show(ok[i]).c_str(), show(t).c_str(), m.size(), described(ok[i], t, 0).size()); }
      Accepts c = answer(C, DFA, s, t, 0, one, 0);
      for (int e = 0; e < NENG; e++) { Accepts g = answer(H, e, s, t, 0, one, (int)draw(3)); if (g != want || g != c) fail(g != c ? "rejected-expression-matters" : "wrong-id-set", "%s on %s: with the rejected attempts %s, without them %s, each expression alone %s", EN[e], show(t).c_str(), astr(g).c_str(), astr(c).c_str(), astr(want).c_str()); }
      if (!want.empty()) { hits = true; count("probe.accept"); if (want.rbegin()->second.size() > 1) count("probe.several_expressions_accept"); }
    } }
  for (auto &a : single) auto_free(a); auto_free(H); auto_free(C);
  if (heap_unrooted() != base) fail("leak", "%llu blocks left", (unsigned long long)(heap_unrooted() - base));
  if (hits && rejected) nontrivial(); for (auto &e : ok) distinct(hash_str(e)); distinct(rejected);
}
static Reg r11({"C11", c11, "one run = 2-7 additions to one expression set, about half of them malformed, truncated or corrupted, with occasional compilations in between; the final automaton is compared on 3-8 texts with one built from the accepted expressions only and with one automaton per expression; non-trivial when something was rejected and something accepted a text; distinct by accepted expressions", REAL, STUB});
