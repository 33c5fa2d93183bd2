// rpa engine under simulation: C01 C02 C03 C04 C05 C06 C07
#include <set>
#include "rpalib.h"
using namespace rl;
extern "C" {
#include "rpa/rpastatpriv.h"
// seam between the engine and its memo cache (call sites in rpavm.o are renamed to these)
rpacachedentry_t *rpa_cache_lookup(rpacache_t *, long, long) __attribute__((weak));
void rpa_cache_set(rpacache_t *, long, long, long, rarray_t *, long, long) __attribute__((weak));
static std::function<bool()> *g_cacheloss;
rpacachedentry_t *simw_cache_lookup(rpacache_t *c, long top, long id) {
  if (g_cacheloss) { if ((*g_cacheloss)()) { count("fault.cache_lookup_lost"); return nullptr; } }
  rpacachedentry_t *e = rpa_cache_lookup(c, top, id); if (e) count("probe.cache_hit"); return e;
}
void simw_cache_set(rpacache_t *c, long top, long id, long ret, rarray_t *r, long st, long sz) {
  if (g_cacheloss) { if ((*g_cacheloss)()) { count("fault.cache_store_lost"); return; } }
  rpa_cache_set(c, top, id, ret, r, st, sz);
}
}
static const unsigned long STACK = 4096;
static const char *REAL = "rpa engine, compiler, parser, rvm virtual machine and rlib: the repository's sources, instrumented at every memory access";
static const char *STUB = "thread scheduler, memory allocator (simulated heap with bounds/lifetime checks), mem*/str* routines";

static std::string taskname(int i) { return strf("t%d", i); }
static void must_equal(const char *cls, const Outcome &want, const Outcome &got, const char *who, const Op &op) {
  if (want != got) fail(cls, "%s: %s: %s", who, op.str().c_str(), differ(want, got).c_str());
}

// ---------------------------------------------------------------------------------------------------- C01
static void c01() {
  Gram g = choose_grammar(); Cfg c = draw_cfg(); announce(g, c); slots_begin();
  rpadbex_t *ref = build(g, c), *db = build(g, c);
  // what read-only queries of the database answer
  std::vector<std::string> names; for (rparule_t r = rpa_dbex_first(ref); r >= 0; r = rpa_dbex_next(ref, r)) names.push_back(name_of(rpa_dbex_name(ref, r)));
  int rounds = 1 + (int)draw(4);
  for (int round = 0; round < rounds; round++) {
  event("round %d", round);
  int nt = 2 + (int)draw(3);
  struct Job { int kind; std::vector<Op> ops; std::vector<Outcome> want; Gram g2; Cfg c2; rpastat_t *st = nullptr; bool create_inside; };
  std::vector<Job> jobs(nt); uint64_t cost = 0; bool noopnt = true;
  for (int t = 0; t < nt; t++) {
    Job &j = jobs[t]; uint64_t k = draw(10); j.kind = t < 2 || k < 6 ? 0 : k < 8 || round ? 1 : 2; j.create_inside = draw(2);
    int n = 1 + (int)draw(2);
    rpadbex_t *rd = ref;
    if (j.kind == 2) { j.g2 = draw(2) ? choose_grammar() : g; j.c2 = draw_cfg(); rd = build(j.g2, j.c2); }
    const Gram &gg = j.kind == 2 ? j.g2 : g;
    if (j.kind != 1) for (int i = 0; i < n; i++) { Op o = make_op(gg, 60); uint64_t cc; Outcome w = fresh(rd, o, STACK, &cc); cost += cc; j.ops.push_back(o); j.want.push_back(w); event("task %d kind %d op %s => %s", t, j.kind, o.str().c_str(), w.str().c_str()); if (w.ret) noopnt = false; }
    if (rd != ref) rpa_dbex_destroy(rd);
  }
  for (auto &j : jobs) if (j.kind == 0 && !j.create_inside) j.st = rpa_stat_create(db, STACK);
  set_budget(cost * 40 + 80000000ull); int active = 0, overlapped = 0;
  for (int t = 0; t < nt; t++) spawn(taskname(t).c_str(), [&, t] {
    Job &j = jobs[t]; if (++active > 1) overlapped = 1;
    if (j.kind == 0) {
      if (j.create_inside) { j.st = rpa_stat_create(db, STACK); count("op.context_created_concurrently"); }
      for (size_t i = 0; i < j.ops.size(); i++) { Outcome o = run_op(j.st, db, j.ops[i]); count("op.parse_match_scan"); event("t%d op %zu done %s", t, i, o.str().c_str()); must_equal("not-isolated", j.want[i], o, taskname(t).c_str(), j.ops[i]); }
      rpa_stat_destroy(j.st);
    } else if (j.kind == 1) {
      count("op.database_queries"); size_t k = 0;
      for (rparule_t r = rpa_dbex_first(db); r >= 0; r = rpa_dbex_next(db, r), k++) { std::string n = name_of(rpa_dbex_name(db, r)); if (k >= names.size() || n != names[k]) fail("not-isolated", "concurrent query: rule %zu is named %s, expected %s", k, n.c_str(), k < names.size() ? names[k].c_str() : "(none)");
        rparule_t l = rpa_dbex_lookup_s(db, n.c_str()); if (l < 0 || name_of(rpa_dbex_name(db, l)) != n) fail("not-isolated", "concurrent lookup of %s gave %ld", n.c_str(), (long)l); }
      if (k != names.size()) fail("not-isolated", "concurrent query saw %zu rules, expected %zu", k, names.size());
    } else {
      count("op.grammar_compiled_concurrently"); rpadbex_t *d2 = build(j.g2, j.c2);
      rpastat_t *st = rpa_stat_create(d2, STACK); for (size_t i = 0; i < j.ops.size(); i++) { Outcome o = run_op(st, d2, j.ops[i]); must_equal("not-isolated", j.want[i], o, taskname(t).c_str(), j.ops[i]); }
      rpa_stat_destroy(st); rpa_dbex_destroy(d2);
    }
    active--;
  });
  set_sched(draw_sched()); run_tasks();
  for (int t = 0; t < nt && t < 2; t++) if (jobs[t].ops.size()) { Outcome o = fresh(db, jobs[t].ops[0], STACK); must_equal("grammar-changed", jobs[t].want[0], o, "afterwards", jobs[t].ops[0]); }
  if (overlapped && !noopnt) { nontrivial(); count("probe.overlapping_rounds"); }
  }
  rpa_dbex_destroy(db); rpa_dbex_destroy(ref);
  distinct(hash_str(g.text));
}
static Reg r1({"C01", c01, "one run = one grammar (15 hand-written or generated), 2-4 threads, per-thread operations with inputs derived from the grammar and mutated, 1-4 rounds of seeded interleavings at memory-access granularity; non-trivial when in some round at least two threads were inside their work at the same time and some operation matched; distinct by grammar, operations and schedule hash", REAL, STUB});

// ---------------------------------------------------------------------------------------------------- C02
struct Abort { uint64_t inv = 0, res = 0; int op_inv = -1, op_res = -1; bool in_inv = false, in_res = false, fired = false; };
static void c02() {
  Gram g = choose_grammar(); Cfg c = draw_cfg(); announce(g, c); slots_begin();
  rpadbex_t *db = build(g, c);
  int nops = 1 + (int)draw(3), nab = 1 + (int)draw(2), nby = (int)draw(2);
  std::vector<Op> ops; std::vector<Outcome> want; std::vector<uint64_t> cost; uint64_t tot = 0;
  for (int i = 0; i < nops; i++) { Op o = i && draw(3) == 2 ? vary(g, ops[draw(i)]) : make_op(g, 260); uint64_t cc; Outcome w = fresh(db, o, STACK, &cc); o.trace = draw_trace(o, cc); ops.push_back(o); want.push_back(w); cost.push_back(cc); tot += cc; event("op %d %s => %s (%llu points)", i, o.str().c_str(), w.str().c_str(), (unsigned long long)cc); }
  rpastat_t *st = rpa_stat_create(db, STACK), *st2 = rpa_stat_create(db, STACK);
  Op by = make_op(g, 40); Outcome bywant = fresh(db, by, STACK);
  std::vector<Abort> ab(nab); Live lv; std::vector<Outcome> got(nops); std::vector<std::pair<uint64_t, uint64_t>> span(nops);
  set_budget(tot * 60 + 100000000ull);
  int target = spawn("runner", [&] {
    for (int i = 0; i < nops; i++) { got[i] = run_op(st, db, ops[i], nullptr, &lv); span[i] = {lv.start, lv.end}; event("runner op %d done at its step %llu: %s", i, (unsigned long long)lv.end, got[i].str().c_str()); }
  });
  for (int a = 0; a < nab; a++) {
    int k = (int)draw(nops); uint64_t at; uint64_t how = draw(5);
    if (how == 0) at = draw(600); else if (how == 1) at = cost[k] > 400 ? cost[k] - draw(400) : draw(cost[k] + 1); else at = draw(cost[k] + 10);
    int twice = draw(4) == 3;
    event("aborter %d: op %d step +%llu%s", a, k, (unsigned long long)at, twice ? " twice" : "");
    spawn("aborter", [&, a, k, at, twice] {
      wait_for([&] { return lv.idx >= k || task_done(target); });
      if (task_done(target)) return;
      uint64_t base = lv.idx == k && lv.in_op ? lv.start : task_steps(target);
      sleep_until_task_step(target, base + at);
      if (task_done(target)) { count("probe.abort_after_everything"); return; }
      Abort &A = ab[a]; A.fired = true; A.inv = task_steps(target); A.op_inv = lv.idx; A.in_inv = lv.in_op; count("fault.abort_requested");
      rpa_stat_abort(st); if (twice) rpa_stat_abort(st);
      A.res = task_steps(target); A.op_res = lv.idx; A.in_res = lv.in_op;
      event("abort %d issued at runner step %llu (op %d%s), returned at %llu", a, (unsigned long long)A.inv, A.op_inv, A.in_inv ? "" : ", between operations", (unsigned long long)A.res);
    });
  }
  if (nby) spawn("bystander", [&] { for (int i = 0; i < 2; i++) { Outcome o = run_op(st2, db, by); must_equal("bystander-affected", bywant, o, "bystander", by); } });
  SchedCfg sc = draw_sched(); set_sched(sc); run_tasks();
  for (int i = 0; i < nops; i++) {
    // which aborts may legitimately touch operation i: those whose call overlapped it
    bool may = false; const Abort *inside = nullptr;
    for (auto &A : ab) if (A.fired) {
      bool before = A.res <= span[i].first && !(A.in_res && A.op_res == i), after = A.inv >= span[i].second && !(A.in_inv && A.op_inv == i);
      if (before || after) continue;
      may = true;
      if (A.in_inv && A.op_inv == i && A.in_res && A.op_res == i && A.inv >= span[i].first + 64) { if (!inside || A.res < inside->res) inside = &A; }
    }
    const Outcome &o = got[i]; bool aborted = o.ret < 0 && o.err == RPA_E_USERABORT;
    if (aborted) { count("probe.operation_aborted"); if (!may) fail("spurious-abort", "op %d %s was aborted though no abort overlapped it", i, ops[i].str().c_str()); }
    else if (want[i] != o) { if (may && o.ret < 0) fail("wrong-abort-error", "op %d %s overlapped by an abort: %s", i, ops[i].str().c_str(), differ(want[i], o).c_str()); fail("abort-corrupted-result", "op %d %s: %s", i, ops[i].str().c_str(), differ(want[i], o).c_str()); }
    if (inside) {
      nontrivial(); uint64_t bound = 4000 + 150 * (ops[i].data.size() + (want[i].recs.size() > o.recs.size() ? want[i].recs.size() : o.recs.size())), used = span[i].second - inside->res;
      if (used > bound) fail("abort-lost", "op %d %s kept running for %llu points after the abort (bound %llu) and returned %s", i, ops[i].str().c_str(), (unsigned long long)used, (unsigned long long)bound, o.str().c_str());
      count("probe.abort_inside_operation"); if (!aborted) count("probe.abort_inside_but_completed"); if (inside->inv < span[i].first + 600) count("probe.abort_during_setup"); if (ops[i].kind == SCAN) count("probe.abort_inside_scan");
    }
  }
  // the context is as good as new
  for (int i = 0; i < 3; i++) { const Op &o = i == 0 ? ops[nops - 1] : i == 1 ? ops[0] : by; Outcome r = run_op(st, db, o); must_equal("context-damaged", i == 0 ? want[nops - 1] : i == 1 ? want[0] : bywant, r, "after the aborts", o); }
  rpa_stat_destroy(st); rpa_stat_destroy(st2); rpa_dbex_destroy(db);
  distinct(hash_str(g.text));
}
static Reg r2({"C02", c02, "one run = one context performing 1-3 operations while 1-2 other threads request aborts at drawn instants (set-up, middle, end, between scan positions), optionally a bystander context; non-trivial when an abort call lay entirely inside a running operation; distinct by grammar, operations and schedule hash", REAL, STUB});

// ---------------------------------------------------------------------------------------------------- C03
static void c03() {
  Gram g = choose_grammar(); Cfg c = draw_cfg(); announce(g, c); slots_begin();
  rpadbex_t *db = build(g, c);
  unsigned long stack = draw(3) == 2 ? 60 + draw(500) : STACK; event("stack %lu", stack);
  int nops = 3 + (int)draw(7); std::vector<Op> ops; std::vector<Outcome> want; std::vector<uint64_t> cost; std::vector<uint64_t> abort_at(nops, ~0ull); uint64_t tot = 0;
  for (int i = 0; i < nops; i++) { Op o = i > 0 && draw(3) == 2 ? ops[draw(i)] : make_op(g, 120); if (i > 0 && draw(3) == 2) o = vary(g, ops[draw(i)]); o.misuse = chance(1, 10) ? 1 + (int)draw(7) : 0; if (o.misuse) count("fault.misused_call"); uint64_t cc; Outcome w = fresh(db, o, stack, &cc); o.trace = draw_trace(o, cc); ops.push_back(o); want.push_back(w); cost.push_back(cc); tot += cc;
    if (draw(3) == 2) abort_at[i] = draw(cc + cc / 8 + 1);
    event("op %d %s => %s%s", i, o.str().c_str(), w.str().c_str(), abort_at[i] != ~0ull ? strf(" (abort at +%llu)", (unsigned long long)abort_at[i]).c_str() : ""); }
  // a long history: the same small operation some power of two times between two others
  int burst = 0, burst_after = -1; Op filler; Outcome fillerwant;
  if (draw(8) == 7) { static const int N[] = {14, 15, 30, 31, 62, 63, 126, 127, 254, 255, 256, 510, 511, 1023, 4095, 65535}; burst = N[draw(draw(8) == 7 ? 16 : 13)]; burst_after = (int)draw(nops - 1); filler = make_op(g, 2); filler.kind = MATCH; filler.prefill = 0; filler.data.clear(); filler.off = 0; uint64_t cc; fillerwant = fresh(db, filler, stack, &cc); tot += cc * burst; count("op.long_history"); event("%d times %s after operation %d", burst, filler.str().c_str(), burst_after); }
  rpastat_t *st = rpa_stat_create(db, stack); Live lv; int odd = 0;
  set_budget(tot * 60 + 100000000ull); int release = -1;
  int target = spawn("runner", [&] {
    for (int i = 0; i < nops; i++) {
      Outcome o = run_op(st, db, ops[i], nullptr, &lv); event("op %d: %s", i, o.str().c_str());
      bool aborted = o.ret < 0 && o.err == RPA_E_USERABORT;
      if (aborted) count("probe.operation_aborted"); if (o.err == RPA_E_RULEABORT) { count("probe.rule_abort"); odd++; } if (o.ret < 0 && o.err == RPA_E_EXECUTION) { count("probe.stack_exhausted"); odd++; } if (o.ret == 0) odd++;
      if (aborted && abort_at[i] != ~0ull) { odd++; continue; }
      must_equal("history-dependent", want[i], o, strf("operation %d on the reused context", i).c_str(), ops[i]);
      if (i == burst_after) for (int k = 0; k < burst; k++) { Outcome x = run_op(st, db, filler); if (x != fillerwant) must_equal("history-dependent", fillerwant, x, strf("repetition %d on the reused context", k).c_str(), filler); }
      wait_for([&] { return release >= i || abort_at[i] == ~0ull; });
    }
  });
  spawn("aborter", [&] {
    for (int i = 0; i < nops; i++) { if (abort_at[i] == ~0ull) continue;
      wait_for([&] { return lv.idx >= i || task_done(target); });
      if (lv.idx == i && lv.in_op) { sleep_until_task_step(target, lv.start + abort_at[i]); if (lv.idx == i && lv.in_op) { count("fault.abort_requested"); rpa_stat_abort(st); } }
      release = i; }
    release = nops;
  });
  SchedCfg sc; sc.mode = 0; sc.maxexp = 0; sc.num = 0; sc.den = 1; set_sched(sc); run_tasks();
  rpa_stat_destroy(st); rpa_dbex_destroy(db);
  if (odd) nontrivial(); distinct(hash_str(g.text));
  for (auto &o : ops) distinct(hash_str(o.str())); for (auto a : abort_at) distinct(a);
}
static Reg r3({"C03", c03, "one run = 3-9 operations on one context with other rules, encodings, input sizes, user aborts at drawn instants, rule aborts and (one run in three) a small stack; each outcome compared with a fresh context; non-trivial when at least one operation failed, mismatched or was aborted before a later one; distinct by grammar, operations and abort instants", REAL, STUB});

// what the rules of the hand-written grammars say about their examples: matched bytes (-1: an abort) and the nodes of the tree
static const std::map<std::string, std::vector<std::pair<int, int>>> KNOWN = {
  {"calc", {{1,6}, {3,12}, {7,20}, {14,30}, {7,24}, {9,18}, {9,27}, {13,37}}},
  {"calcsimple", {{1,3}, {3,6}, {7,9}, {10,11}, {9,7}, {9,12}}},
  {"loopy", {{1,7}, {5,12}, {8,24}, {9,21}, {7,23}}},
  {"directloop", {{1,2}, {9,10}, {9,10}, {5,6}, {9,10}}},
  {"word", {{5,12}, {5,13}, {14,27}, {10,19}, {16,26}, {5,13}}},
  {"paren", {{1,3}, {2,3}, {7,11}, {9,11}, {27,29}, {10,15}}},
  {"backtrack", {{1,2}, {3,3}, {5,4}, {5,4}, {5,4}, {5,6}, {5,6}, {4,9}, {8,8}}},
  {"json", {{1,3}, {2,2}, {2,2}, {9,13}, {7,8}, {29,23}, {18,10}, {12,12}}},
  {"rule-abort", {{6,6}, {12,11}, {-1,0}, {-1,0}, {-1,0}, {-1,0}}},
  {"ident", {{2,3}, {4,3}, {10,7}, {11,7}, {4,3}, {2,3}, {5,5}}},
  {"utf", {{4,4}, {8,8}, {6,5}, {3,5}, {7,7}}},
  {"kv", {{4,2}, {10,2}, {12,6}, {0,0}, {10,4}}},
  {"minmax", {{8,9}, {5,7}, {19,18}, {17,17}, {0,0}}},
  {"rrec", {{1,4}, {3,8}, {8,14}, {5,10}, {7,14}, {11,24}, {13,22}}},
  {"anbncn", {{2,3}, {4,4}, {6,4}, {2,3}, {4,3}, {2,2}, {6,5}, {7,5}}},
  {"hidden", {{1,4}, {1,4}, {1,4}, {4,4}, {2,2}, {2,3}, {5,5}, {2,2}, {5,12}, {6,8}}},
  {"operators", {{2,3}, {5,7}, {4,3}, {3,3}, {6,5}, {3,5}, {4,5}, {2,3}, {8,5}}},
  {"wide", {{3,5}, {8,3}, {7,4}, {6,7}, {8,8}, {8,5}, {6,4}, {5,4}}},
  {"refloop", {{5,6}, {1,2}, {4,5}, {1,2}, {1,2}, {1,2}, {2,2}, {6,9}}},
};
static void known_answer(const Gram &g, const Op &o, const Outcome &w) {
  auto it = KNOWN.find(g.name); if (it == KNOWN.end() || o.kind != PARSE || o.enc != RPA_ENCODING_UTF8 || o.off || o.misuse || o.rule != g.roots[0]) return;
  for (size_t i = 0; i < it->second.size(); i++) if (g.seeds[i] == o.data) { auto &k = it->second[i]; count("op.known_answer");
    if (w.ret != k.first || (!o.prefill && (long)w.recs.size() != 2 * k.second)) fail("wrong-answer", "grammar %s, %s: expected %d and %d records, got %s and %zu records", g.name.c_str(), o.str().c_str(), k.first, 2 * k.second, w.str().c_str(), w.recs.size()); }
}
static Op known_op(const Gram &g, Op o) { if (KNOWN.count(g.name) && chance(1, 6)) { o = Op(); o.rule = g.roots[0]; o.enc = RPA_ENCODING_UTF8; o.data = g.seeds[draw(g.seeds.size())]; } return o; }
// ---------------------------------------------------------------------------------------------------- C04
static void c04() {
  Gram g = choose_grammar(); Cfg c = draw_cfg(); announce(g, c); slots_begin();
  rpadbex_t *db = build(g, c);
  int n = 1 + (int)draw(3); bool hit = false;
  for (int i = 0; i < n; i++) {
    bool huge = draw(30) == 29; Op o = huge ? stretch_op(db, g, 16) : known_op(g, make_op(g, draw(3) ? 40 : 90)); event("op %d %s", i, o.str().c_str()); if (huge) { n = i + 1; count("op.long_input"); }
    rpastat_t *plain = rpa_stat_create(db, STACK); rpa_stat_cachedisable(plain, 1); set_soft_budget(huge ? 300000000ull : 60000000ull); Outcome w = run_op(plain, db, o); rpa_stat_destroy(plain);
    event("without cache: %s", w.str().c_str()); known_answer(g, o, w);
    if (!huge) { // the first-character bitmaps and the merging of alternatives into classes, switched differently
      Cfg c2 = c; int k = 1 + (int)draw(3); if (k & 1) c2.bitmap = !c.bitmap; if (k & 2) c2.opt = !c.opt; rpadbex_t *d2 = build(g, c2); for (auto &p : {std::make_pair((unsigned long)RPA_DBEXCFG_OPTIMIZATIONS, c2.opt), std::make_pair((unsigned long)RPA_DBEXCFG_BITMAP, c2.bitmap)}) if (rpa_dbex_cfgget(d2, p.first) != p.second) fail("setting-ignored", "setting %lu was switched to %d and reads %ld", p.first, p.second, rpa_dbex_cfgget(d2, p.first)); set_soft_budget(60000000ull); Outcome x = fresh(d2, o, STACK); count("op.other_settings");
      event("opt=%d bitmap=%d: %s", c2.opt, c2.bitmap, x.str().c_str()); must_equal("settings-change-result", w, x, strf("compiled with opt=%d bitmap=%d instead of opt=%d bitmap=%d", c2.opt, c2.bitmap, c.opt, c.bitmap).c_str(), o); rpa_dbex_destroy(d2); }
    Outcome full = fresh(db, o, STACK); must_equal("cache-changes-result", w, full, "with the full cache", o);
    rpastat_t *st = rpa_stat_create(db, STACK); int rounds = 1 + (int)draw(3);
    for (int r = 0; r < rounds; r++) {
      uint64_t den = 2 + draw(30), mode = draw(3), k = 0, from = draw(60), len = 1 + draw(40);
      std::function<bool()> f = [&] { k++; if (mode == 0) return draw(den) == den - 1; if (mode == 1) return k >= from && k < from + len; return draw(den) != 0; };
      g_cacheloss = new std::function<bool()>(f); set_soft_budget(huge ? 300000000ull : 60000000ull); Outcome l = run_op(st, db, o); delete g_cacheloss; g_cacheloss = nullptr;
      if (k) hit = true; distinct(k * 131 + from * 7 + len + mode); event("loss mode %d: %s (%llu cache accesses)", (int)mode, l.str().c_str(), (unsigned long long)k);
      must_equal("cache-loss-changes-result", w, l, "with lost cache entries", o);
      if (draw(3) == 2) { Op o2 = make_op(g, 30); Outcome w2 = fresh(db, o2, STACK), l2 = run_op(st, db, o2); must_equal("stale-cache", w2, l2, "after another input on the same context", o2); }
    }
    rpa_stat_destroy(st); distinct(hash_str(o.str()));
  }
  rpa_dbex_destroy(db); if (hit) nontrivial(); distinct(hash_str(g.text));
}
static Reg r4({"C04", c04, "one run = 1-3 operations, each performed with the memo cache disabled, with the grammar compiled under other optimisation settings, with the cache intact, and 1-3 times with drawn subsets of cache lookups and stores lost; non-trivial when the operation used the cache; distinct by grammar, operation and loss pattern", REAL, STUB});

// ---------------------------------------------------------------------------------------------------- C05
static void check_tree(rarray_t *recs, const Op &op, const Outcome &o, const char *cls, bool complete) {
  if (!recs) return;
  long n = (long)r_array_length(recs); if (n < op.prefill) fail(cls, "%s: only %ld of %d earlier records left", op.str().c_str(), n, op.prefill);
  const char *base = nullptr;
  for (long i = 0; i < op.prefill; i++) { rparecord_t *r = rpa_record_get(recs, i); if (!r || name_of(r->rule) != "marker" || r->ruleuid != (ruint32)(900 + i) || r->userdata != (ruword)(77 + i) || r->type != ((i & 1) ? RPA_RECORD_END : RPA_RECORD_START)) fail(cls, "%s: earlier record %ld was changed", op.str().c_str(), i); }
  if (chance(1, 6)) { for (long i = -1; i < n + 8; i += i < n && n > 60 ? 1 + (long)draw(n / 20) : 1) rpa_record_dump(recs, i, (int)draw(2)); fflush(stdout); count("op.records_dumped"); }
  if (!complete) return;
  struct Open { long idx; const Rec *r; long last_end; }; std::vector<Open> st; long lastroot = -1; long len = (long)op.data.size();
  for (long i = op.prefill; i < (long)o.recs.size(); i++) {
    const Rec &r = o.recs[i];
    if (r.type != RPA_RECORD_START && r.type != RPA_RECORD_END) fail(cls, "%s: record %ld has type %u; %s", op.str().c_str(), i, r.type, o.dump().c_str());
    if (r.off < (long)op.off || r.siz < 0 || r.off + r.siz > len) fail(cls, "%s: record %ld (%s) covers %ld+%ld outside the input; %s", op.str().c_str(), i, r.rule.c_str(), r.off, r.siz, o.dump().c_str());
    rparecord_t *p = rpa_record_get(recs, i); if ((long)p->inputoff != r.off) fail(cls, "%s: record %ld inputoff %lu but input pointer at %ld", op.str().c_str(), i, p->inputoff, r.off);
    if (r.type == RPA_RECORD_START) {
      if (!st.empty()) { const Rec &q = *st.back().r; if (r.off < q.off || r.off + r.siz > q.off + q.siz) fail(cls, "%s: record %ld (%s %ld+%ld) is not inside its parent (%s %ld+%ld); %s", op.str().c_str(), i, r.rule.c_str(), r.off, r.siz, q.rule.c_str(), q.off, q.siz, o.dump().c_str());
        if (r.off < st.back().last_end) fail(cls, "%s: record %ld (%s) overlaps the sibling before it; %s", op.str().c_str(), i, r.rule.c_str(), o.dump().c_str()); st.back().last_end = r.off + r.siz; }
      else { if (r.off < lastroot) fail(cls, "%s: record %ld (%s) overlaps the sibling before it; %s", op.str().c_str(), i, r.rule.c_str(), o.dump().c_str()); lastroot = r.off + r.siz; if (r.off + r.siz > (long)op.off + o.ret) fail(cls, "%s: record %ld (%s) reaches past the match; %s", op.str().c_str(), i, r.rule.c_str(), o.dump().c_str()); }
      long par = rpa_recordtree_parent(recs, i, RPA_RECORD_START), wantpar = st.empty() ? -1 : st.back().idx;
      if (par != wantpar && !(wantpar < 0 && op.prefill)) fail(cls, "%s: parent of record %ld is %ld, expected %ld", op.str().c_str(), i, par, wantpar);
      st.push_back({i, &r, r.off});
    } else {
      if (st.empty()) fail(cls, "%s: end record %ld (%s) without a start; %s", op.str().c_str(), i, r.rule.c_str(), o.dump().c_str());
      const Rec &q = *st.back().r; if (q.rule != r.rule || q.off != r.off || q.siz != r.siz || q.ruleid != r.ruleid || q.ruleuid != r.ruleuid) fail(cls, "%s: end record %ld (%s %ld+%ld) does not match its start (%s %ld+%ld); %s", op.str().c_str(), i, r.rule.c_str(), r.off, r.siz, q.rule.c_str(), q.off, q.siz, o.dump().c_str());
      long s = st.back().idx; if (rpa_recordtree_get(recs, s, RPA_RECORD_END) != i || rpa_recordtree_get(recs, i, RPA_RECORD_START) != s) fail(cls, "%s: navigation does not pair records %ld and %ld", op.str().c_str(), s, i);
      if (rpa_recordtree_size(recs, s) != i - s + 1) fail(cls, "%s: size of the tree at %ld is %ld, expected %ld", op.str().c_str(), s, rpa_recordtree_size(recs, s), i - s + 1);
      st.pop_back();
    }
  }
  if (!st.empty()) fail(cls, "%s: %zu start records without an end; %s", op.str().c_str(), st.size(), o.dump().c_str());
  // children and siblings as navigated agree with the nesting; copies are exact
  std::vector<long> stack; std::vector<std::vector<long>> kids(o.recs.size());
  for (long i = op.prefill; i < (long)o.recs.size(); i++) { if (o.recs[i].type == RPA_RECORD_START) { if (!stack.empty()) kids[stack.back()].push_back(i); stack.push_back(i); } else stack.pop_back(); }
  for (long i = op.prefill; i < (long)o.recs.size(); i++) if (o.recs[i].type == RPA_RECORD_START) {
    auto &k = kids[i]; long fc = rpa_recordtree_firstchild(recs, i, RPA_RECORD_START), lc = rpa_recordtree_lastchild(recs, i, RPA_RECORD_START);
    if (fc != (k.empty() ? -1 : k.front()) || lc != (k.empty() ? -1 : k.back())) fail(cls, "%s: children of record %ld navigate to %ld..%ld, expected %ld..%ld; %s", op.str().c_str(), i, fc, lc, k.empty() ? -1 : k.front(), k.empty() ? -1 : k.back(), o.dump().c_str());
    for (size_t q = 0; q < k.size(); q++) { long nx = rpa_recordtree_next(recs, k[q], RPA_RECORD_START), pv = rpa_recordtree_prev(recs, k[q], RPA_RECORD_START);
      if (nx != (q + 1 < k.size() ? k[q + 1] : -1) || pv != (q ? k[q - 1] : -1)) fail(cls, "%s: siblings of record %ld navigate to %ld/%ld", op.str().c_str(), k[q], pv, nx); }
    if (draw(8) == 7) { rarray_t *d = rpa_records_create(); long cn = rpa_recordtree_copy(d, recs, i); long sz = rpa_recordtree_size(recs, i);
      if (cn != sz || (long)r_array_length(d) != sz) fail(cls, "%s: copy of the tree at %ld has %ld records, expected %ld", op.str().c_str(), i, cn, sz);
      for (long q = 0; q < sz; q++) if (memcmp(r_array_slot(d, q), r_array_slot(recs, i + q), sizeof(rparecord_t))) fail(cls, "%s: copy of the tree at %ld differs at %ld", op.str().c_str(), i, q);
      rpa_records_destroy(d); }
  }
  // every function from either record of a pair and for either record of the pair it leads to
  std::vector<long> mate(o.recs.size(), -1), par(o.recs.size(), -1), roots; { std::vector<long> s; for (long i = op.prefill; i < (long)o.recs.size(); i++) if (o.recs[i].type == RPA_RECORD_START) { if (s.empty()) roots.push_back(i); else par[i] = s.back(); s.push_back(i); } else { mate[i] = s.back(); mate[s.back()] = i; s.pop_back(); } }
  auto other = [&](long i) { return i < 0 ? -1 : mate[i]; };
  auto nav = [&](const char *what, long at, long s, long e, long want) { if (s != want || e != other(want)) fail(cls, "%s of record %ld leads to %ld and %ld, expected %ld and %ld; %s", what, at, s, e, want, other(want), o.dump().c_str()); };
#define NAV(f, at, want) nav(#f, at, rpa_recordtree_##f(recs, at, RPA_RECORD_START), rpa_recordtree_##f(recs, at, RPA_RECORD_END), want)
  auto siblings = [&](const std::vector<long> &k) { for (size_t q = 0; q < k.size(); q++) for (long at : {k[q], mate[k[q]]}) { NAV(next, at, q + 1 < k.size() ? k[q + 1] : -1); NAV(prev, at, q ? k[q - 1] : -1); } };
  for (long i = op.prefill; i < (long)o.recs.size(); i++) if (o.recs[i].type == RPA_RECORD_START && draw(2)) {
    auto &k = kids[i]; for (long at : {i, mate[i]}) { NAV(get, at, i); NAV(firstchild, at, k.empty() ? -1 : k.front()); NAV(lastchild, at, k.empty() ? -1 : k.back()); if (par[i] >= 0 || !op.prefill) NAV(parent, at, par[i]); if (rpa_recordtree_size(recs, at) != mate[i] - i + 1) fail(cls, "size of the tree at record %ld is %ld, expected %ld", at, rpa_recordtree_size(recs, at), mate[i] - i + 1); if (rpa_record_getruleuid(recs, at) != (long)o.recs[i].ruleuid) fail(cls, "record %ld: rule %ld, expected %u", at, rpa_record_getruleuid(recs, at), o.recs[i].ruleuid); }
    siblings(k); count("probe.navigation_checked");
  }
  if (!op.prefill) siblings(roots);
  for (long at : {-1L, (long)o.recs.size(), (long)o.recs.size() + 7}) { NAV(get, at, -1); NAV(firstchild, at, -1); NAV(lastchild, at, -1); NAV(next, at, -1); NAV(prev, at, -1); NAV(parent, at, -1); if (rpa_record_get(recs, at)) fail(cls, "there is a record %ld of %zu", at, o.recs.size()); }
  for (long r : roots) { // a walk visits the records of a tree in their order
    long depth = 0, most = 0; for (long i = r; i <= mate[r]; i++) { depth += o.recs[i].type == RPA_RECORD_START ? 1 : -1; most = std::max(most, depth); } if (most > 100) continue;
    struct Walk { std::vector<long> seen; } w; long rc = rpa_recordtree_walk(recs, draw(2) ? r : mate[r], 0, [](rarray_t *, long rec, rpointer u) -> long { ((Walk *)u)->seen.push_back(rec); return 0; }, &w);
    bool ok = rc == 0 && (long)w.seen.size() == mate[r] - r + 1; for (size_t i = 0; ok && i < w.seen.size(); i++) ok = w.seen[i] == r + (long)i; if (!ok) fail(cls, "a walk over the tree at record %ld returns %ld after %zu records of %ld; %s", r, rc, w.seen.size(), mate[r] - r + 1, o.dump().c_str()); count("probe.tree_walked"); }
  if (chance(1, 8)) { for (long i = op.prefill; i < (long)o.recs.size() + 3; i++) rpa_record_dumpindented(recs, i, (int)draw(6)); rpa_record_dumpindented(recs, -1, 0); fflush(stdout); }
  (void)base;
}
static void c05() {
  Gram g = choose_grammar(); Cfg c = draw_cfg(); announce(g, c); slots_begin();
  rpadbex_t *db = build(g, c); int n = 2 + (int)draw(4); uint64_t recs_seen = 0; bool interrupted = false;
  unsigned long stack = draw(4) == 3 ? 80 + draw(400) : STACK; rpastat_t *st = rpa_stat_create(db, stack);
  for (int i = 0; i < n; i++) {
    Op o = known_op(g, make_op(g, 200)); o.kind = PARSE; if (chance(1, 12)) { o.misuse = 1 + (int)draw(7); count("fault.misused_call"); } uint64_t cc; Outcome w = fresh(db, o, stack, &cc); if (stack == STACK) known_answer(g, o, w); o.trace = draw_trace(o, cc);
    uint64_t at = draw(3) == 2 ? draw(cc + 1) : ~0ull; event("op %d %s%s", i, o.str().c_str(), at != ~0ull ? strf(" abort at +%llu", (unsigned long long)at).c_str() : "");
    Live lv; set_budget(cc * 60 + 60000000ull);
    uint64_t den = 3 + draw(20); bool lossy = draw(3) == 2; if (lossy) set_soft_budget(60000000ull); std::function<bool()> f = [&] { return draw(den) == den - 1; }; if (lossy) g_cacheloss = new std::function<bool()>(f);
    int t = spawn("runner", [&] {
      Outcome got = run_op(st, db, o, [&](rarray_t *r, const Op &op, const Outcome &oc) { check_tree(r, op, oc, oc.ret > 0 ? "malformed-tree" : "failed-parse-damage", oc.ret > 0); if (oc.ret <= 0) { interrupted = true; count(oc.ret < 0 ? "probe.interrupted_parse" : "probe.no_match");
          for (long k = op.prefill; r && k < (long)r_array_length(r); k++) { rparecord_t *p = rpa_record_get(r, k); if (p->type != RPA_RECORD_START && p->type != RPA_RECORD_END) fail("failed-parse-damage", "%s: leftover record %ld has type %u", op.str().c_str(), k, p->type); if (p->inputoff + (p->type == RPA_RECORD_END ? p->inputsiz : 0) > op.data.size()) fail("failed-parse-damage", "%s: leftover record %ld reaches outside the input", op.str().c_str(), k); } } }, &lv);
      recs_seen += got.recs.size(); event("%s", got.str().c_str()); });
    if (at != ~0ull) spawn("aborter", [&] { wait_for([&] { return lv.idx >= 0 || task_done(t); }); sleep_until_task_step(t, lv.start + at); if (lv.in_op) { count("fault.abort_requested"); rpa_stat_abort(st); } });
    SchedCfg sc; sc.mode = 0; sc.maxexp = 0; sc.num = 0; sc.den = 1; set_sched(sc); run_tasks();
    if (lossy) { delete g_cacheloss; g_cacheloss = nullptr; }
    distinct(w.hash()); distinct(at);
  }
  rpa_stat_destroy(st); rpa_dbex_destroy(db); count("probe.records_checked", recs_seen); if (recs_seen > 2 || interrupted) nontrivial(); distinct(hash_str(g.text));
}
static Reg r5({"C05", c05, "one run = 2-5 parses on one context, arrays optionally pre-filled, aborts, lost cache entries and small stacks injected; every record array is checked structurally and through the navigation functions; non-trivial when records were produced or a parse was interrupted; distinct by grammar, outcome and abort instant", REAL, STUB});

// ---------------------------------------------------------------------------------------------------- C06
static void c06() {
  Gram g = choose_grammar(); Cfg c = draw_cfg(); announce(g, c); slots_begin();
  rpadbex_t *db = build(g, c); int n = 1 + (int)draw(3); bool ex = false;
  static const std::vector<std::pair<const char *, const char *>> deep = {{"(", ")"}, {"[", "]"}, {"a", "b"}, {"{\"a\":", "}"}, {"1+", ""}, {"((", "))"}};
  for (int i = 0; i < n; i++) {
    Op o = make_op(g, 150);
    if (draw(2)) { auto &d = deep[draw(deep.size())]; int k = 1 + (int)draw(1u << (1 + draw(7))); std::string s; for (int q = 0; q < k; q++) s += d.first; s += o.data.substr(0, 3); for (int q = 0; q < k; q++) s += d.second; o.data = s; o.off = 0; if ((o.enc & RPA_ENCODING_MASK) == RPA_ENCODING_UTF16LE) o.enc = 0; }
    uint64_t cc; Outcome w = fresh(db, o, 0, &cc); event("op %d %s => %s", i, o.str().c_str(), w.str().c_str());
    set_budget(cc * 80 + 60000000ull); int tries = 2 + (int)draw(4);
    for (int t = 0; t < tries; t++) {
      unsigned long stack = 1 + draw(1u << (2 + draw(10))); count("fault.small_stack"); distinct(stack);
      if (chance(1, 8)) { static const unsigned long H[] = {1ul << 26, 1ul << 40, 1ul << 59, 1ul << 60, (1ul << 60) + 3, ~0ul, ~0ul / 2, ~0ul / 16 + 2}; unsigned long h = H[draw(8)]; count("fault.stack_not_allocatable"); uint64_t l0 = heap_unrooted(); rpastat_t *hs = rpa_stat_create(db, h); event("stack %#lx: %s", h, hs ? "created" : "refused"); if (hs) { must_equal("wrong-answer-on-small-stack", w, run_op(hs, db, o), strf("context created with an impossible stack of %#lx entries", h).c_str(), o); rpa_stat_destroy(hs); } else if (heap_unrooted() != l0) fail("leak", "refused context with a stack of %#lx entries left %llu blocks", h, (unsigned long long)(heap_unrooted() - l0)); }
      rpastat_t *st = rpa_stat_create(db, stack); Outcome r = run_op(st, db, o, [&](rarray_t *rr, const Op &op, const Outcome &oc) { check_tree(rr, op, oc, "malformed-tree", oc.ret > 0 && w != oc); });
      event("stack %lu: %s", stack, r.str().c_str());
      bool exhausted = r.ret < 0 && !(r == w);
      if (exhausted) { ex = true; count("probe.stack_exhausted"); if (r.err <= 0) fail("no-error-code", "%s with a stack of %lu entries: returned %ld but the error code is %ld", o.str().c_str(), stack, r.ret, r.err); if (r.err == RPA_E_USERABORT || (r.err == RPA_E_RULEABORT && w.err != RPA_E_RULEABORT)) fail("wrong-error-code", "%s with a stack of %lu entries: error %ld", o.str().c_str(), stack, r.err); }
      else must_equal("wrong-answer-on-small-stack", w, r, strf("stack of %lu entries", stack).c_str(), o);
      Op o2 = make_op(g, 10); Outcome w2 = fresh(db, o2, stack), r2 = run_op(st, db, o2); must_equal("context-damaged", w2, r2, strf("after exhaustion, stack of %lu entries", stack).c_str(), o2);
      rpa_stat_destroy(st);
    }
    distinct(hash_str(o.str()));
  }
  rpa_dbex_destroy(db); if (ex) nontrivial(); distinct(hash_str(g.text));
}
static Reg r6({"C06", c06, "one run = 1-3 operations with nested inputs, each repeated with 2-5 drawn stack sizes (1-2048 entries) and compared with an ample stack, then a second operation on the same context; non-trivial when the stack was exhausted at least once; distinct by grammar, operation and stack size", REAL, STUB});

// ---------------------------------------------------------------------------------------------------- C07
extern "C" {
#include "rpa/rpadbexpriv.h"
}
struct DbView { int compile = 0; long err = 0; std::string name; std::vector<std::string> rules; std::vector<std::string> text;
  bool operator==(const DbView &o) const { return compile == o.compile && err == o.err && name == o.name && rules == o.rules && text == o.text; }
  std::string str() const { std::string s = strf("compile=%d err=%ld %s rules=%zu:", compile, err, name.c_str(), rules.size()); for (auto &r : rules) s += " " + r; return s; } };
static void list_rules(rpadbex_t *db, DbView &v) {
  for (rparule_t r = rpa_dbex_first(db); r >= 0; r = rpa_dbex_next(db, r)) { v.rules.push_back(name_of(rpa_dbex_name(db, r)));
    long n = rpa_dbex_strlen(db, r); std::string t; if (n >= 0) { char *b = (char *)guard_copy(std::string(n, 0).data(), n); long m = rpa_dbex_strncpy(db, b, r, n); t.assign(b, m < 0 ? 0 : m); guard_free(b); if (m != n) fail("query-wrong", "rpa_dbex_strncpy of rule %ld copied %ld of %ld bytes", (long)r, m, n); } v.text.push_back(t); if (v.rules.size() > 400) fail("query-wrong", "rule iteration does not end"); }
}
static void compile_view(rpadbex_t *db, DbView &v) {
  v.compile = rpa_dbex_compile(db); if (v.compile < 0) { rpa_errinfo_t ei; memset(&ei, 0, sizeof ei); rpa_dbex_lasterrorinfo(db, &ei); v.err = ei.code; if (ei.code == RPA_E_UNRESOLVEDSYMBOL) v.name = std::string(ei.name, strnlen(ei.name, sizeof ei.name)); }
}
static void need(bool ok, const char *cls, const char *fmt, ...) { if (ok) return; char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); fail(cls, "%s", b); }
static long load_copy(rpadbex_t *db, const std::string &t) { char *b = (char *)guard_copy(t.data(), t.size()); long r = rpa_dbex_load(db, b, t.size()); guard_free(b); return r; }
static std::vector<std::string> lines_of(const std::string &t) { std::vector<std::string> v; size_t a = 0; while (a < t.size()) { size_t e = t.find('\n', a); if (e == std::string::npos) e = t.size() - 1; v.push_back(t.substr(a, e - a + 1)); a = e + 1; } return v; }
static const uint64_t ODD = 60000000ull;
static std::string damage(const Gram &g, const std::string &base) {
  std::string t = base; static const std::vector<std::string> bad = {"'", "\"", "[", "]", "(", ")", "<", ">", "|", "-", "::=", "#", "#x", "#!", "#!emitid", "\\", "^", "\xff", "\xc3", "+", "?", "*", ".", "\n", "<:", ":>", "#x110000", "[z-a]", "()", "[]", "''", "#!emitid x 99999999999999999999\n", "#!abort\n", "-1"};
  switch (draw(8)) {
  case 0: t.resize(draw(t.size() + 1)); break;
  case 1: t.resize(draw(t.size() + 1)); t += "\n"; break;
  case 2: if (t.size()) t[draw(t.size())] = (char)draw(256); break;
  case 3: t.insert(draw(t.size() + 1), pick(bad)); break;
  case 4: if (t.size()) { size_t a = draw(t.size()); t.erase(a, 1 + draw(8)); } break;
  case 5: for (int i = 0, n = 1 + (int)draw(3); i < n; i++) { if (t.size()) t[draw(t.size())] = (char)draw(256); t.insert(draw(t.size() + 1), pick(bad)); } break;
  case 6: { int k = 1 + (int)draw(1u << (1 + draw(4))); static const std::vector<std::pair<const char *, const char *>> w = {{"(", ")"}, {"(", ""}, {"[", "]"}, {"'a' | (", ")"}}; auto &p = w[draw(w.size())]; std::string s = "deep ::= "; for (int i = 0; i < k; i++) s += p.first; s += "'a'"; for (int i = 0; i < k; i++) s += p.second; t = draw(2) ? t + s + "\n" : s + "\n"; break; }
  default: { auto l = lines_of(t); std::string &a = l[draw(l.size())]; a.insert(draw(a.size()), pick(bad)); t.clear(); for (auto &x : l) t += x; }
  }
  return t;
}
static void c07() {
  Gram g = choose_grammar(), other = choose_grammar(); Cfg c = draw_cfg(); announce(g, c); event("other grammar %s", other.name.c_str());
  std::set<std::string> whole; std::vector<std::string> L = lines_of(g.text); size_t cut = draw(L.size() + 1); std::string half[2]; for (size_t i = 0; i < L.size(); i++) half[i >= cut] += L[i];
  rpadbex_t *db = rpa_dbex_create(); rpa_dbex_cfgset(db, RPA_DBEXCFG_OPTIMIZATIONS, c.opt); rpa_dbex_cfgset(db, RPA_DBEXCFG_BITMAP, c.bitmap);
  rpastat_t *st = rpa_stat_create(db, STACK); rpadbex_t *od = nullptr;
  bool open = false, compiled = false, clean = true; std::vector<std::string> acc; long nrules = 0; int failures = 0;
  auto expect = [&](long r, long code, const char *what) { need(r < 0, "misuse-accepted", "%s returned %ld, expected an error", what, r); need(rpa_dbex_lasterror(db) == code, "wrong-error-code", "%s failed with error %ld, expected %ld", what, rpa_dbex_lasterror(db), code); failures++; count("probe.misuse_rejected"); };
  auto shadow = [&](DbView &v) { rpadbex_t *s = rpa_dbex_create(); rpa_dbex_cfgset(s, RPA_DBEXCFG_OPTIMIZATIONS, c.opt); rpa_dbex_cfgset(s, RPA_DBEXCFG_BITMAP, c.bitmap); rpa_dbex_open(s); for (auto &t : acc) { long r = load_copy(s, t); need(r == (long)t.size(), "load-not-repeatable", "a fresh database returns %ld for a text the other accepted: %s", r, show(t, 300).c_str()); } rpa_dbex_close(s); list_rules(s, v); compile_view(s, v); return s; };
  auto do_load = [&](const std::string &t, bool ok) {
    if (!ok) set_soft_budget(ODD); else set_budget(400000000ull);
    event("load %s %zu bytes%s", ok ? "valid" : "damaged", t.size(), ok ? "" : (": " + show(t, 400)).c_str());
    long r = load_copy(db, t); event("  = %ld", r);
    if (!open) { expect(r, RPA_E_NOTOPEN, "load into a database that is not open"); return; }
    if (r < 0) { failures++; count("probe.load_rejected"); rpa_errinfo_t ei; memset(&ei, 0, sizeof ei); rpa_dbex_lasterrorinfo(db, &ei); event("  error %ld offset %ld line %ld", ei.code, ei.offset, ei.line);
      need(!ok || !t.size(), "valid-grammar-rejected", "valid text rejected with error %ld: %s", ei.code, show(t, 600).c_str());
      need(ei.code > 0, "no-error-code", "load failed (%ld) without an error code: %s", r, show(t, 300).c_str());
      if (ei.code == RPA_E_SYNTAXERROR) { need((ei.mask & RPA_ERRINFO_OFFSET) && (ei.mask & RPA_ERRINFO_LINE), "wrong-error-info", "syntax error without position"); need(ei.offset >= 0 && ei.offset < (long)t.size(), "wrong-error-info", "syntax error at offset %ld of %zu", ei.offset, t.size());
        long ln = 1; for (long i = 0; i < ei.offset; i++) ln += t[i] == '\n'; need(ei.line == ln || (t[ei.offset] == '\n' && ei.line == ln + 1), "wrong-error-info", "syntax error at offset %ld reported on line %ld, expected %ld", ei.offset, ei.line, ln); }
    } else { need(r == (long)t.size(), "partial-load", "load returned %ld of %zu bytes: %s", r, t.size(), show(t, 300).c_str()); acc.push_back(t); if (ok) whole.insert(t); if (!ok) { clean = false; count("probe.damaged_text_accepted"); } else count("op.loads"); }
  };
  auto do_compile = [&] {
    if (!clean) set_soft_budget(ODD); else set_budget(600000000ull);
    if (open) { expect(rpa_dbex_compile(db), RPA_E_NOTCLOSED, "compile while open"); return; }
    DbView want, got; rpadbex_t *s = shadow(want); list_rules(db, got); for (auto &t : acc) if (whole.count(t)) for (auto &l : lines_of(t)) { size_t n = 0; while (n < l.size() && (isalnum((unsigned char)l[n]) || l[n] == '_')) n++; size_t d = l.find_first_not_of(" \t", n); if (n && d != std::string::npos && !l.compare(d, 3, "::=")) need(std::find(got.rules.begin(), got.rules.end(), l.substr(0, n)) != got.rules.end(), "rule-missing", "the text with rule %s was accepted, but the rule is not listed", show(l.substr(0, n), 80).c_str()); }
    bool trace = chance(1, 12); if (trace) { count("op.traced_compilation"); rpa_dbex_cfgset(db, RPA_DBEXCFG_DEBUG, 1); } compile_view(db, got); if (trace) rpa_dbex_cfgset(db, RPA_DBEXCFG_DEBUG, 0); event("compile: %s", got.str().c_str()); count("op.compiles");
    if (got.compile < 0) { failures++; count("probe.compile_rejected"); need(got.err == RPA_E_COMPILE || got.err == RPA_E_UNRESOLVEDSYMBOL, "wrong-error-code", "compile failed with error %ld", got.err); }
    need(want == got, "load-history-visible", "after the same accepted texts a fresh database gives [%s], this one [%s]", want.str().c_str(), got.str().c_str());
    compiled = got.compile >= 0; nrules = (long)got.rules.size();
    if (compiled && clean && nrules) for (int i = 0, n = 1 + (int)draw(2); i < n; i++) { Op o = make_op(g, 60); if (rpa_dbex_lookup_s(s, o.rule.c_str()) < 0) continue; Outcome w = fresh(s, o, STACK); set_budget(400000000ull); Outcome r = run_op(st, db, o); event("  %s => %s", o.str().c_str(), r.str().c_str()); count("op.parse_match_scan"); must_equal("load-history-visible", w, r, "on the database that was loaded in steps", o); }
    rpa_dbex_destroy(s);
  };
  auto as_rule = [&](long rid) { // directives are listed among the rules, there is nothing to execute
    std::string nm = name_of(rpa_dbex_name(db, rid)); long off = rpa_dbex_executableoffset(db, rid); if (nm.compare(0, 2, "#!")) { need(off >= 0, "query-wrong", "the compiled rule %s has no code (%ld)", nm.c_str(), off); return; }
    count("probe.directive_as_rule"); expect(off, RPA_E_NOTFOUND, "executableoffset of a directive"); std::string in = make_input(g, 20); char *b = (char *)guard_copy(in.data(), in.size()); const char *where = nullptr; rarray_t *recs = draw(2) ? rpa_records_create() : nullptr;
    for (int k = 0; k < 3; k++) { long r = k == 0 ? rpa_stat_match(st, rid, 0, b, b, b + in.size()) : k == 1 ? rpa_stat_parse(st, rid, 0, b, b, b + in.size(), recs) : rpa_stat_scan(st, rid, 0, b, b, b + in.size(), &where); need(r < 0 && rpa_stat_lasterror(st) > 0, "misuse-accepted", "executing the directive %s returned %ld with error %ld", nm.c_str(), r, rpa_stat_lasterror(st)); }
    if (recs) { need(rpa_records_length(recs) == 0, "misuse-accepted", "executing a directive produced records"); rpa_records_destroy(recs); } guard_free(b);
  };
  int n = 5 + (int)draw(11);
  for (int i = 0; i < n; i++) {
    set_budget(400000000ull);
    switch (draw(15)) {
    case 0: case 1: event("open"); need(rpa_dbex_open(db) == 0, "open-failed", "rpa_dbex_open failed"); open = true; compiled = false; break;
    case 2: event("close"); if (!clean) set_soft_budget(ODD); rpa_dbex_close(db); open = false; { DbView v; list_rules(db, v); nrules = (long)v.rules.size(); } break;
    case 3: do_load(g.text, true); break;
    case 4: do_load(half[0], true); break;
    case 5: do_load(half[1], true); break;
    case 6: if (L.size()) { std::string n = pick(L); n = n.substr(0, n.find_first_of(" \t")); if (n.compare(0, 2, "#!")) do_load(n + " ::= 'q'\n", true); } break;
    case 7: case 8: { do_load(damage(g, draw(3) ? g.text : pick(L)), false); break; }
    case 9: case 10: do_compile(); break;
    case 11: { event("query"); count("op.queries"); std::string nm = draw(2) ? g.roots[0] : "no_such_rule"; rparule_t l = rpa_dbex_lookup_s(db, nm.c_str());
      if (open) { expect(l, RPA_E_NOTCLOSED, "lookup while open"); expect(rpa_dbex_first(db), RPA_E_NOTCLOSED, "first while open"); expect(rpa_dbex_last(db), RPA_E_NOTCLOSED, "last while open"); expect(rpa_dbex_next(db, 0), RPA_E_NOTCLOSED, "next while open"); expect(rpa_dbex_prev(db, 3), RPA_E_NOTCLOSED, "prev while open"); expect(rpa_dbex_name(db, 0) ? 0 : -1, RPA_E_NOTCLOSED, "name while open"); expect(rpa_dbex_strlen(db, 0), RPA_E_NOTFOUND, "strlen while open"); }
      else { if (l >= 0) need(name_of(rpa_dbex_name(db, l)) == nm, "query-wrong", "lookup of %s found rule %ld named %s", nm.c_str(), (long)l, name_of(rpa_dbex_name(db, l)).c_str()); else expect(l, RPA_E_NOTFOUND, "lookup of a missing rule");
        if (!nrules) { expect(rpa_dbex_first(db), RPA_E_NOTFOUND, "first of no rules"); expect(rpa_dbex_last(db), RPA_E_NOTFOUND, "last of no rules"); }
        else { need(rpa_dbex_first(db) == 0 && rpa_dbex_last(db) == nrules - 1, "query-wrong", "first/last give %ld/%ld of %ld rules", (long)rpa_dbex_first(db), (long)rpa_dbex_last(db), nrules); need(rpa_dbex_next(db, nrules - 1) < 0 && rpa_dbex_prev(db, 0) < 0, "query-wrong", "next/prev run over the ends"); }
        rparule_t bad = draw(2) ? nrules + draw(3) : -1 - (long)draw(3); expect(rpa_dbex_name(db, bad) ? 0 : -1, RPA_E_NOTFOUND, "name of a missing rule"); expect(rpa_dbex_strlen(db, bad), RPA_E_NOTFOUND, "strlen of a missing rule"); char b[8]; expect(rpa_dbex_strncpy(db, b, bad, sizeof b), RPA_E_NOTFOUND, "strncpy of a missing rule"); }
      break; }
    case 12: { event("executable"); rvm_asmins_t *e = rpa_dbex_executable(db); long rid = nrules ? (long)draw(nrules) : 0, off = rpa_dbex_executableoffset(db, rid); event("  of %ld = %ld", rid, off);
      if (open) { expect(off, RPA_E_NOTCLOSED, "executableoffset while open"); expect(rpa_dbex_executable(db) ? 0 : -1, RPA_E_NOTCLOSED, "executable while open"); }
      else if (!compiled) { expect(off, RPA_E_NOTCOMPILED, "executableoffset before compile"); expect(rpa_dbex_executable(db) ? 0 : -1, RPA_E_NOTCOMPILED, "executable before compile"); }
      else if (nrules) { bool real = false; for (long r = 0; r < nrules; r++) real |= name_of(rpa_dbex_name(db, r)).compare(0, 2, "#!") != 0; if (real) need(e != nullptr, "query-wrong", "compiled database has no code"); else expect(rpa_dbex_executable(db) ? 0 : -1, RPA_E_NOTCOMPILED, "executable of directives only"); as_rule(rid); }
      if (compiled && !open) expect(rpa_dbex_executableoffset(db, nrules + 1), RPA_E_NOTFOUND, "executableoffset of a missing rule");
      break; }
    case 13: if (open || !compiled) { Op o; o.kind = (int)draw(3); o.rule = g.roots[0]; o.data = make_input(g, 20); event("early %s", o.str().c_str()); Outcome r = run_op(st, db, o); need(r.ret < 0 && r.err > 0, "misuse-accepted", "%s on a database that is not compiled returned %ld with error %ld", o.str().c_str(), r.ret, r.err); failures++; count("probe.misuse_rejected"); } break;
    default: { event("dump"); count("op.dumps"); int k = (int)draw(6); long rid = draw(4) ? (nrules ? (long)draw(nrules) : 0) : draw(2) ? -1 - (long)draw(2) : nrules + (long)draw(2); auto dump = [&] { return k == 0 ? rpa_dbex_dumpproductions(db) : k == 1 ? rpa_dbex_dumprecords(db) : k == 2 ? rpa_dbex_dumpinfo(db) : k == 3 ? rpa_dbex_dumptree(db, rid) : k == 4 ? rpa_dbex_dumpcode(db, rid) : rpa_dbex_dumpuids(db); };
      if (open && (rid >= 0 || k == 0 || k == 1 || k == 2 || k == 5)) expect(dump(), RPA_E_NOTCLOSED, "a dump while open"); else if (!open && k != 3 && k != 4 && nrules) need(dump() >= 0, "query-wrong", "dump %d of a closed database failed with error %ld", k, rpa_dbex_lasterror(db)); else if (!open && (k == 3 || k == 4)) { long r = dump(); need((r >= 0) == (rid >= 0 && rid < nrules), "query-wrong", "dump %d of rule %ld of %ld returned %ld", k, rid, nrules, r); } else dump();
      fflush(stdout); break; }
    }
    if (!od && draw(6) == 5) od = build(other, c);
  }
  // a valid grammar works in this database again, and in any other
  if (!open) { set_budget(400000000ull); rpa_dbex_open(db); open = true; compiled = false; }
  do_load(g.text, true); event("close"); if (!clean) set_soft_budget(ODD * 2); rpa_dbex_close(db); open = false; do_compile(); if (clean) need(compiled, "valid-grammar-rejected", "the complete grammar does not compile after %d failures", failures);
  if (compiled) for (long r = 0; r < nrules; r++) if (name_of(rpa_dbex_name(db, r)).compare(0, 2, "#!") == 0 ? draw(2) : draw(8) == 7) as_rule(r);
  set_budget(800000000ull); if (!od) od = build(other, c);
  rpadbex_t *od2 = build(other, c); for (int i = 0; i < 2; i++) { Op o = make_op(other, 50); Outcome w = fresh(od2, o, STACK), r = fresh(od, o, STACK); must_equal("other-database-affected", w, r, "another database", o); }
  if (failures) nontrivial(); rpa_stat_destroy(st); rpa_dbex_destroy(db); rpa_dbex_destroy(od); rpa_dbex_destroy(od2); distinct(hash_str(g.text)); for (auto &a : acc) distinct(hash_str(a));
  if (heap_unrooted()) { std::vector<std::pair<void *, size_t>> v; heap_list_live(v); fail("leak", "%llu blocks (%llu bytes) still allocated after every object was destroyed, e.g. %zu bytes", (unsigned long long)heap().live, (unsigned long long)heap().live_bytes, v[0].second); }
}
static Reg r7({"C07", c07, "one run = 5-15 database calls in drawn order (open, close, whole, partial, overriding, truncated and corrupted loads, compile, queries, early parses, dumps) followed by a complete valid load; return values and error codes against a state model, rules, compile result and parses against a fresh database that received only the accepted texts; non-trivial when at least one call failed; distinct by grammar and accepted texts", REAL, STUB});
