// rlib under simulation: C08 (locks, atomics, reference counts, garbage collection), C09 (allocation accounting)
#include "rpalib.h"
#include <set>
#include <algorithm>
using namespace rl;
extern "C" {
#include "rlib/rspinlock.h"
#include "rlib/ratomic.h"
#include "rlib/rref.h"
#include "rlib/rgc.h"
#include "rlib/rmap.h"
#include "rlib/rhash.h"
#include "rlib/rharray.h"
#include "rlib/rcarray.h"
#include "rlib/rbuffer.h"
#include "rlib/rstring.h"
#include "rvm/rvmcpu.h"
#include "rvm/rvmcodegen.h"
#include "rvm/rvmcodemap.h"
#include "rvm/rvmscope.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexregex.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
}
static const char *REAL = "rlib (spin lock, atomics, references, gc, containers, debug allocator), rex, rvm and rpa: the repository's sources, instrumented at every memory access and atomic operation";
static const char *STUB = "thread scheduler, system memory allocator (simulated heap with failure injection), mem*/str* routines";
static uint64_t g_clk;
static std::string tn(int i) { return strf("t%d", i); }
static void work(int n) { char b[40]; for (int i = 0; i < n; i++) { r_memset(b, i, sizeof b); if (chance(1, 3)) yield_now(); } }

// ---- linearizability of a history against a sequential model with a 32-bit state (Wing & Gong with memoisation) ----
enum { ADD, SUB, XCHG, CAS, GET, SET, RINC, RDEC };
struct H { int task, kind; uint32_t a, b, ret; uint64_t inv, res; };
static bool step_model(const H &h, uint32_t &s) {
  switch (h.kind) {
  case ADD: if (h.ret != s) return false; s += h.a; return true;
  case SUB: if (h.ret != s) return false; s -= h.a; return true;
  case XCHG: if (h.ret != s) return false; s = h.a; return true;
  case CAS: if (h.ret != (s == h.a ? 1u : 0u)) return false; if (h.ret) s = h.b; return true;
  case GET: return h.ret == s;
  case SET: s = h.a; return true;
  case RINC: s += 1; return h.ret == s;
  case RDEC: if (s) s -= 1; return h.ret == s;
  }
  return false;
}
static bool lin(const std::vector<H> &h, uint64_t done, uint32_t s, std::set<std::pair<uint64_t, uint32_t>> &seen) {
  if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
  if (!seen.insert({done, s}).second) return false;
  uint64_t minres = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) minres = std::min(minres, h[i].res);
  for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1) && h[i].inv < minres) { uint32_t t = s; if (step_model(h[i], t) && lin(h, done | 1ull << i, t, seen)) return true; }
  return false;
}
static std::string hist(const std::vector<H> &v) { static const char *N[] = {"add", "sub", "xchg", "cas", "get", "set", "inc", "dec"}; std::string s; for (auto &h : v) s += strf(" t%d:%s(%#x,%#x)=%#x@%llu-%llu", h.task, N[h.kind], h.a, h.b, h.ret, (unsigned long long)h.inv, (unsigned long long)h.res); return s; }
static void must_lin(const char *cls, const char *what, const std::vector<H> &h, uint32_t init) { std::set<std::pair<uint64_t, uint32_t>> seen; if (!lin(h, 0, init, seen)) fail(cls, "%s: history from %#x is not linearizable:%s", what, init, hist(h).c_str()); }
static bool overlaps(const std::vector<H> &v) { for (auto &a : v) for (auto &b : v) if (a.task != b.task && a.inv < b.res && b.inv < a.res) return true; return false; }

// ------------------------------------------------------------------------------------------------ C08
// adjacent words in one exact-size block: a store wider than its word hits a neighbour or the block's end
static void c08_locks() {
  int nl = 1 + (int)draw(3), nt = 2 + (int)draw(3); bool rounds = draw(2);
  rspinlock_t *L = (rspinlock_t *)r_malloc(nl * sizeof *L); for (int i = 0; i < nl; i++) { L[i] = 0xdead; } for (int i = 0; i < nl; i++) r_spinlock_init(&L[i]);
  std::vector<int> holder(nl, -1); std::vector<uint64_t> count_in(nl, 0), plain(nl, 0), relinv(nl, 0), acqinv(nl, 0); uint64_t contended = 0, want = 0;
  struct Iv { uint64_t a, b; int t; }; std::vector<std::vector<Iv>> held(nl);          // may-hold intervals: lock() called .. unlock() returned
  struct Try { int l, t; uint64_t a, b; }; std::vector<Try> failed_try;
  event("locks %d tasks %d", nl, nt);
  std::vector<std::vector<int>> plan(nt); std::vector<std::vector<int>> how(nt);
  for (int t = 0; t < nt; t++) { int k = 1 + (int)draw(rounds ? 8 : 4); for (int i = 0; i < k; i++) { plan[t].push_back((int)draw(nl)); how[t].push_back((int)draw(4)); want++; } }
  auto enter = [&](int t, int l, uint64_t inv) { if (holder[l] != -1) fail("not-exclusive", "t%d acquired lock %d while t%d holds it", t, l, holder[l]); holder[l] = t; held[l].push_back({inv, ~0ull, t}); count_in[l]++; };
  auto leave = [&](int t, int l) { if (holder[l] != t) fail("not-exclusive", "t%d leaves lock %d held by t%d", t, l, holder[l]); holder[l] = -1; size_t ix = held[l].size() - 1; g_clk++; r_spinlock_unlock(&L[l]); held[l][ix].b = ++g_clk; };
  set_budget(60000000ull, "livelock");
  for (int t = 0; t < nt; t++) spawn(tn(t).c_str(), [&, t] {
    for (size_t i = 0; i < plan[t].size(); i++) {
      int l = plan[t][i], m = how[t][i]; uint64_t inv = ++g_clk;
      if (holder[l] != -1) contended++;
      if (m == 3) { bool got = false; for (int tries = 0; !got; tries++) { inv = ++g_clk; got = r_spinlock_trylock(&L[l]) != 0; uint64_t res = ++g_clk; if (!got) { count("probe.trylock_refused"); failed_try.push_back({l, t, inv, res}); if (tries > 20) { r_spinlock_lock(&L[l]); got = true; } else yield_now(); } } }
      else r_spinlock_lock(&L[l]);
      enter(t, l, inv); count("op.lock_acquired");
      uint64_t v = plain[l]; work(1 + (int)draw(3)); plain[l] = v + 1;
      if (m == 2 && l + 1 < nl) { int l2 = l + 1; uint64_t inv2 = ++g_clk; r_spinlock_lock(&L[l2]); enter(t, l2, inv2); uint64_t w = plain[l2]; work(1); plain[l2] = w + 1; leave(t, l2); want++; }
      leave(t, l);
    }
  });
  set_sched(draw_sched()); run_tasks();
  uint64_t got = 0; for (int l = 0; l < nl; l++) { if (plain[l] != count_in[l]) fail("lost-update", "lock %d protected %llu increments, %llu survived", l, (unsigned long long)count_in[l], (unsigned long long)plain[l]); got += count_in[l]; }
  if (got != want) fail("starved", "%llu of %llu critical sections were entered", (unsigned long long)got, (unsigned long long)want);
  for (auto &f : failed_try) { bool ok = false; for (auto &h : held[f.l]) if (h.a < f.b && f.a < h.b) ok = true; if (!ok) fail("trylock-spurious", "t%d was refused lock %d that nobody held or was taking", f.t, f.l); }
  for (int l = 0; l < nl; l++) if (!r_spinlock_trylock(&L[l])) fail("left-locked", "lock %d is still held after every holder released it", l);
  if (contended) { nontrivial(); count("probe.lock_contended", contended); }
  r_free(L);
}
static void c08_atomics() {
  int nw = 1 + (int)draw(3), nt = 2 + (int)draw(3); ratomic_t *W = (ratomic_t *)r_malloc(nw * sizeof *W); std::vector<uint32_t> init(nw);
  static const uint32_t V[] = {0, 1, 2, 3, 7, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0xffff, 0x10000, 0xff};
  for (int i = 0; i < nw; i++) { init[i] = V[draw(12)]; r_atomic_set(&W[i], init[i]); }
  for (int i = 0; i < nw; i++) if (r_atomic_get(&W[i]) != init[i]) fail("not-atomic", "word %d was set to %#x and reads %#x", i, init[i], r_atomic_get(&W[i]));
  std::vector<std::vector<H>> h(nw); event("atomics words %d tasks %d", nw, nt);
  int mix = (int)draw(3);
  set_budget(20000000ull);
  for (int t = 0; t < nt; t++) spawn(tn(t).c_str(), [&, t] {
    int k = 2 + (int)draw(5); uint32_t last = V[draw(12)];
    for (int i = 0; i < k; i++) {
      int w = (int)draw(nw); if (h[w].size() > 24) break;
      H x; x.task = t; x.kind = mix == 0 ? (int)draw(2) : mix == 1 ? CAS : (int)draw(6); x.a = V[draw(12)]; x.b = V[draw(12)] + (uint32_t)t * 16; if (x.kind == CAS && draw(3)) x.a = last; x.ret = 0;
      x.inv = ++g_clk;
      switch (x.kind) { case ADD: x.ret = r_atomic_add(&W[w], x.a); break; case SUB: x.ret = r_atomic_sub(&W[w], x.a); break; case XCHG: x.ret = r_atomic_exchange(&W[w], x.a); break;
        case CAS: x.ret = r_atomic_compare_and_exchange(&W[w], x.a, x.b) ? 1 : 0; break; case GET: x.ret = r_atomic_get(&W[w]); break; case SET: r_atomic_set(&W[w], x.a); break; }
      x.res = ++g_clk; if (x.kind == CAS) { if (x.ret) { last = x.b; count("probe.cas_succeeded"); } else { count("probe.cas_failed"); last = r_atomic_get(&W[w]); } } else if (x.kind != SET) last = x.ret;
      h[w].push_back(x); count("op.atomic"); if (chance(1, 4)) yield_now();
    }
  });
  set_sched(draw_sched()); run_tasks();
  for (int w = 0; w < nw; w++) { H x; x.task = 99; x.kind = GET; x.a = x.b = 0; x.inv = ++g_clk; x.ret = r_atomic_get(&W[w]); x.res = ++g_clk; h[w].push_back(x); must_lin("not-atomic", strf("atomic word %d", w).c_str(), h[w], init[w]); if (overlaps(h[w])) { nontrivial(); count("probe.overlapping_atomics"); } }
  r_free(W);
}
// reference counts
struct Shared { rref_t ref; rarray_t *arr; int id; };
struct RefModel { std::vector<std::vector<int>> own; std::vector<int> destroyed; } *RM;
static void shared_cleanup(robject_t *o) {
  Shared *s = (Shared *)o; int tot = 0; for (auto &v : RM->own) tot += v[s->id];
  if (tot) fail("destroyed-early", "object %d destroyed while %d reference(s) are held", s->id, tot);
  if (RM->destroyed[s->id]++) fail("destroyed-twice", "object %d destroyed %d times", s->id, RM->destroyed[s->id]);
  r_array_destroy(s->arr); r_ref_cleanup(o);
}
static void c08_refs() {
  int no = 1 + (int)draw(2), nt = 2 + (int)draw(3); RefModel M; RM = &M; M.own.assign(nt, std::vector<int>(no, 0)); M.destroyed.assign(no, 0);
  std::vector<Shared *> o(no); std::vector<uint32_t> init(no); std::vector<std::vector<H>> h(no); event("refs objects %d tasks %d", no, nt);
  std::vector<std::vector<int>> mail(nt);       // references handed from task to task
  int alive = nt;
  for (int i = 0; i < no; i++) {
    Shared *s = (Shared *)r_object_create(sizeof *s); uint32_t n = 0; for (int t = 0; t < nt; t++) { M.own[t][i] = draw(4) ? 1 + (int)draw(2) : 0; n += M.own[t][i]; } if (!n) { M.own[0][i] = 1; n = 1; }
    bool viainc = draw(2); r_ref_init((robject_t *)s, R_OBJECT_REF, shared_cleanup, r_ref_copy, viainc ? 1 : n, (rref_type_t)draw(2)); s->arr = r_array_create(sizeof(long)); s->id = i;
    if (viainc) for (uint32_t k = 1; k < n; k++) if (r_ref_inc(&s->ref) != k + 1) fail("count-wrong", "sequential increment"); o[i] = s; init[i] = n; }
  set_budget(40000000ull, "livelock");
  for (int t = 0; t < nt; t++) spawn(tn(t).c_str(), [&, t] {
    auto rec = [&](int i, int kind, const std::function<uint32_t()> &f) { H x; x.task = t; x.kind = kind; x.a = x.b = 0; x.inv = ++g_clk; x.ret = f(); x.res = ++g_clk; if (h[i].size() < 60) h[i].push_back(x); return x.ret; };
    int k = 2 + (int)draw(6);
    for (int i = 0; i < k; i++) {
      for (int j : mail[t]) M.own[t][j]++; mail[t].clear();
      int j = (int)draw(no); if (!M.own[t][j]) continue;
      switch (draw(5)) {
      case 0: if (h[j].size() < 30) { rec(j, RINC, [&] { return r_ref_inc(&o[j]->ref); }); M.own[t][j]++; count("op.ref_inc"); } break;
      case 1: case 2: M.own[t][j]--; rec(j, RDEC, [&] { return r_ref_dec(&o[j]->ref); }); count("op.ref_dec"); break;
      case 3: if (h[j].size() < 30) rec(j, GET, [&] { return r_ref_get(&o[j]->ref); }); break;
      default: { int d = (int)draw(nt); if (d != t && alive == nt) { M.own[t][j]--; mail[d].push_back(j); count("op.ref_handed_over"); } if (M.own[t][j]) { if (o[j]->id != j) fail("memory", "object %d changed while referenced", j); } }
      }
      if (chance(1, 4)) yield_now();
    }
    alive--;
    wait_for([&] { return alive == 0; });
    for (int j : mail[t]) M.own[t][j]++; mail[t].clear();
    for (int j = 0; j < no; j++) while (M.own[t][j]) { M.own[t][j]--; rec(j, RDEC, [&] { return r_ref_dec(&o[j]->ref); }); count("op.ref_dec"); }
  });
  set_sched(draw_sched()); run_tasks();
  for (int i = 0; i < no; i++) { if (M.destroyed[i] != 1) fail("not-destroyed", "object %d was destroyed %d times after its last reference went", i, M.destroyed[i]); if (h[i].size() < 60) must_lin("count-wrong", strf("reference count of object %d", i).c_str(), h[i], init[i]); if (overlaps(h[i])) { nontrivial(); count("probe.overlapping_ref_operations"); } }
  // plain references
  rref_t *r = r_ref_create(RREF_TYPE_SHARED); if (r_ref_get(r) != 1 || r_ref_inc(r) != 2 || r_ref_dec(r) != 1 || r_ref_dec(r) != 0) fail("count-wrong", "sequential reference");
  RM = nullptr;
}
// garbage collection: objects, strings and map keys owned by collectors that several threads use under a lock
struct Gob { robject_t obj; int id; int mate; };
struct GcModel { std::vector<int> destroyed; std::vector<Gob *> obj; std::vector<int> owner; rgc_t *grow_into; int ngrow; } *GM;
static void gob_cleanup(robject_t *o) {
  Gob *g = (Gob *)o; if (g->id < 0 || g->id >= (int)GM->destroyed.size()) fail("memory", "destroyed object has no identity");
  if (GM->destroyed[g->id]++) fail("destroyed-twice", "collected object %d destroyed twice", g->id);
  int mate = g->mate; g->mate = -1; GM->obj[g->id] = nullptr; count("op.gc_object_destroyed");
  if (mate >= 0 && GM->obj[mate]) r_object_destroy(&GM->obj[mate]->obj);                        // takes a sibling along
  r_object_cleanup(o);
}
static Gob *gob(int mate) { Gob *g = (Gob *)r_object_create(sizeof *g); r_object_init(&g->obj, R_OBJECT_USER, gob_cleanup, nullptr); g->id = (int)GM->obj.size(); g->mate = mate; GM->obj.push_back(g); GM->destroyed.push_back(0); GM->owner.push_back(-1); return g; }
static void c08_gc() {
  uint64_t base = heap_unrooted(); GcModel M; GM = &M; int ng = 1 + (int)draw(2), nt = 2 + (int)draw(2); std::vector<rgc_t *> gc; for (int i = 0; i < ng; i++) gc.push_back(r_gc_create());
  rspinlock_t *L = (rspinlock_t *)r_malloc(sizeof *L); r_spinlock_init(L); rmap_t *map = r_map_create(sizeof(long), 1 + draw(4)); int in = 0; std::vector<int> keyed(ng, 0); std::map<std::string, long> model;
  event("gc collectors %d tasks %d", ng, nt);
  set_budget(60000000ull, "livelock");
  for (int t = 0; t < nt; t++) spawn(tn(t).c_str(), [&, t] {
    int k = 2 + (int)draw(6);
    for (int i = 0; i < k; i++) {
      r_spinlock_lock(L); if (in++) fail("not-exclusive", "two threads inside the collector's lock");
      int c = (int)draw(ng);
      switch (draw(6)) {
      case 0: case 1: { int mate = -1; if (draw(3) == 2 && M.obj.size()) { int m = (int)draw(M.obj.size()); if (M.obj[m] && M.owner[m] == c) mate = m; } Gob *g = gob(mate); M.owner[g->id] = c; r_gc_add(gc[c], &g->obj); if (r_object_gcget(&g->obj) != gc[c]) fail("gc-wrong", "object not owned by its collector"); count("op.gc_add"); break; }
      case 2: if (M.obj.size()) { int m = (int)draw(M.obj.size()); if (M.obj[m]) { count("op.gc_object_destroyed_early"); r_object_destroy(&M.obj[m]->obj); } } break;
      case 3: { rstring_t *s = r_string_create_from_ansi("collected"); r_gc_add(gc[c], &s->obj); rarray_t *a = r_array_create(sizeof(int)); r_array_setlength(a, draw(20)); r_gc_add(gc[c], &a->obj); break; }
      case 4: { std::string n = strf("k%d", (int)draw(8)); if (model.count(n)) { size_t ix = r_map_lookup_s(map, n.c_str()); if (ix == (size_t)-1) fail("gc-wrong", "map lost key %s", n.c_str()); r_map_delete(map, ix); model.erase(n); }
          else { long v = (long)draw(100); size_t ix = r_map_add_s(map, n.c_str(), &v); if (draw(2)) { r_gc_add(gc[c], &r_map_key(map, ix)->obj); keyed[c] = 1; count("op.gc_map_key"); } model[n] = v; } break; }
      default: if (!keyed[c] && draw(2)) { /* keys owned by a collector must outlive the map entries */ r_gc_deallocateall(gc[c]); for (size_t m = 0; m < M.obj.size(); m++) if (M.owner[m] == c && M.destroyed[m] != 1) fail("not-destroyed", "object %zu survived its collector", m); count("op.gc_deallocateall"); } break;
      }
      if (chance(1, 4)) yield_now();
      in--; r_spinlock_unlock(L); if (chance(1, 4)) yield_now();
    }
  });
  set_sched(draw_sched()); run_tasks();
  for (auto &kv : model) { size_t ix = r_map_lookup_s(map, kv.first.c_str()); if (ix == (size_t)-1 || *(long *)r_map_value(map, ix) != kv.second) fail("gc-wrong", "map entry %s lost", kv.first.c_str()); }
  r_map_destroy(map); for (auto g : gc) r_gc_destroy(g); r_free(L);
  for (size_t i = 0; i < M.destroyed.size(); i++) if (M.destroyed[i] != 1) fail("not-destroyed", "collected object %zu destroyed %d times", i, M.destroyed[i]);
  if (heap_unrooted() != base) fail("leak", "%llu blocks left after the collectors were destroyed", (unsigned long long)(heap_unrooted() - base));
  if (M.obj.size() > 1) nontrivial(); GM = nullptr;
}
static void c08() {
  g_clk = 0; int n = 1 + (int)draw(3);
  for (int i = 0; i < n; i++) { switch (draw(4)) { case 0: c08_locks(); break; case 1: c08_atomics(); break; case 2: c08_refs(); break; default: c08_gc(); } distinct(sched_hash()); }
}
static Reg r8({"C08", c08, "one run = 1-3 scenarios, each with 2-4 threads over spin locks, atomic words, reference-counted objects or collectors, interleaved at single-access granularity; histories checked for linearizability, exclusion, progress and exactly-once destruction; non-trivial when operations of different threads really overlapped; distinct by schedule", REAL, STUB});

// ------------------------------------------------------------------------------------------------ C09
static void accounted(const char *when) {
  uint64_t a = r_debug_get_allocmem(), b = heap().live_bytes;
  if (a != b) fail("accounting-wrong", "%s: the library reports %llu bytes allocated, %llu are outstanding in %llu blocks", when, (unsigned long long)a, (unsigned long long)b, (unsigned long long)heap().live);
  if (r_debug_get_maxmem() < a) fail("accounting-wrong", "%s: reported maximum %llu is below the %llu allocated now", when, (unsigned long long)r_debug_get_maxmem(), (unsigned long long)a);
}
struct Blk { unsigned char *p; size_t n; unsigned char fill; };
static void vfy(const Blk &b, const char *what) { for (size_t i = 0; i < b.n; i++) if (b.p[i] != b.fill) fail("memory-corrupted", "%s: byte %zu of a %zu-byte block changed", what, i, b.n); }
static size_t draw_size() { switch (draw(6)) { case 0: return draw(4); case 1: return draw(40); case 2: return 7 + draw(4); case 3: return draw(300); case 4: return 4096 - 8 + draw(16); default: return 1 + draw(2000); } }
static void raw_ops(int t, std::vector<Blk> &bs, int k, bool alone) {
  for (int i = 0; i < k; i++) {
    uint64_t peak0 = r_debug_get_maxmem(), before = r_debug_get_allocmem(), failed0 = heap().failed; size_t n = draw_size(); unsigned char f = (unsigned char)(1 + draw(255)); count("op.allocator_call");
    switch (draw(7)) {
    case 0: case 1: { unsigned char *p = (unsigned char *)r_malloc(n); if (!p) { count("probe.allocation_refused"); break; } memset(p, f, n); bs.push_back({p, n, f}); break; }
    case 2: { size_t sz = draw(2) ? 1 + draw(16) : draw(3), m = draw(60); if (chance(1, 12)) { m = ~(size_t)0 / 4; sz = 16 + draw(3); } unsigned char *p = (unsigned char *)r_calloc(m, sz); if (!p) { count("probe.allocation_refused"); break; } if (m > 100) fail("accounting-wrong", "r_calloc(%zu, %zu) claims success", m, sz);
        for (size_t j = 0; j < m * sz; j++) if (p[j]) fail("memory-corrupted", "r_calloc block not zero at %zu", j); memset(p, f, m * sz); bs.push_back({p, m * sz, f}); break; }
    case 3: { unsigned char *p = (unsigned char *)r_zmalloc(n); if (!p) { count("probe.allocation_refused"); break; } for (size_t j = 0; j < n; j++) if (p[j]) fail("memory-corrupted", "r_zmalloc block not zero at %zu", j); memset(p, f, n); bs.push_back({p, n, f}); break; }
    case 4: { bool fresh = bs.empty() || chance(1, 8); Blk old = {nullptr, 0, 0}; size_t ix = 0; if (!fresh) { ix = draw(bs.size()); old = bs[ix]; vfy(old, "before realloc"); }
        bool huge = chance(1, 15); size_t want = huge ? (size_t)1 << 40 : n; unsigned char *p = (unsigned char *)r_realloc(old.p, want);
        if (!p) { count("probe.realloc_refused"); if (!fresh) vfy(old, "after a refused realloc"); break; }
        if (huge) fail("accounting-wrong", "r_realloc to 2^40 bytes claims success");
        Blk c = {p, std::min(old.n, n), old.fill}; vfy(c, "after realloc"); memset(p, f, n); if (fresh) bs.push_back({p, n, f}); else bs[ix] = {p, n, f}; break; }
    case 5: if (bs.size()) { size_t ix = draw(bs.size()); vfy(bs[ix], "before free"); r_free(bs[ix].p); bs.erase(bs.begin() + ix); } break;
    default: if (chance(1, 6)) { r_free(nullptr); break; } { std::string s((size_t)draw(50), 'x'); char *d = draw(2) ? r_strdup(s.c_str()) : r_strndup(s.c_str(), s.size()); if (!d) break; if (s != d) fail("memory-corrupted", "string copy differs"); r_free(d); if (alone && heap().failed == failed0 && r_debug_get_allocmem() != before) fail("accounting-wrong", "a freed string copy is still counted"); } break;
    }
    if (alone) { accounted("single thread"); uint64_t now = r_debug_get_allocmem(); (void)peak0; (void)now; }
    if (chance(1, 5)) yield_now();
  }
}
static void c09_raw() {
  int nt = 1 + (int)draw(4), rounds = 1 + (int)draw(3); std::vector<std::vector<Blk>> bs(nt); bool faults = draw(2); event("allocator tasks %d rounds %d%s", nt, rounds, faults ? " with refused allocations" : "");
  if (draw(2)) r_debug_reset_maxmem();
  set_budget(80000000ull, "livelock");
  for (int r = 0; r < rounds; r++) {
    if (faults) { uint32_t den = 2 + (uint32_t)draw(12); alloc_fail_plan([den](size_t) { return chance(1, den); }); }
    uint64_t m0 = r_debug_get_maxmem(), seen = r_debug_get_allocmem();
    for (int t = 0; t < nt; t++) spawn(tn(t).c_str(), [&, t] { raw_ops(t, bs[t], 2 + (int)draw(8), nt == 1); seen = std::max<uint64_t>(seen, r_debug_get_allocmem()); });
    set_sched(draw_sched()); run_tasks(); alloc_fail_plan(nullptr); accounted("all threads idle"); if (m0 > r_debug_get_maxmem() || r_debug_get_maxmem() < seen) fail("accounting-wrong", "reported maximum fell below an amount reported earlier");
    if (draw(4) == 3) { r_debug_reset_maxmem(); if (r_debug_get_maxmem() != r_debug_get_allocmem()) fail("accounting-wrong", "maximum after reset differs from the current amount"); }
    for (auto &v : bs) for (auto &b : v) vfy(b, "between rounds");
  }
  // each thread's blocks are released by another one
  for (int t = 0; t < nt; t++) spawn(tn(t).c_str(), [&, t] { auto &v = bs[(t + 1) % nt]; while (v.size()) { vfy(v.back(), "before free"); r_free(v.back().p); v.pop_back(); } });
  set_sched(draw_sched()); run_tasks();
  if (nt > 1 || faults) nontrivial();
}
static void containers(int t) {
  count("op.containers");
  rarray_t *a = r_array_create(1 + draw(24)); char el[32] = {0}; for (int i = 0, n = (int)draw(30); i < n; i++) { switch (draw(4)) { case 0: r_array_add(a, el); break; case 1: r_array_insert(a, draw(r_array_length(a) + 2), el); break; case 2: if (r_array_length(a)) r_array_delete(a, draw(r_array_length(a))); break; default: r_array_replace(a, draw(20), el); } }
  rarray_t *a2 = (rarray_t *)r_array_copy(&a->obj); if (r_array_length(a2) != r_array_length(a)) fail("memory-corrupted", "array copy has another length");
  rharray_t *h = r_harray_create(sizeof(long)); for (long i = 0, n = draw(20); i < n; i++) { std::string k = strf("key%d", (int)draw(12)); if (draw(3)) r_harray_replace(h, k.c_str(), k.size(), &i); else r_harray_add(h, k.c_str(), k.size(), &i); }
  rharray_t *h2 = draw(2) ? (rharray_t *)r_harray_copy(&h->obj) : nullptr;
  rmap_t *m = r_map_create(sizeof(long), 1 + draw(6)); for (long i = 0, n = draw(24); i < n; i++) { std::string k = strf("k%d", (int)draw(10)); size_t ix = r_map_lookup_s(m, k.c_str()); if (ix != (size_t)-1 && draw(2)) r_map_delete(m, ix); else r_map_add_s(m, k.c_str(), &i); }
  rcarray_t *c = r_carray_create(1 + draw(40)); for (int i = 0, n = (int)draw(300); i < n; i++) r_carray_add(c, nullptr); rcarray_t *c2 = draw(2) ? (rcarray_t *)r_carray_copy((robject_t *)c) : nullptr;
  rstring_t *s = r_string_create_from_ansi("text"), *s2 = r_string_create_from_int((rint64)draw(100000)), *s3 = r_string_cat(s, s2); for (int i = 0, n = (int)draw(6); i < n; i++) r_string_cat_len(s3, "abcdef", draw(7));
  rbuffer_t *b = r_buffer_create(draw(100)); char txt[64] = "buffer"; r_buffer_append(b, txt, draw(60));
  if (chance(1, 3)) yield_now();
  r_buffer_destroy(b); r_string_destroy(s); r_string_destroy(s2); r_string_destroy(s3); if (c2) r_carray_destroy(c2); r_carray_destroy(c); r_map_destroy(m); if (h2) r_harray_destroy(h2); r_harray_destroy(h); r_array_destroy(a2); r_array_destroy(a);
}
// objects nobody but their owner frees: hashes, maps with every kind of key, reused slots, string copies
static void more_containers() {
  count("op.more_containers"); std::vector<rstr_t *> keys; for (int i = 0, n = 1 + (int)draw(6); i < n; i++) { std::string k = strf("n%d", (int)draw(5)); keys.push_back(r_rstrdup(k.c_str(), k.size())); }
  rhash_t *h = r_hash_create(draw(5), r_hash_rstrequal, r_hash_rstrhash);
  for (int i = 0, n = (int)draw(40); i < n; i++) { rstr_t *k = keys[draw(keys.size())]; switch (draw(8)) { case 0: r_hash_remove(h, k); break; case 1: if (chance(1, 4)) r_hash_removeall(h); break; case 2: case 3: r_hash_insert_object(h, k, k); break; case 4: r_hash_lookup_object(h, k); r_hash_taillookup_index(h, k); break; default: r_hash_insert_index(h, k, i); } }
  rmap_t *m = r_map_create(1 + draw(40), 1 + draw(4)); char val[48] = "value"; std::vector<size_t> ix; int live = 0;
  for (int i = 0, n = (int)draw(50); i < n; i++) switch (draw(8)) {
    case 0: case 1: ix.push_back(r_map_add_l(m, (long)draw(12) - 6, draw(3) ? val : nullptr)); live++; break;
    case 2: ix.push_back(r_map_add_d(m, (double)draw(64) / 8, val)); live++; break;
    case 3: { std::string k((size_t)draw(20), 'k'); ix.push_back(r_map_add(m, k.data(), k.size(), val)); live++; break; }
    case 4: if (ix.size()) r_map_setvalue(m, ix[draw(ix.size())], val); r_map_setvalue(m, 100000, val); break;
    case 5: { size_t f = draw(2) ? r_map_lookup_l(m, (long)draw(12) - 6) : r_map_lookup_d(m, (double)draw(64) / 8); if (f != (size_t)-1) { if (!r_map_key(m, f) || !r_map_value(m, f)) fail("memory-corrupted", "a found entry has no key or value"); if (r_map_delete(m, f)) live--; if (r_map_delete(m, f)) fail("memory-corrupted", "an entry was deleted twice"); } break; }
    default: if (ix.size() && r_map_delete(m, ix[draw(ix.size())])) { live--; count("probe.map_slot_freed"); } }
  int seen = 0; for (size_t i = r_map_first(m); i != (size_t)-1; i = r_map_next(m, i)) seen++; int back = 0; for (size_t i = r_map_last(m); i != (size_t)-1; i = r_map_prev(m, i)) back++;
  if (seen != live || back != live) fail("memory-corrupted", "a map of %d entries lists %d forwards and %d backwards", live, seen, back);
  rharray_t *a = r_harray_create(sizeof(long)); for (long i = 0, n = draw(24); i < n; i++) { std::string k = draw(4) ? strf("m%d", (int)draw(8)) : std::string((size_t)draw(3), 'z'); switch (draw(4)) { case 0: if (r_harray_length(a)) r_harray_set(a, (long)draw(r_harray_length(a)), &i); break; case 1: r_harray_set(a, -1, &i); r_harray_get(a, 100000); break; case 2: r_harray_replace_s(a, k.c_str(), &i); break; default: r_harray_add_s(a, k.c_str(), &i); } }
  rharray_t *a2 = (rharray_t *)r_harray_copy(&a->obj), *a3 = draw(2) ? (rharray_t *)r_harray_copy(&a2->obj) : nullptr; if (draw(2)) { r_harray_destroy(a); a = nullptr; } long x = 7; r_harray_add_s(a2, "late", &x); if (r_harray_lookup_s(a2, "late") < 0) fail("memory-corrupted", "a copied array lost an added name");
  std::string t((size_t)draw(40), 's'); rstring_t *s1 = r_string_create_from_str_len(t.data(), t.size()), *s2 = r_string_create_from_string(s1), *s3 = r_string_create_from_double((double)draw(1000) / 7), *s4 = (rstring_t *)s1->obj.copy(&s1->obj), *s5 = r_string_cat(s4, s3), *s6 = r_string_create_from_str_len(nullptr, draw(3));
  if (draw(2)) r_string_cat_len(s6, t.data(), t.size()); rgc_t *gc = r_gc_create(); rstring_t *own[] = {s1, s2, s3, s4, s5, s6}; for (rstring_t *s : own) if (draw(3)) r_string_destroy(s); else r_gc_add(gc, &s->obj);
  rcarray_t *c = r_carray_create(1 + draw(24)); char cell[24] = {0}; for (int i = 0, n = (int)draw(12); i < n; i++) switch (draw(3)) { case 0: r_carray_setlength(c, draw(80)); break; case 1: { unsigned long j = draw(100); char *p = (char *)r_carray_slot_expand(c, j); *p = 1; break; } default: r_carray_replace(c, draw(60), cell); }
  if (chance(1, 3)) yield_now();
  if (draw(2)) r_gc_deallocateall(gc); r_gc_destroy(gc); r_carray_destroy(c); if (a3) r_harray_destroy(a3); r_harray_destroy(a2); if (a) r_harray_destroy(a); r_map_destroy(m); r_hash_destroy(h); for (rstr_t *k : keys) r_rstr_free(k);
}
static void sw_ping(rvmcpu_t *cpu, rvm_asmins_t *) { RVM_CPUREG_SETU(cpu, R0, RVM_CPUREG_GETU(cpu, R0) + 100); }
// code generator, label and relocation maps, scopes, a CPU running what was generated; used again after clear, and with labels that never resolve
static void vm_objects() {
  count("op.vm_objects"); rvm_codegen_t *cg = rvm_codegen_create(); int gens = 1 + (int)draw(3);
  static rvm_switable_t tab[] = {{"ping", sw_ping}, {NULL, NULL}}; rvmcpu_t *cpu = rvm_cpu_create(16 + draw(200)); rvm_cpu_addswitable(cpu, "common", tab); if (draw(2)) rvm_cpu_addswitable(cpu, draw(2) ? "common" : "other", tab);
  for (int g = 0; g < gens; g++) {
    int nf = 1 + (int)draw(5); bool missing = chance(1, 4); ruword want = draw(1000); rvm_codegen_setsource(cg, g);
    rvm_codegen_addlabelins_s(cg, "main", rvm_asm(RVM_MOV, R0, DA, XX, want)); if (draw(2)) rvm_codegen_addins(cg, rvm_asm(RVM_NOP, XX, XX, XX, 0));
    for (int i = 0, n = (int)draw(8); i < n; i++) { int f = (int)draw(nf); rvm_codegen_addrelocins_s(cg, RVM_RELOC_BRANCH, strf("fn%d", f).c_str(), rvm_asm(RVM_BL, DA, XX, XX, 0)); want += f + 1; if (chance(1, 4)) { rvm_codegen_addins(cg, rvm_asm(RVM_OPSWI(rvm_cpu_swilookup_s(cpu, draw(2) ? "common" : nullptr, "ping")), XX, XX, XX, 0)); want += 100; } }
    if (missing) { rvm_codegen_addrelocins_s(cg, RVM_RELOC_BRANCH, "nowhere", rvm_asm(RVM_BL, DA, XX, XX, 0)); count("fault.label_unresolved"); }
    rvm_codegen_addins(cg, rvm_asm(RVM_EXT, XX, XX, XX, 0));
    for (int f = 0; f < nf; f++) { std::string n = strf("fn%d", f); if (draw(2)) rvm_codegen_invalid_addlabel_s(cg, n.c_str()); rvm_codegen_funcstart_s(cg, n.c_str(), (unsigned)draw(3)); rvm_codegen_addins(cg, rvm_asm(RVM_ADD, R0, R0, DA, f + 1)); rvm_codegen_funcend(cg); }
    for (int i = 0, n = (int)draw(4); i < n; i++) { std::string k = strf("d%d", (int)draw(3)); if (draw(2)) rvm_codegen_addstring_s(cg, k.c_str(), "some text of the program"); else rvm_codegen_adddata_s(cg, k.c_str(), &want, sizeof want); rvm_codegen_addrelocins_s(cg, RVM_RELOC_STRING, k.c_str(), rvm_asm(RVM_MOV, R1, DA, XX, 0)); }
    long nl = rvm_codegen_add_numlabel_s(cg, "label", (long)draw(4)); if (draw(2)) rvm_codegen_redefinelabel(cg, nl, draw(rvm_codegen_getcodesize(cg))); rvm_codegen_invalid_add_numlabel_s(cg, "never", (long)draw(4));
    rvm_codelabel_t *err = nullptr; int r = rvm_codegen_relocate(cg, &err); if ((r < 0) != missing) fail("memory-corrupted", "relocation of a program %s unresolved labels returned %d", missing ? "with" : "without", r);
    if (r >= 0) { int x = rvm_cpu_exec(cpu, rvm_codegen_getcode(cg, 0), 0); if (x >= 0 && RVM_CPUREG_GETU(cpu, R0) != want) fail("memory-corrupted", "the generated program left %lu in R0, expected %lu", (unsigned long)RVM_CPUREG_GETU(cpu, R0), (unsigned long)want); }
    if (g + 1 < gens) rvm_codegen_clear(cg);
  }
  if (chance(1, 3)) yield_now();
  rvm_scope_t *sc = rvm_scope_create(); int depth = 0; for (int i = 0, n = (int)draw(40); i < n; i++) { std::string k = strf("v%d", (int)draw(6)); switch (draw(6)) { case 0: rvm_scope_push(sc); depth++; break; case 1: if (depth) { rvm_scope_pop(sc); depth--; } break; case 2: rvm_scope_lookup_s(sc, k.c_str()); rvm_scope_tiplookup_s(sc, k.c_str()); break; case 3: rvm_scope_addpointer_s(sc, k.c_str(), &depth); break; default: rvm_scope_addoffset_s(sc, k.c_str(), i); } }
  rvm_scope_destroy(sc); rvm_codemap_t *cm = rvm_codemap_create(); for (int i = 0, n = (int)draw(20); i < n; i++) { std::string k = strf("c%d", (int)draw(6)); switch (draw(5)) { case 0: rvm_codemap_addpointer_s(cm, k.c_str(), cm); break; case 1: rvm_codemap_lookupadd_s(cm, k.c_str()); break; case 2: if (chance(1, 4)) rvm_codemap_clear(cm); break; case 3: rvm_codemap_lookup_s(cm, k.c_str()); break; default: rvm_codemap_addoffset_s(cm, k.c_str(), 0, i); } } rvm_codemap_destroy(cm);
  rvm_cpu_destroy(cpu); rvm_codegen_destroy(cg);
}
static void rex_work() {
  count("op.rex_expressions"); static const char *E[] = {"abc", "a*b+c?", "(ab|cd)*e", "[a-z]+[0-9]*", "a{2,4}", "x(y{0,2}z)+", "[^a-f]+", "\\(a\\)|\\n", "(a|b|c){3}", "ab{0}c", "(ab){2,}"};
  static const char *B[] = {"(", ")", "a(", "(ab", "[a-", "[a", "a**", "a{", "a{2", "a{2,", "a{4,2}", "|a", "a|", "a||b", "(a|)", "\\", "a{x}", "(((a)", "[]", "*", "a(b[c)", "ab)", "a{2}{", "(a{3}b|c", "a|(b"};
  rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA); long start = -1; int n = 1 + (int)draw(4);
  for (int i = 0; i < n; i++) { bool bad = draw(2); std::string e = bad ? B[draw(25)] : E[draw(11)]; if (chance(1, 3)) e.resize(draw(e.size() + 1)); long r = rex_db_addexpression(nfa, start, e.c_str(), e.size(), i); event("  expression %s = %ld", e.c_str(), r); if (r >= 0) start = r; else count("fault.expression_rejected"); }
  if (start >= 0) {
    rexdb_t *dfa = rex_db_createdfa(nfa, start); rexdfa_t *d = draw(2) ? rex_db_todfa(dfa, (int)draw(2)) : nullptr; if (d && draw(2)) rex_dfa_hash(d, 3, 5);
    rex_nfasimulator_t *ns = rex_nfasimulator_create(); rex_dfasimulator_t *ds = rex_dfasimulator_create(); rex_nfasimulator_run(ns, nfa, start, "abcabab", 7); rex_dfasimulator_run(ds, dfa, 1, "abcabab", 7); rex_nfasimulator_destroy(ns); rex_dfasimulator_destroy(ds);
    if (chance(1, 3)) yield_now();
    if (d) rex_dfa_destroy(d); rex_db_destroy(dfa);
  }
  rex_db_destroy(nfa);
  std::string e = draw(3) ? E[draw(11)] : B[draw(25)]; rexregex_t *r = rex_regex_create(e.c_str(), e.size()); if (r) { const char *w = nullptr; std::string in = "zzabcc"; rex_regex_scan(r, (unsigned)draw(2), in.data(), in.data() + in.size(), &w); rex_regex_destroy(r); } else count("fault.expression_rejected");
}
static void rpa_work(int t, const Gram &g, const Cfg &c, rpastat_t **abortable, int *busy) {
  switch (draw(4)) {
  case 0: { count("op.failed_load"); rpadbex_t *d = rpa_dbex_create(); rpa_dbex_cfgset(d, RPA_DBEXCFG_OPTIMIZATIONS, c.opt); rpa_dbex_open(d); int n = 1 + (int)draw(2);
      for (int i = 0; i < n; i++) { std::string x = g.text; switch (draw(4)) { case 0: x.resize(draw(x.size() + 1)); break; case 1: x.insert(draw(x.size() + 1), "("); break; case 2: x.erase(draw(x.size() + 1), 1 + draw(6)); break; default: x += "bad ::= <:missing:>\n"; } char *b = (char *)guard_copy(x.data(), x.size()); if (rpa_dbex_load(d, b, x.size()) < 0) count("fault.load_rejected"); guard_free(b); }
      rpa_dbex_close(d); if (rpa_dbex_compile(d) < 0) count("fault.compile_rejected"); if (draw(2)) { rpa_dbex_dumpuids(d); rpa_dbex_dumpproductions(d); } if (draw(2)) { rpa_dbex_open(d); if (draw(2)) rpa_dbex_close(d); } rpa_dbex_destroy(d); break; }
  default: { count("op.grammar_used"); rpadbex_t *d = build(g, c); unsigned long stack = draw(2) ? 4096 : 40 + draw(400); rpastat_t *st = rpa_stat_create(d, stack); int n = 1 + (int)draw(3); *abortable = st;
      for (int i = 0; i < n; i++) { Op o = make_op(g, 40); Outcome r = run_op(st, d, o); if (r.err == RPA_E_USERABORT) count("probe.operation_aborted"); if (r.err == RPA_E_EXECUTION) count("probe.stack_exhausted"); }
      *abortable = nullptr; wait_for([&] { return !*busy; }); rpa_stat_destroy(st); if (draw(3) == 2) rpa_dbex_dumpuids(d); rpa_dbex_destroy(d); }
  }
}
static void c09_lib() {
  int nt = 1 + (int)draw(3), rounds = 1 + (int)draw(2); event("library tasks %d rounds %d", nt, rounds);
  for (int r = 0; r < rounds; r++) {
    std::vector<rpastat_t *> st(nt, nullptr); std::vector<int> busy(nt, 0); int left = nt; set_soft_budget(40000000ull);
    std::vector<Gram> g; std::vector<Cfg> c; for (int t = 0; t < nt; t++) { g.push_back(choose_grammar()); c.push_back(draw_cfg()); }
    for (int t = 0; t < nt; t++) spawn(tn(t).c_str(), [&, t] { int k = 1 + (int)draw(2); for (int i = 0; i < k; i++) switch (draw(6)) { case 0: containers(t); break; case 1: rex_work(); break; case 4: more_containers(); break; case 5: vm_objects(); break; default: rpa_work(t, g[t], c[t], &st[t], &busy[t]); } left--; });
    if (draw(2)) spawn("aborter", [&] { for (int i = 0; i < 6 && left; i++) { int v = (int)draw(nt); wait_for([&] { return st[v] || !left; }); if (st[v]) { sleep_until_task_step(v, task_steps(v) + draw(4000)); if (st[v]) { busy[v] = 1; rpa_stat_abort(st[v]); busy[v] = 0; count("fault.abort_requested"); } } } });
    set_sched(draw_sched()); run_tasks(); accounted("after a round");
  }
  nontrivial();
}
static void c09() {
  g_clk = 0; uint64_t b0 = heap_unrooted(), a0 = r_debug_get_allocmem(); if (draw(2)) c09_raw(); else c09_lib();
  if (r_debug_get_allocmem() != a0) fail("leak", "%llu bytes are reported allocated after every object was destroyed, %llu before", (unsigned long long)r_debug_get_allocmem(), (unsigned long long)a0);
  if (heap_unrooted() != b0) { std::vector<std::pair<void *, size_t>> v; heap_list_live(v); fail("leak", "%llu blocks (%llu bytes) left, e.g. %zu bytes", (unsigned long long)heap().live, (unsigned long long)heap().live_bytes, v.empty() ? 0 : v.back().second); }
  distinct(sched_hash());
}
static Reg r9({"C09", c09, "one run = either 1-4 threads calling the debug allocator with refused allocations, or 1-3 threads using containers, expressions, grammars with failed loads, aborts and small stacks; reported bytes equal the simulated heap's whenever all threads are idle and return to the start; distinct by schedule", REAL, STUB});
