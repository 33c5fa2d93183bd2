#include <execinfo.h>
#include "simrt.h"
#include <link.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctype.h>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <atomic>
#include <sys/personality.h>

// SUT objects are renamed (objcopy) to call __wrap_*; everything else in the process uses the C library directly.
#define __real_malloc malloc
#define __real_free free
#define __real_calloc calloc
#define __real_realloc realloc
#define __real_memcpy memcpy
#define __real_memset memset
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace sim {

// ------------------------------------------------------------------------------------------------ shared result block
enum { NTRACE = 1 << 17, NCOUNT = 160 };
enum Outcome { OC_NONE = 0, OC_OK = 1, OC_VIOL = 2, OC_TRIVIAL_OK = 3 };
struct Shared {
  volatile int outcome;
  int nontriv;
  uint64_t hash, sig, schedh, steps, switches, conflicts;
  uint32_t ntrace; int overflow;
  char cls[64]; char msg[1600];
  uint32_t ncount; const char *cname[NCOUNT]; uint64_t cval[NCOUNT];
  uint32_t trace[NTRACE];
};
struct Rng { uint64_t s[2];
  static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  void seed(uint64_t x) { s[0] = mix(x); s[1] = mix(s[0]); if (!s[0] && !s[1]) s[0] = 1; }
  uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; } };

static Shared *sh;
static Rng rng;
static const uint32_t *rp_trace; static uint32_t rp_n, rp_i; static bool rp_mode;
static bool g_verbose;
int out_fd = 1;
static std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
void reg(const Prop &p) { props().push_back(p); }
bool verbose() { return g_verbose; }

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
uint64_t draw(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (rp_mode) v = rp_i < rp_n ? rp_trace[rp_i++] % n : 0;
  else v = rng.next() % n;
  if (sh->ntrace < NTRACE) sh->trace[sh->ntrace++] = (uint32_t)v; else sh->overflow = 1;
  return v;
}
static void plain_ascii(char *b) { for (; *b; b++) if ((unsigned char)*b > 126 || ((unsigned char)*b < 32 && *b != '\n' && *b != '\t')) *b = '?'; }
static void vappend(const char *pfx, const char *fmt, va_list ap, bool hashed) {
  char b[1024]; int n = vsnprintf(b, sizeof b, fmt, ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  if (n < 0) n = 0;
  plain_ascii(b);
  if (hashed) sh->hash = hash_bytes(b, n, sh->hash * 31 + 7);
  if (g_verbose) dprintf(out_fd, "%s%s\n", pfx, b);
}
void event(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vappend("  ", fmt, ap, true); va_end(ap); }
void note(const char *fmt, ...) { if (!g_verbose) return; va_list ap; va_start(ap, fmt); vappend("  # ", fmt, ap, false); va_end(ap); }
std::string strf(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
std::string show(const std::string &s, size_t max) {
  std::string r; char b[8];
  for (size_t i = 0; i < s.size() && r.size() < max; i++) { unsigned char c = s[i];
    if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
  if (r.size() >= max) r += strf("...(%zu bytes)", s.size());
  return r;
}
void count(const char *name, uint64_t n) {
  for (uint32_t i = 0; i < sh->ncount; i++) if (sh->cname[i] == name || !strcmp(sh->cname[i], name)) { sh->cval[i] += n; return; }
  if (sh->ncount < NCOUNT) { sh->cname[sh->ncount] = name; sh->cval[sh->ncount++] = n; }
}
void distinct(uint64_t h) { sh->sig = (sh->sig ^ h) * 0x100000001b3ull + 0x9e37; }
void nontrivial() { sh->nontriv = 1; }

static void seal(int oc) { sh->steps = steps(); sh->conflicts = conflicts_seen(); sh->schedh = sched_hash(); sh->outcome = oc; }
static void bt() { if (!g_verbose || !getenv("SIM_BT")) return; void *b[48]; int n = backtrace(b, 48); std::string c = "addr2line -Cfpsi -e /proc/" + std::to_string(getpid()) + "/exe"; for (int i = 0; i < n; i++) c += strf(" %p", b[i]); c += strf(" 1>&%d", out_fd); unsetenv("SIM_BT"); if (system(c.c_str())) {} }
void fail(const char *cls, const char *fmt, ...) {
  bt();
  snprintf(sh->cls, sizeof sh->cls, "%s", cls);
  va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap); plain_ascii(sh->msg);
  event("VIOLATION %s: %s", sh->cls, sh->msg);
  seal(OC_VIOL); _exit(0);
}
void finish() { seal(OC_OK); _exit(0); }

// ------------------------------------------------------------------------------------------------ tasks
struct Task { void *sp; char *stk; std::string name; std::function<void()> fn; bool done = false, started = false;
  uint64_t steps = 0, wake_task_step = 0; int wake_task = -1; std::function<bool()> pred; bool blocked = false;
  void *eh[2] = {nullptr, nullptr}; };
static std::vector<Task *> tasks;
static int cur = -1; static void *main_sp; static void *main_eh[2];
static uint64_t g_steps, g_budget = 400000000ull, g_switches, g_conf, g_schedh = 1469598103934665603ull; static const char *g_budget_cls = "hang";
static uint64_t slice; static bool quiet; static int nlive;
static uint64_t gap; static SchedCfg cfg = {0, 0, 0, 1};
static int armed_task = -1; static uint64_t armed_step; static int armed_sleeper = -1;
enum { STK = 512 * 1024 };
extern "C" void sim_switch(void **save, void *load);
asm(".text\n.globl sim_switch\nsim_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
    " mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void swap_eh(void **save, void **load) { void **g = (void **)__cxxabiv1::__cxa_get_globals(); save[0] = g[0]; save[1] = g[1]; g[0] = load[0]; g[1] = load[1]; }
static void task_main() {
  Task *t = tasks[cur];
  try { t->fn(); } catch (...) { fail("uncaught", "an exception escaped task %s", t->name.c_str()); }
  t->done = true; nlive--;
  swap_eh(t->eh, main_eh);
  void *dummy; sim_switch(&dummy, main_sp);
  abort();
}
int self() { return cur; }
uint64_t steps() { return g_steps; }
uint64_t task_steps(int t) { return t >= 0 && t < (int)tasks.size() ? tasks[t]->steps : 0; }
bool task_done(int t) { return tasks[t]->done; }
uint64_t sched_hash() { return g_schedh; }
uint64_t conflicts_seen() { return g_conf; }
void set_budget(uint64_t p, const char *cls) { g_budget = g_steps + p; g_budget_cls = cls; }
void set_soft_budget(uint64_t p) { g_budget = g_steps + p; g_budget_cls = nullptr; }
[[noreturn]] static void over_budget(const char *m) { if (!g_budget_cls) { count("probe.soft_budget_reached"); finish(); } fail(g_budget_cls, "%s", m); }
void set_quiet_points(bool q) { quiet = q; }
static bool ready(Task *t) {
  if (t->done) return false;
  if (t->wake_task >= 0) { Task *w = tasks[t->wake_task]; if (w->done || w->blocked || w->steps >= t->wake_task_step) { t->wake_task = -1; return true; } return false; }
  if (t->blocked) { if (t->pred()) { t->blocked = false; return true; } return false; }
  return true;
}
int spawn(const char *name, std::function<void()> fn) {
  Task *t = new Task; t->name = name; t->fn = std::move(fn);
  int id = (int)tasks.size();
  char *want = (char *)0x300000000000ull + (uint64_t)id * (STK + 65536);
  t->stk = (char *)mmap(want, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (t->stk != want) { fprintf(stderr, "simrt: task stack\n"); _exit(9); }
  uintptr_t sp = (uintptr_t)(t->stk + STK) & ~(uintptr_t)15; sp -= 8;
  void **p = (void **)sp; *--p = (void *)task_main; for (int i = 0; i < 6; i++) *--p = nullptr;
  t->sp = p; tasks.push_back(t); nlive++;
  if (cur >= 0 && nlive == 2) slice = 0;
  return id;
}
static uint64_t draw_gap() {
  if (!cfg.mode) return ~0ull;
  if (cfg.den > 1 && draw(cfg.den) < (uint64_t)(cfg.den - cfg.num)) return ~0ull >> 1;
  uint64_t e = draw(cfg.maxexp + 1); return 1 + draw(1ull << e);
}
SchedCfg draw_sched() {
  SchedCfg c; static const int modes[] = {0, 1, 2, 1, 2}; c.mode = modes[draw(5)]; static const int exps[] = {4, 7, 10, 13, 16}; c.maxexp = exps[draw(5)]; c.num = 1; c.den = 1;
  if (c.mode == 2 && c.maxexp > 10) c.maxexp = 8;
  return c;
}
void set_sched(const SchedCfg &c) { cfg = c; gap = draw_gap(); event("sched mode=%d maxexp=%d", c.mode, c.maxexp); }
static void resume(int t) {
  int prev = cur; (void)prev;
  cur = t; g_switches++; slice = 0;
  g_schedh = hash_bytes(&t, sizeof t, g_schedh); uint64_t st = tasks[t]->steps; g_schedh = hash_bytes(&st, sizeof st, g_schedh);
  if (g_verbose && g_switches < 4000) note("t=%llu run task %d (%s) at its step %llu", (unsigned long long)g_steps, t, tasks[t]->name.c_str(), (unsigned long long)st);
  swap_eh(main_eh, tasks[t]->eh);
  sim_switch(&main_sp, tasks[t]->sp);
  cur = -1;
}
static int next_pick = -1;
static void leave() { Task *t = tasks[cur]; swap_eh(t->eh, main_eh); sim_switch(&t->sp, main_sp); }
static int choose_other(int me, bool forced) {
  int c[64], n = 0;
  for (int k = 1; k <= (int)tasks.size() && n < 64; k++) { int i = (me + k) % (int)tasks.size(); if (i != me && ready(tasks[i])) c[n++] = i; }
  if (!n) return -1;
  return c[draw(n)];
}
static void update_arm();
static void preempt_to(int t) { next_pick = t; leave(); }
void yield_now() {
  if (cur < 0 || nlive <= 1 || quiet) { if (++g_steps > g_budget) over_budget("no progress within the step budget (spinning with nobody to wait for)"); return; }
  int t = choose_other(cur, true);
  if (++g_steps > g_budget) over_budget("no progress within the step budget");
  if (t >= 0) preempt_to(t);
}
void sleep_until_task_step(int t, uint64_t s) {
  if (cur < 0) return;
  Task *me = tasks[cur]; if (tasks[t]->done || tasks[t]->steps >= s) return;
  me->wake_task = t; me->wake_task_step = s; update_arm();
  next_pick = -1; leave();
}
void wait_for(const std::function<bool()> &pred) {
  if (cur < 0 || pred()) return;
  Task *me = tasks[cur]; me->pred = pred; me->blocked = true; next_pick = -1; leave();
}
static void update_arm() {
  armed_task = -1;
  for (size_t i = 0; i < tasks.size(); i++) { Task *t = tasks[i]; if (!t->done && t->wake_task >= 0) {
    if (armed_task < 0 || t->wake_task_step < armed_step) { armed_task = t->wake_task; armed_step = t->wake_task_step; armed_sleeper = (int)i; } } }
}
void run_tasks() {
  int last = -1;
  while (nlive > 0) {
    int t = -1;
    if (next_pick >= 0 && ready(tasks[next_pick])) { t = next_pick; next_pick = -1; }
    else {
      next_pick = -1; int c[64], n = 0;
      for (int k = 1; k <= (int)tasks.size() && n < 64; k++) { int i = (last + k + (int)tasks.size()) % (int)tasks.size(); if (ready(tasks[i])) c[n++] = i; }
      if (!n) fail("deadlock", "no task can run and %d have not finished", nlive);
      t = c[draw(n)];
    }
    update_arm();
    last = t; resume(t); update_arm();
    if (g_switches == 1000000 && cfg.mode) { cfg.mode = 1; if (cfg.maxexp < 13) cfg.maxexp = 13; count("probe.long_run_coarser_schedule"); }   // the rest of a long run in bigger slices
    if (g_switches > 3000000) { if (!g_budget_cls) over_budget(""); fail("livelock", "more than 3000000 context switches"); }
  }
  for (auto *t : tasks) { munmap(t->stk, STK); delete t; }
  tasks.clear(); cur = -1; next_pick = -1; armed_task = -1;
}

// ------------------------------------------------------------------------------------------------ conflict map
struct Granule { uint64_t key; uint16_t rd, wr; };
enum { NGR = 1 << 18 };
static Granule *gran; static uint32_t ngran;
static bool conflict(const void *a, int write) {
  uint64_t k = ((uint64_t)a >> 3) + 1; uint32_t i = (uint32_t)((k * 0x9e3779b97f4a7c15ull) >> 40) & (NGR - 1);
  uint16_t bit = 1u << (cur & 15);
  for (int probe = 0; probe < 64; probe++, i = (i + 1) & (NGR - 1)) {
    Granule &g = gran[i];
    if (!g.key) { if (ngran > NGR * 3 / 4) return false; g.key = k; ngran++; }
    if (g.key == k) {
      if (write) g.wr |= bit; else g.rd |= bit;
      if (write) return ((g.rd | g.wr) & ~bit) != 0;
      return (g.wr & ~bit) != 0;
    }
  }
  return false;
}

// ------------------------------------------------------------------------------------------------ simulated heap
static char *const ARENA = (char *)0x100000000000ull; static const size_t ARENA_SZ = 1ull << 29;
static unsigned char *const SHADOW = (unsigned char *)0x180000000000ull;
static size_t bump; static bool heap_on, chk_on = true; static HeapStat hs; static std::function<bool(size_t)> *fail_plan;
int sut_depth;
struct Hdr { uint32_t magic; uint32_t cls; uint64_t size; };    // 16 bytes in front of each block, never addressable
enum { MAGIC_LIVE = 0x51ab51ab, MAGIC_FREE = 0xdeaddead };
struct FreeNode { FreeNode *next; };
static std::vector<char *> *quar; static size_t qhead; static uint64_t qbytes;
static char *freel[48];
static int size_class(size_t n) { int c = 0; size_t s = 32; while (s < n) { s <<= 1; c++; } return c; }
static size_t class_size(int c) { return (size_t)32 << c; }
HeapStat heap() { return hs; }
bool heap_owns(const void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENA_SZ; }
void heap_check(bool on) { chk_on = on; }
void alloc_fail_plan(const std::function<bool(size_t)> &f) { delete fail_plan; fail_plan = f ? new std::function<bool(size_t)>(f) : nullptr; }
static std::set<char *> *live;
void heap_list_live(std::vector<std::pair<void *, size_t>> &out) { for (char *p : *live) out.push_back({p, ((Hdr *)(p - 16))->size}); }
// live blocks that no chain of pointers from static storage reaches: what a function-level cache keeps is not lost
static int main_seg(struct dl_phdr_info *i, size_t, void *out) {
  auto &v = *(std::vector<std::pair<char *, char *>> *)out;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &ph = i->dlpi_phdr[k]; char *b = (char *)i->dlpi_addr + ph.p_vaddr;
    if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) v.push_back({b, b + ph.p_memsz});
    if (ph.p_type == PT_TLS && i->dlpi_tls_data) v.push_back({(char *)i->dlpi_tls_data, (char *)i->dlpi_tls_data + ph.p_memsz});
  }
  return 1;                                                     // the first entry is the main program
}
uint64_t heap_unrooted() {
  int d = sut_depth; sut_depth = 0; std::vector<std::pair<char *, char *>> todo; dl_iterate_phdr(main_seg, &todo);
  std::set<char *> seen;
  while (todo.size()) {
    auto r = todo.back(); todo.pop_back();
    for (char **p = (char **)(((uintptr_t)r.first + 7) & ~7ul); (char *)(p + 1) <= r.second; p++) {
      char *x = *p; if (x < ARENA || x >= ARENA + bump) continue;
      auto it = live->upper_bound(x); if (it == live->begin()) continue;
      char *b = *--it; size_t n = ((Hdr *)(b - 16))->size; if (x > b + n) continue;
      if (seen.insert(b).second) todo.push_back({b, b + n});
    }
  }
  sut_depth = d; return live->size() - seen.size();
}
int heap_big_fill = 0xA5;
struct Own { int d; Own() : d(sut_depth) { sut_depth = 0; } ~Own() { sut_depth = d; } };   // the runtime's own containers are not the library's
static void *h_alloc(size_t n) {
  Own own;
  if (fail_plan && cur >= -1 && (*fail_plan)(n)) { hs.failed++; errno = ENOMEM; return nullptr; }
  if (n > (1ull << 28)) { hs.failed++; errno = ENOMEM; return nullptr; }
  size_t need = n + 16 + 16; int c = size_class(need); char *b = nullptr;
  if (freel[c]) { b = freel[c]; freel[c] = *(char **)(b + 16); }
  else { size_t cs = class_size(c); if (bump + cs > ARENA_SZ) { hs.failed++; errno = ENOMEM; return nullptr; } b = ARENA + bump; bump += cs; }
  Hdr *h = (Hdr *)b; h->magic = MAGIC_LIVE; h->cls = c; h->size = n;
  char *u = b + 16; unsigned char *s = SHADOW + ((u - ARENA) >> 3);
  __real_memset(s, 8, n >> 3); if (n & 7) s[n >> 3] = n & 7;
  if (n < 65536) __real_memset(u, 0xA5, n); else if (heap_big_fill != 0xA5) __real_memset(u, heap_big_fill, n); else __real_memset(u, 0xA5, 65536);
  hs.live++; hs.live_bytes += n; hs.allocs++; live->insert(u);
  return u;
}
static void h_free(char *u) {
  Own own;
  Hdr *h = (Hdr *)(u - 16);
  if (((uintptr_t)u & 15) || h->magic != MAGIC_LIVE) fail("memory", "%s of %p (not a live block)", h->magic == MAGIC_FREE ? "double free" : "invalid free", (void *)u);
  unsigned char *s = SHADOW + ((u - ARENA) >> 3); __real_memset(s, 0, (h->size + 7) >> 3);
  h->magic = MAGIC_FREE; hs.live--; hs.live_bytes -= h->size; live->erase(u);
  __real_memset(u, 0x5A, h->size < 4096 ? h->size : 4096);
  quar->push_back(u - 16); qbytes += class_size(h->cls);
  while (qbytes > (24u << 20) && qhead < quar->size()) { char *b = (*quar)[qhead++]; int c = ((Hdr *)b)->cls; *(char **)(b + 16) = freel[c]; freel[c] = b; qbytes -= class_size(c); }
}
void *guard_copy(const void *p, size_t n) { auto *f = fail_plan; fail_plan = nullptr; void *d = h_alloc(n ? n : 0); fail_plan = f; if (n) __real_memcpy(d, p, n); return d; }
void guard_free(void *p) { if (p) h_free((char *)p); }
static void bad_access(const void *a, size_t n, int w) {
  sut_depth = 0;
  // describe relative to the nearest block
  char *best = nullptr; for (char *p : *live) if (p <= (char *)a) best = p; else break;
  if (best && (char *)a <= best + ((Hdr *)(best - 16))->size + 64) fail("memory", "%s of %zu byte(s), %ld byte(s) past the start of a %zu-byte live block", w ? "write" : "read", n, (long)((char *)a - best), (size_t)((Hdr *)(best - 16))->size);
  fail("memory", "%s of %zu byte(s) in freed or unallocated memory", w ? "write" : "read", n);
}
static inline void check(const void *a, size_t n, int w) {
  if ((char *)a < ARENA || (char *)a >= ARENA + ARENA_SZ) {
    if ((uintptr_t)a < 4096) fail("memory", "%s through a null pointer (offset %zu)", w ? "write" : "read", (size_t)(uintptr_t)a);
    return;
  }
  size_t off = (char *)a - ARENA;
  if (n > ARENA_SZ - off) bad_access(a, n, w);
  size_t i = off >> 3, e = (off + n - 1) >> 3; size_t lo = off & 7;
  for (; i < e; i++) { if (SHADOW[i] != 8) bad_access(a, n, w); lo = 0; }
  size_t hi = ((off + n - 1) & 7) + 1;
  if (SHADOW[e] < hi) bad_access(a, n, w);
  (void)lo;
}

static inline void point(const void *a, size_t n, int w) {
  if (++g_steps > g_budget) over_budget("no completion within the step budget");
  if (cur < 0 || quiet) return;
  Task *t = tasks[cur]; t->steps++;
  if (nlive <= 1) return;
  if (armed_task == cur && t->steps >= armed_step) { int s = armed_sleeper; update_arm(); preempt_to(s); return; }
  if (cfg.mode == 0) { if (++slice > 2000000) yield_now(); return; }
  bool cf = conflict(a, w); if (cf) g_conf++;
  if (++slice > 2000000) { yield_now(); return; }
  if (cfg.mode == 1 || cf) {
    if (--gap == 0) { gap = draw_gap(); int o = choose_other(cur, false); if (o >= 0) preempt_to(o); }
  }
}
} // namespace sim

extern "C" {
void sim_access(const void *a, size_t n, int w) { if (sim::heap_on && sim::chk_on) sim::check(a, n, w); sim::point(a, n, w); }
void sim_point(const void *a, size_t n, int w) { if (sim::heap_on && sim::chk_on) sim::check(a, n, w); sim::point(a, n, w); }
void *__wrap_malloc(size_t n) { if (!sim::heap_on) return __real_malloc(n); sim::point(nullptr, 0, 0); return sim::h_alloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!sim::heap_on) return __real_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; sim::point(nullptr, 0, 0); void *p = sim::h_alloc(n); if (p) __real_memset(p, 0, n); return p; }
void __wrap_free(void *p) { if (!p) return; if (!sim::heap_owns(p)) { __real_free(p); return; } sim::point(nullptr, 0, 0); sim::h_free((char *)p); }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!sim::heap_owns(p)) return __real_realloc(p, n);
  sim::point(nullptr, 0, 0);
  sim::Hdr *h = (sim::Hdr *)((char *)p - 16); if (h->magic != sim::MAGIC_LIVE) sim::fail("memory", "realloc of a block that is not live");
  void *q = sim::h_alloc(n); if (!q) return nullptr;
  __real_memcpy(q, p, h->size < n ? h->size : n); sim::h_free((char *)p); return q;
}
// the character classification table of the C library, alone between inaccessible pages: an index outside -128..255 faults instead of reading whatever follows
const unsigned short **__wrap___ctype_b_loc(void) {
  static const unsigned short *tab; 
  if (!tab) {
    size_t half = (size_t)1 << 32, page = 4096; char *m = (char *)mmap(nullptr, 2 * half + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { tab = *__ctype_b_loc(); return &tab; }
    char *p = m + half; mprotect(p, page, PROT_READ | PROT_WRITE); unsigned short *t = (unsigned short *)(p + page) - 384; __real_memcpy(t, *__ctype_b_loc() - 128, 384 * sizeof *t); mprotect(p, page, PROT_READ); tab = t + 128;
  }
  return &tab;
}
char *__wrap_strdup(const char *s) { size_t n = 0; while (s[n]) n++; char *d = (char *)__wrap_malloc(n + 1); if (d) __real_memcpy(d, s, n + 1); return d; }
}
#ifdef SIM_CXX_NEW
#include <new>
void *operator new(size_t n) { void *p; if (sim::heap_on && sim::sut_depth > 0) p = sim::h_alloc(n); else p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (!p) return; if (sim::heap_owns(p)) sim::h_free((char *)p); else __real_free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif

namespace sim {
// ------------------------------------------------------------------------------------------------ running one run
static Prop *cur_prop;
static void on_sig(int s) {
  bt();
  snprintf(sh->cls, sizeof sh->cls, "crash"); snprintf(sh->msg, sizeof sh->msg, "signal %d (%s)", s, s == SIGABRT ? "abort/assertion" : s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "arithmetic" : "other");
  sh->hash = hash_bytes(sh->msg, strlen(sh->msg), sh->hash); 
  if (g_verbose) dprintf(out_fd, "  VIOLATION crash: %s\n", sh->msg);
  seal(OC_VIOL); _exit(0);
}
static int devnull_fd = -1;
// a loop that never reaches an instrumented point makes no simulated progress; seen by CPU time, judged by the step count
static uint64_t tick_steps; static int tick_same;
static void on_tick(int) {
  if (g_steps - tick_steps < 1000) { if (++tick_same >= 3) { snprintf(sh->cls, sizeof sh->cls, "hang"); snprintf(sh->msg, sizeof sh->msg, "spinning without touching memory"); sh->hash = hash_bytes(sh->msg, strlen(sh->msg), sh->hash); if (g_verbose) dprintf(out_fd, "  VIOLATION hang: %s\n", sh->msg); seal(OC_VIOL); _exit(0); } }
  else tick_same = 0;
  tick_steps = g_steps;
}
static void child_main() {
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = tv.it_interval.tv_sec = 3; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  if (g_verbose && out_fd == 1) out_fd = dup(1);
  dup2(devnull_fd, 1); if (!getenv("SIM_STDERR")) dup2(devnull_fd, 2);
  heap_on = true;
  cur_prop->run();
  seal(OC_OK); _exit(0);
}
struct Result { int outcome; int nontriv; uint64_t hash, sig, schedh, steps, switches, conflicts; std::string cls, msg; std::vector<uint32_t> trace; bool overflow; };
static uint64_t run_seed(uint64_t base, const char *id, uint64_t idx) { return Rng::mix(Rng::mix(base * 1000003 + idx) ^ hash_bytes(id, strlen(id))); }
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Result exec_run(uint64_t seed, const std::vector<uint32_t> *trace, bool verb, bool want_trace) {
  sh->outcome = OC_NONE; sh->nontriv = 0; sh->hash = 1469598103934665603ull; sh->sig = 0; sh->ntrace = 0; sh->overflow = 0; sh->ncount = 0; sh->cls[0] = 0; sh->msg[0] = 0; sh->steps = 0; sh->schedh = 0; sh->switches = 0; sh->conflicts = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    g_verbose = verb; rng.seed(seed);
    if (trace) { rp_mode = true; rp_trace = trace->data(); rp_n = (uint32_t)trace->size(); rp_i = 0; }
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 150; setitimer(ITIMER_REAL, &it, nullptr);   // backstop only: SIGALRM kills the child => harness error
    child_main(); _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Result r; r.outcome = sh->outcome; r.nontriv = sh->nontriv; r.hash = hash_bytes(&sh->schedh, 8, sh->hash); r.sig = sh->sig; r.schedh = sh->schedh; r.steps = sh->steps; r.conflicts = sh->conflicts; r.overflow = sh->overflow; r.cls = sh->cls; r.msg = sh->msg;
  if (want_trace) r.trace.assign(sh->trace, sh->trace + sh->ntrace);
  if (r.outcome == OC_NONE) {
    r.outcome = OC_NONE; r.cls = "harness"; r.msg = strf("run ended without a verdict (status %#x)", st);
  }
  return r;
}

// ------------------------------------------------------------------------------------------------ batch
struct Agg { std::atomic<uint64_t> next, runs, nontriv, steps, conflicts, longest, viol_idx, err, dupcheck, dupbad, switches; std::atomic<uint64_t> stop;
  std::atomic<uint64_t> nsig, nsched; char errmsg[512]; std::atomic<int> lock; uint32_t ncount; const char *cname[NCOUNT]; uint64_t cval[NCOUNT]; std::atomic<uint64_t> sigset[1 << 21]; std::atomic<uint64_t> schset[1 << 21]; };
static bool set_insert(std::atomic<uint64_t> *t, uint64_t h) {
  if (!h) h = 1; uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 43;
  for (int k = 0; k < 256; k++, i = (i + 1) & ((1 << 21) - 1)) { uint64_t e = t[i].load(); if (e == h) return false; if (!e) { uint64_t z = 0; if (t[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; } }
  return false;
}
static bool known_match(const std::vector<std::string> &known, const Result &r) {
  for (auto &k : known) if (!k.empty() && (r.cls + ": " + r.msg).find(k) != std::string::npos) return true;
  return false;
}
static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += c; } return r + "\""; }

struct Args { std::string prop, out, replaydir, replay, tier = "quick", self; uint64_t seed = 1, runs = 1000; double secs = 30; int jobs = 8; std::vector<std::string> known; uint64_t base = 0, only = ~0ull; };

static std::vector<uint32_t> minimise(const Args &a, uint64_t seed, Result &r0, uint64_t &tries) {
  std::vector<uint32_t> t = r0.trace; double t0 = now_s(); std::string cls = r0.cls; tries = 0;
  double lim = getenv("SIM_MIN_SECS") ? atof(getenv("SIM_MIN_SECS")) : 25;
  auto ok = [&](const std::vector<uint32_t> &c, Result &out) { tries++; out = exec_run(seed, &c, false, true); return out.outcome == OC_VIOL && out.cls == cls && !known_match(a.known, out); };
  auto out_of_time = [&] { return now_s() - t0 > lim || tries > 6000; };
  Result r;
  { // truncation (missing tail = simplest choices)
    size_t lo = 0, hi = t.size(); while (lo < hi && !out_of_time()) { size_t mid = (lo + hi) / 2; std::vector<uint32_t> c(t.begin(), t.begin() + mid); if (ok(c, r)) { hi = mid; } else lo = mid + 1; }
    if (hi < t.size()) { std::vector<uint32_t> c(t.begin(), t.begin() + hi); if (ok(c, r)) t = c; } }
  bool progress = true;
  while (progress && !out_of_time()) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, t.size() / 2); chunk >= 1 && !out_of_time(); chunk /= 2) {
      for (size_t i = 0; i < t.size() && !out_of_time();) {       // delete
        std::vector<uint32_t> c(t.begin(), t.begin() + i); if (i + chunk < t.size()) c.insert(c.end(), t.begin() + i + chunk, t.end());
        if (c.size() < t.size() && ok(c, r)) { t = c; progress = true; } else i += chunk;
      }
      for (size_t i = 0; i < t.size() && !out_of_time(); i += chunk) {   // zero
        bool nz = false; for (size_t k = i; k < t.size() && k < i + chunk; k++) nz |= t[k] != 0;
        if (!nz) continue;
        std::vector<uint32_t> c = t; for (size_t k = i; k < c.size() && k < i + chunk; k++) c[k] = 0;
        if (ok(c, r)) { t = c; progress = true; }
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < t.size() && !out_of_time(); i++) {    // shrink values
      while (t[i] > 0 && !out_of_time()) { std::vector<uint32_t> c = t; c[i] = t[i] / 2; if (!ok(c, r)) { c[i] = t[i] - 1; if (t[i] > 64 || !ok(c, r)) break; } t = c; progress = true; }
    }
  }
  while (!t.empty() && t.back() == 0) { std::vector<uint32_t> c(t.begin(), t.end() - 1); if (!ok(c, r)) break; t = c; }
  return t;
}

static int do_replay(Args &a) {
  FILE *f = fopen(a.replay.c_str(), "r"); if (!f) { perror(a.replay.c_str()); return 2; }
  char line[4096]; std::string prop, cls, mode; uint64_t seed = 0, h = 0; std::vector<uint32_t> tr;
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "property=", 9)) prop = std::string(line + 9, strcspn(line + 9, "\n"));
    else if (!strncmp(line, "class=", 6)) cls = std::string(line + 6, strcspn(line + 6, "\n"));
    else if (!strncmp(line, "mode=", 5)) mode = std::string(line + 5, strcspn(line + 5, "\n"));
    else if (!strncmp(line, "runseed=", 8)) seed = strtoull(line + 8, 0, 10);
    else if (!strncmp(line, "hash=", 5)) h = strtoull(line + 5, 0, 16);
    else if (!strncmp(line, "choices=", 8)) { char *p = line + 8; std::string all; for (;;) { all += p; if (all.size() && all.back() == '\n') break; if (!fgets(line, sizeof line, f)) break; p = line; }
      const char *q = all.c_str(); while (*q) { char *e; unsigned long v = strtoul(q, &e, 10); if (e == q) break; tr.push_back((uint32_t)v); q = e; } }
    else if (!strncmp(line, "--", 2)) break;
  }
  fclose(f);
  cur_prop = nullptr; for (auto &p : props()) if (prop == p.id) cur_prop = &p;
  if (!cur_prop) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  Result r = exec_run(seed, mode == "seed" ? nullptr : &tr, true, false);
  bool same = r.outcome == OC_VIOL && r.cls == cls && (h == 0 || r.hash == h);
  printf("replay: outcome=%s class=%s hash=%016llx expected=%016llx %s\n", r.outcome == OC_VIOL ? "violation" : "no violation", r.cls.c_str(), (unsigned long long)r.hash, (unsigned long long)h, same ? "REPRODUCED" : "NOT REPRODUCED");
  if (r.outcome == OC_VIOL) printf("%s: %s\n", r.cls.c_str(), r.msg.c_str());
  return same ? 1 : r.outcome == OC_VIOL ? 3 : 0;
}

static void worker(const Args &a, Agg *g, double tend) {
  while (!g->stop.load()) {
    uint64_t i = g->next.fetch_add(1); if (i >= a.runs) break;
    if (now_s() > tend) break;
    if (i > g->viol_idx.load()) break;
    uint64_t s = run_seed(a.seed, a.prop.c_str(), i + a.base);
    Result r = exec_run(s, nullptr, false, false);
    for (uint32_t k = 0; k < sh->ncount; k++) {
      while (g->lock.exchange(1)) {}
      uint32_t j = 0; for (; j < g->ncount; j++) if (g->cname[j] == sh->cname[k]) break;
      if (j == g->ncount && j < NCOUNT) { g->cname[j] = sh->cname[k]; g->cval[j] = 0; g->ncount++; }
      if (j < NCOUNT) g->cval[j] += sh->cval[k];
      g->lock.store(0);
    }
    g->runs++; g->steps += r.steps; g->conflicts += r.conflicts; for (uint64_t l = g->longest.load(); r.steps > l && !g->longest.compare_exchange_weak(l, r.steps);) {}
    if (r.outcome == OC_NONE) { if (!g->err.exchange(1)) snprintf(g->errmsg, sizeof g->errmsg, "run %llu seed %llu: %s", (unsigned long long)i, (unsigned long long)s, r.msg.c_str()); g->stop = 1; break; }
    if (r.nontriv) { g->nontriv++; if (set_insert(g->sigset, r.sig ^ Rng::mix(r.schedh))) g->nsig++; }
    if (set_insert(g->schset, r.schedh)) g->nsched++;
    if (i % 37 == 0) { Result r2 = exec_run(s, nullptr, false, false); g->dupcheck++; if (r2.hash != r.hash || r2.outcome != r.outcome) { g->dupbad++; if (!g->err.exchange(1)) snprintf(g->errmsg, sizeof g->errmsg, "nondeterminism: run %llu seed %llu gave %llx then %llx", (unsigned long long)i, (unsigned long long)s, (unsigned long long)r.hash, (unsigned long long)r2.hash); g->stop = 1; } }
    if (r.outcome == OC_VIOL) {
      if (known_match(a.known, r)) { continue; }
      uint64_t old = g->viol_idx.load(); while (i < old && !g->viol_idx.compare_exchange_weak(old, i)) {}
    }
  }
}

static int do_batch(Args &a) {
  double t0 = now_s();
  Agg *g = (Agg *)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g->viol_idx = ~0ull;
  double tend = t0 + a.secs;
  std::vector<pid_t> ws;
  for (int w = 0; w < a.jobs; w++) { fflush(stdout); pid_t p = fork(); if (p == 0) {
      sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); worker(a, g, tend); _exit(0); } ws.push_back(p); }
  for (pid_t p : ws) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st)) { g->err = 1; snprintf(g->errmsg, sizeof g->errmsg, "worker died (status %#x)", st); } }
  int rc = 0; std::string replay_path; std::string vmsg;
  if (g->err.load()) { fprintf(stderr, "simulator error: %s\n", g->errmsg); rc = 2; }
  // sample cases: replay the first two seeds verbosely into the evidence
  std::vector<std::string> samples;
  for (uint64_t i = 0; i < 2 && i < a.runs && rc == 0; i++) {
    char tmpn[] = "/tmp/simsample.XXXXXX"; int fd = mkstemp(tmpn); out_fd = fd; exec_run(run_seed(a.seed, a.prop.c_str(), i + a.base), nullptr, true, false);
    lseek(fd, 0, SEEK_SET); std::string s; char b[1500]; ssize_t n = read(fd, b, sizeof b); if (n > 0) s.assign(b, n); close(fd); unlink(tmpn); out_fd = 1; samples.push_back(strf("run %llu: ", (unsigned long long)i) + s);
  }
  uint64_t tries = 0;
  if (rc == 0 && g->viol_idx.load() != ~0ull) {
    uint64_t i = g->viol_idx.load(), s = run_seed(a.seed, a.prop.c_str(), i + a.base);
    Result r1 = exec_run(s, nullptr, false, true), r2 = exec_run(s, nullptr, false, false);
    if (r1.outcome != OC_VIOL || r2.outcome != OC_VIOL || r1.hash != r2.hash) { fprintf(stderr, "simulator error: violation at run %llu did not reproduce\n", (unsigned long long)i); rc = 2; }
    else {
      std::vector<uint32_t> t; std::string mode = "trace"; Result fin;
      if (r1.overflow) { mode = "seed"; fin = r1; }
      else { t = minimise(a, s, r1, tries); fin = exec_run(s, &t, false, false); if (fin.outcome != OC_VIOL) { mode = "seed"; fin = r1; } }
      replay_path = a.replaydir + "/" + a.prop + strf("-%s-seed%llu-run%llu.replay", a.tier.c_str(), (unsigned long long)a.seed, (unsigned long long)(i + a.base));
      FILE *f = fopen(replay_path.c_str(), "w"); if (!f) { perror(replay_path.c_str()); return 2; }
      fprintf(f, "property=%s\nclass=%s\nmessage=%s\nverif_seed=%llu\nrun=%llu\nrunseed=%llu\nmode=%s\nhash=%016llx\noriginal_choices=%zu\nminimised_choices=%zu\nminimiser_runs=%llu\nchoices=", a.prop.c_str(), fin.cls.c_str(), show(fin.msg, 1500).c_str(), (unsigned long long)a.seed, (unsigned long long)(i + a.base), (unsigned long long)s, mode.c_str(), (unsigned long long)fin.hash, r1.trace.size(), t.size(), (unsigned long long)tries);
      for (size_t k = 0; k < t.size(); k++) fprintf(f, "%s%u", k ? " " : "", t[k]);
      fprintf(f, "\n-- schedule and fault trace of the minimised run --\n"); fflush(f);
      out_fd = fileno(f); exec_run(s, mode == "seed" ? nullptr : &t, true, false); out_fd = 1; fclose(f);
      // fresh-process replay
      std::string cmd = "'" + a.self + "' --replay '" + replay_path + "' >/dev/null 2>&1"; int st = system(cmd.c_str());
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "simulator error: fresh-process replay of %s did not reproduce (status %#x)\n", replay_path.c_str(), st); rc = 2; }
      else { vmsg = fin.cls + ": " + fin.msg; rc = 1; }
    }
  }
  double wall = now_s() - t0; uint64_t runs = g->runs.load();
  FILE *o = fopen(a.out.c_str(), "w"); if (!o) { perror(a.out.c_str()); return 2; }
  fprintf(o, "{\"runs\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"distinct_schedules\": %llu, \"steps\": %llu, \"longest\": %llu, \"conflict_points\": %llu, \"seeds_replayed_twice\": %llu, \"replay_mismatches\": %llu, \"wall_s\": %.2f, \"violation\": %s, \"replay\": %s, \"rule\": %s, \"real\": %s, \"stub\": %s, \"minimiser_runs\": %llu,\n \"counters\": {",
          (unsigned long long)runs, (unsigned long long)g->nontriv.load(), (unsigned long long)g->nsig.load(), (unsigned long long)g->nsched.load(), (unsigned long long)g->steps.load(), (unsigned long long)g->longest.load(), (unsigned long long)g->conflicts.load(), (unsigned long long)g->dupcheck.load(), (unsigned long long)g->dupbad.load(), wall, jstr(vmsg).c_str(), jstr(replay_path).c_str(), jstr(cur_prop->rule).c_str(), jstr(cur_prop->real).c_str(), jstr(cur_prop->stub).c_str(), (unsigned long long)tries);
  for (uint32_t j = 0; j < g->ncount; j++) fprintf(o, "%s%s: %llu", j ? ", " : "", jstr(g->cname[j]).c_str(), (unsigned long long)g->cval[j]);
  fprintf(o, "},\n \"samples\": [");
  for (size_t k = 0; k < samples.size(); k++) fprintf(o, "%s%s", k ? ", " : "", jstr(samples[k]).c_str());
  fprintf(o, "]}\n"); fclose(o);
  if (rc == 1) printf("VIOLATION property=%s replay=%s\n%s\n", a.prop.c_str(), replay_path.c_str(), vmsg.c_str());
  return rc;
}
} // namespace sim

int main(int argc, char **argv) {
  using namespace sim;
  if (!getenv("SIM_NOASLR_DONE")) { // fixed addresses: two runs of one seed see identical pointers
    setenv("SIM_NOASLR_DONE", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  Args a; a.self = argv[0];
  { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n > 0) { b[n] = 0; a.self = b; } }
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i]; auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (k == "--prop") a.prop = v(); else if (k == "--out") a.out = v(); else if (k == "--replaydir") a.replaydir = v(); else if (k == "--replay") a.replay = v();
    else if (k == "--tier") a.tier = v(); else if (k == "--seed") a.seed = strtoull(v().c_str(), 0, 10); else if (k == "--runs") a.runs = strtoull(v().c_str(), 0, 10);
    else if (k == "--secs") a.secs = atof(v().c_str()); else if (k == "--jobs") a.jobs = atoi(v().c_str()); else if (k == "--known") a.known.push_back(v());
    else if (k == "--base") a.base = strtoull(v().c_str(), 0, 10); else if (k == "--only") a.only = strtoull(v().c_str(), 0, 10);
    else if (k == "--list") { for (auto &p : props()) puts(p.id); return 0; }
    else { fprintf(stderr, "unknown argument %s\n", k.c_str()); return 2; }
  }
  devnull_fd = open("/dev/null", O_WRONLY);
  gran = (Granule *)mmap(nullptr, sizeof(Granule) * NGR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != ARENA ||
      mmap(SHADOW, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != SHADOW) { perror("mmap"); return 2; }
  quar = new std::vector<char *>; live = new std::set<char *>;
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  if (!a.replay.empty()) return do_replay(a);
  for (auto &p : props()) if (a.prop == p.id) cur_prop = &p;
  if (!cur_prop) { fprintf(stderr, "unknown property %s\n", a.prop.c_str()); return 2; }
  if (a.only != ~0ull) { Result r = exec_run(run_seed(a.seed, a.prop.c_str(), a.only), nullptr, true, true); printf("outcome=%d cls=%s msg=%s steps=%llu nontriv=%d hash=%llx\n", r.outcome, r.cls.c_str(), r.msg.c_str(), (unsigned long long)r.steps, r.nontriv, (unsigned long long)r.hash); return 0; }
  return do_batch(a);
}
