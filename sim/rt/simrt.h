// Deterministic simulation runtime: one seeded choice stream decides every schedule, fault and generated operation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <cstdarg>

namespace sim {

// ---- choices -------------------------------------------------------------------------------------------------
// Every decision of a run goes through draw(): in search mode it comes from the run's PRNG, in replay mode from the
// recorded trace (0 when the trace is exhausted).  0 is always the simplest choice: no fault, no switch, smallest.
uint64_t draw(uint64_t n);                        // 0..n-1
inline bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num && num > 0; }
inline uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
template <class V> const typename V::value_type &pick(const V &v) { return v[draw(v.size())]; }

// ---- log, counters, verdicts ---------------------------------------------------------------------------------
void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // hashed into the run's identity
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));    // printed in verbose replay only, not hashed
void count(const char *name, uint64_t n = 1);     // name must be a string literal ("fault.x", "probe.x", "op.x")
void distinct(uint64_t h);                        // contributes to the run's signature (distinct_nontrivial)
void nontrivial();                                // the run exercised what its property is about
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();                       // end this run quietly now
bool verbose();
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

// ---- tasks and scheduler -------------------------------------------------------------------------------------
int spawn(const char *name, std::function<void()> fn);
void run_tasks();                                 // run until every task has finished; schedules by draw()
int self();                                       // current task, -1 outside
void yield_now();                                 // let the scheduler pick somebody else (if any)
uint64_t steps();                                 // global simulated time (instrumented points executed)
uint64_t task_steps(int t);
void sleep_until_task_step(int t, uint64_t s);    // block until task t has executed s steps (or finished, or waits itself)
void wait_for(const std::function<bool()> &pred); // block until pred (evaluated when the scheduler looks)
bool task_done(int t);
void set_budget(uint64_t points, const char *cls = "hang");  // liveness bound for the rest of the run
void set_soft_budget(uint64_t points);            // give up quietly (no verdict on this run) past that many points
void set_quiet_points(bool q);                    // true: points do not schedule (reference runs)
struct SchedCfg { int mode; int maxexp; int num, den; };
SchedCfg draw_sched();                            // swarm: pick a scheduling strategy for this run
void set_sched(const SchedCfg &c);
uint64_t sched_hash();
// conflicts
uint64_t conflicts_seen();

// ---- memory ---------------------------------------------------------------------------------------------------
struct HeapStat { uint64_t live, live_bytes, allocs, failed; };
HeapStat heap();
uint64_t heap_unrooted();                          // live blocks unreachable from static storage (leak checks)
void heap_list_live(std::vector<std::pair<void*, size_t>> &out);
bool heap_owns(const void *p);
extern int heap_big_fill;                         // what fresh blocks of 64 KB and more contain (smaller ones: 0xA5)
void heap_check(bool on);                         // shadow checking of SUT accesses
void alloc_fail_plan(const std::function<bool(size_t)> &f);   // empty: no allocation faults
extern int sut_depth;                             // >0: operator new belongs to the system under test
struct InSut { InSut() { sut_depth++; } ~InSut() { sut_depth--; } };
void *guard_copy(const void *p, size_t n);        // copy into an exact-size simulated-heap block (over-reads trip)
void guard_free(void *p);

// ---- registry -------------------------------------------------------------------------------------------------
struct Prop { const char *id; void (*run)(); const char *rule; const char *real; const char *stub; };
void reg(const Prop &p);
struct Reg { Reg(const Prop &p) { reg(p); } };

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string show(const std::string &s, size_t max = 120);   // printable form
extern int out_fd;                                 // real stdout while fd 1 is redirected
}

extern "C" void sim_point(const void *a, size_t n, int write);
extern "C" void sim_access(const void *a, size_t n, int write);
