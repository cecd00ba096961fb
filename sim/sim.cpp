// Deterministic simulator core. Compiled WITHOUT instrumentation.
// The simulated system (all of /repo's library code plus the workload kernels)
// is compiled with -fsanitize=thread; every memory access, atomic, OpenMP call,
// allocation, stdio call and clock read of it lands in this file.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <climits>
#include <cmath>
#include <new>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <exception>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
#include <execinfo.h>

typedef unsigned char u8;
typedef uint64_t u64;
typedef uint32_t u32;

#define HOT __attribute__((hot))
#define COLD __attribute__((cold, noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define RET __builtin_return_address(0)

extern "C" {
extern char __start_sut_data[] __attribute__((weak));
extern char __stop_sut_data[] __attribute__((weak));
extern char __bss_start, _end;
int spmp_sim_par_thr = 65536;
int spmp_sim_level_thresh = 64;
}

namespace {

// ------------------------------------------------------------------ address space
const uintptr_t ARENA = 0x100000000000ull;
const size_t ARENA_SZ = 768ull << 20;
const uintptr_t SHADOW = 0x110000000000ull;
const uintptr_t STACKS = 0x120000000000ull;
const size_t STACK_SZ = 512 << 10;
const int MAXF = 65;               // fiber 0 = initial thread
const size_t STACKS_SZ = STACK_SZ * MAXF;

u8 *const shadow = (u8 *)SHADOW;
uintptr_t g_sut_lo, g_sut_hi;
std::vector<std::pair<uintptr_t, uintptr_t>> g_allowed;

// ------------------------------------------------------------------ PRNG
struct Rng {
  u64 s;
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u32 below(u32 n) { return n <= 1 ? 0 : (u32)((next() >> 33) % n); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

// ------------------------------------------------------------------ fibers
enum State { IDLE, RUNNABLE, PAUSED, BLOCKED };
struct Team;
struct Fiber {
  void *sp;
  int id, state;
  u64 steps;          // fiber-local step counter: the coordinate of every decision
  u64 pause_epoch;
  const void *wait;
  Team *team; int tid; unsigned ws; int level;
  void (*fn)(void *); void *data;
  const void *spin_addr; int spin_cnt; u64 spin_epoch;
  long st_i, st_end; int st_init; // static loop iteration state
  int prio;
  u64 last_write_steps;
};
struct Work { unsigned idx; long next, end, incr, chunk; unsigned long long unext, uend, uincr, uchunk; bool up; int kind; long ord; };
struct Team {
  int n, arrived, joined; bool master_wait; u64 gen;
  Fiber *mem[MAXF];
  std::vector<Work> works; unsigned works_done;
  unsigned single_seen; void *copypriv; bool used;
};
Fiber F[MAXF];
int g_nf = MAXF;                   // fibers this run has used; none beyond is ever runnable
Team teams[64];
Fiber *cur = &F[0];
bool g_active = false;      // inside a simulated run
bool g_multi = false;       // a team with more than one thread is running
int g_T = 1;
int g_dyn = 0;

int64_t g_cd = INT64_MAX / 2, g_cd_init = INT64_MAX / 2;
u64 g_quiet_from, g_total, g_par_steps, g_wepoch, g_step_limit;
u64 g_run_start, g_switches, g_preempts, g_quiet, g_quiet_epoch;
u64 g_trace, g_sched_hash, g_hist;
u32 g_runtag;
u32 g_tso;                          // 0: sequentially consistent memory, else store buffers, drained by this seed

enum Strat { S_RAND, S_RR, S_PCT, S_CONFLICT, S_SERIAL, S_REPLAY, S_NSTRAT };
int g_strat; double g_mean; u32 g_vol; u64 g_next_preempt; u32 g_confp; int g_confwin;
int g_conf;                         // bit 0: conflict-directed preemption, bit 1: watch for reads of new addresses
u8 g_seen[1 << 19]; u64 g_fresh;     // addresses read while nobody writes
std::vector<u64> g_cps; size_t g_cp_i; int g_prio_low;
Rng g_srng;
u32 g_conftab[1 << 14];

struct Dec { int f; u64 step; int to; };
std::vector<Dec> g_log;                     // decisions taken (deviations from default)
std::vector<std::pair<u64, int>> g_script[MAXF];
size_t g_script_i[MAXF];

// ------------------------------------------------------------------ run result
struct Result {
  bool failed, discarded; std::string cls, msg, note; std::vector<void *> bt;
  std::vector<u32> choices; std::vector<Dec> sched; int T;
};
Result g_res;
sigjmp_buf g_host;
std::map<std::string, u64> g_probes, g_faults, g_discards;
std::unordered_set<u64> g_cov, g_pairs, g_distinct, g_scheds;
u64 g_run_faults;

// ------------------------------------------------------------------ choices
Rng g_crng; bool g_creplay; std::vector<u32> g_cin, g_cout; size_t g_cpos; u64 g_case_hash;

[[noreturn]] void to_host() { g_active = false; g_multi = false; siglongjmp(g_host, 1); }

[[noreturn]] void vfail(const char *cls, const char *fmt, va_list ap) {
  char buf[4096]; vsnprintf(buf, sizeof buf, fmt, ap);
  if (!g_active) { fprintf(stderr, "sim: failure outside a run: %s: %s\n", cls, buf); _exit(3); }
  g_active = false;
  g_res.failed = true; g_res.cls = cls; g_res.msg = buf;
  void *b[24]; 
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  g_res.bt.clear();
  if (sp >= STACKS && sp < STACKS + STACKS_SZ) { int k = backtrace(b, 24); g_res.bt.assign(b, b + k); }
  to_host();
}

} // namespace

namespace sim {
[[noreturn]] void fail(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfail(cls, fmt, ap); }
[[noreturn]] void discard(const char *why) { g_res.discarded = true; g_discards[why]++; to_host(); }
void probe(const char *n) { g_probes[n]++; }
void fault(const char *k) { g_faults[k]++; g_run_faults++; }
void coverage(u64 h) { if (g_cov.size() < 2000000) g_cov.insert(h); }
void history(u64 h) { g_hist = mix(g_hist, h); }
uint32_t pick(uint32_t n) {
  u32 v;
  if (g_creplay) { v = g_cpos < g_cin.size() ? g_cin[g_cpos] : 0; g_cpos++; if (n == 0) n = 1; v %= n; }
  else v = g_crng.below(n ? n : 1);
  g_cout.push_back(v); g_case_hash = mix(g_case_hash, v);
  return v;
}
bool chance(uint32_t num, uint32_t den) { return pick(den) >= den - num; }
void note(const char *fmt, ...) { char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (g_res.note.size() < 4000) g_res.note += b; }
void set_threads(int t) { if (t < 1) t = 1; if (t > MAXF - 1) t = MAXF - 1; g_T = t; }
void step_limit(unsigned long long n) { g_step_limit = n; }
int threads() { return g_T; }
bool store_buffers() { return g_tso != 0; }
uint64_t now() { return g_total + (uint64_t)(g_cd_init - g_cd); }
}

// ------------------------------------------------------------------ context switch
extern "C" void sim_ctx_switch(void **save, void *to);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

void sim_main_fiber();
namespace {
void fiber_entry();
void arm();
[[noreturn]] void sched_exit();

const u64 FAIR = 50000; // a thread never runs longer than this while others can

void *stack_top(int id) { return (void *)(STACKS + STACK_SZ * (id + 1)); }

void init_stack(Fiber *f) {
  void **sp = (void **)stack_top(f->id);
  *--sp = 0;
  *--sp = (void *)fiber_entry;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  f->sp = sp;
}

inline void settle() {
  u64 d = (u64)(g_cd_init - g_cd); cur->steps += d; g_total += d; if (g_multi) g_par_steps += d; g_cd_init = g_cd;
}

// ------------------------------------------------------------------ store buffers (x86-TSO)
// In a run with store buffers a thread's plain stores stay invisible to the other threads for a while, in order:
// when a thread is switched away its youngest stores are taken back out of memory, and they are put in again when
// it runs on; from time to time the oldest ones of a suspended thread become visible. Atomic operations, runtime
// calls and fences drain the buffer. A store to the thread's own stack drains it as well (no reordering there).
u64 g_delayed, g_pend;
struct Sb { u32 n; struct { uintptr_t a; u32 n; u8 old[16], val[16]; } e[24]; } SB[MAXF];
inline void cp(void *d, const void *s, u32 n) { if (n == 4) memcpy(d, s, 4); else if (n == 8) memcpy(d, s, 8); else memcpy(d, s, n); }
void sb_drop(Sb &b, u32 k) { if (!k) return; g_wepoch++; b.n -= k; memmove(b.e, b.e + k, b.n * sizeof b.e[0]); }
inline void sb_fence() { Sb &b = SB[cur->id]; if (UNLIKELY(b.n)) { b.n = 0; g_wepoch++; } } // of the running thread: its stores are in memory
COLD void sb_rec(uintptr_t a, size_t n) {
  if (!g_multi) return;
  Sb &b = SB[cur->id];
  if (n > 16 || a - (uintptr_t)(STACKS + STACK_SZ * cur->id) < STACK_SZ) { sb_fence(); return; }
  if (b.n == 24) sb_drop(b, 1);
  auto &e = b.e[b.n++]; e.a = a; e.n = (u32)n; cp(e.old, (void *)a, e.n);
}
void sb_commit(Sb &b, u32 k) { for (u32 i = 0; i < k; ++i) cp((void *)b.e[i].a, b.e[i].val, b.e[i].n); g_pend -= k; sb_drop(b, k); } // of a suspended thread
COLD void sb_switch(Fiber *t) {
  Sb &o = SB[cur->id];
  if (!o.n && !g_pend) return;
  u64 h = mix(mix(g_tso, cur->steps), (u64)cur->id);
  if (o.n) {
    u32 k = (h & 3) == 0 ? o.n : (h & 3) == 1 ? 0 : (u32)(h >> 8) % (o.n + 1);
    sb_drop(o, k);
    for (u32 i = o.n; i-- > 0;) { auto &e = o.e[i]; cp(e.val, (void *)e.a, e.n); cp((void *)e.a, e.old, e.n); }
    g_pend += o.n; g_delayed += o.n;
  }
  if (g_pend) for (int i = 0; i < g_nf; ++i) { Sb &b = SB[i]; if (!b.n || i == cur->id || i == t->id) continue; h = mix(h, (u64)i); if ((h & 7) < 2) sb_commit(b, 1 + (u32)(h >> 8) % b.n); }
  Sb &b = SB[t->id];
  for (u32 i = 0; i < b.n; ++i) { auto &e = b.e[i]; cp(e.old, (void *)e.a, e.n); cp((void *)e.a, e.val, e.n); }
  g_pend -= b.n;
}
bool sb_drain() { // everything becomes visible
  bool any = SB[cur->id].n > 0; sb_fence();
  if (g_pend) for (int i = 0; i < g_nf; ++i) if (i != cur->id && SB[i].n) { any = true; sb_commit(SB[i], SB[i].n); }
  return any;
}

bool g_pending_exit; int g_exit_code; sigjmp_buf *g_guard;

void switch_to(Fiber *t) {
  // settle() done by caller
  if (UNLIKELY(g_tso)) sb_switch(t);
  if (t == cur) { arm(); return; }
  g_switches++;
  g_trace = mix(g_trace, (u64)cur->id << 56 ^ cur->steps << 5 ^ (u64)t->id);
  g_sched_hash = mix(g_sched_hash, (u64)cur->id << 56 ^ cur->steps << 5 ^ (u64)t->id);
  Fiber *o = cur; cur = t; g_run_start = t->steps;
  arm();
  sim_ctx_switch(&o->sp, t->sp);
  if (UNLIKELY(g_pending_exit)) { g_pending_exit = false; siglongjmp(*g_guard, 1); }
}

inline bool cand(const Fiber &f) { return f.state == RUNNABLE || (f.state == PAUSED && f.pause_epoch != g_wepoch); }

int next_script(Fiber *f) { // entry at exactly this step?
  std::vector<std::pair<u64, int>> &v = g_script[f->id]; size_t &i = g_script_i[f->id];
  while (i < v.size() && v[i].first < f->steps) ++i;
  if (i < v.size() && v[i].first == f->steps) return v[i].second;
  return -1;
}

void arm() {
  int64_t c = 20000;
  if (g_multi) {
    if (cur->steps < g_run_start + FAIR) c = std::min<int64_t>(c, (int64_t)(g_run_start + FAIR - cur->steps)); else c = 1;
    if (g_strat == S_REPLAY) {
      std::vector<std::pair<u64, int>> &v = g_script[cur->id]; size_t &i = g_script_i[cur->id];
      while (i < v.size() && v[i].first <= cur->steps) ++i;
      if (i < v.size()) { u64 d = v[i].first - cur->steps; if (d < (u64)c) c = (int64_t)d; }
    } else if (g_next_preempt > g_par_steps) {
      u64 d = g_next_preempt - g_par_steps; if (d < (u64)c) c = (int64_t)d;
    } else c = 1;
  }
  g_cd = g_cd_init = c;
}

void draw_next() {
  switch (g_strat) {
  case S_RAND: case S_CONFLICT: { double u = g_srng.unit(); double d = -log(1 - u) * g_mean; g_next_preempt = g_par_steps + 1 + (u64)d; break; }
  case S_RR: g_next_preempt = g_par_steps + (u64)g_mean; break;
  case S_PCT: g_next_preempt = g_cp_i < g_cps.size() ? g_cps[g_cp_i] : UINT64_MAX; if (g_next_preempt <= g_par_steps) g_next_preempt = g_par_steps + 1; break;
  default: g_next_preempt = UINT64_MAX;
  }
}

// voluntary choice among candidates except (optionally) cur. Returns default
// first, then strategy deviation.
Fiber *default_next(bool include_cur) {
  for (int k = 1; k <= g_nf; ++k) { Fiber &f = F[cur->id + k < g_nf ? cur->id + k : cur->id + k - g_nf]; if (&f == cur && !include_cur) continue; if (cand(f)) return &f; }
  return nullptr;
}
Fiber *strat_choose(bool include_cur) {
  int n = 0; Fiber *c[MAXF];
  for (int k = 0; k < g_nf; ++k) { Fiber &f = F[k]; if (&f == cur && !include_cur) continue; if (cand(f)) c[n++] = &f; }
  if (!n) return nullptr;
  if (n == 1) return c[0];
  switch (g_strat) {
  case S_PCT: { Fiber *b = c[0]; for (int i = 1; i < n; ++i) if (c[i]->prio > b->prio) b = c[i]; return b; }
  case S_RR: return default_next(include_cur);
  default: return c[g_srng.below((u32)n)];
  }
}
void logdec(Fiber *t) { g_log.push_back(Dec{cur->id, cur->steps, t->id}); }

// The running fiber cannot or does not want to go on: choose who runs.
void forced(bool include_cur) {
  Fiber *d = default_next(include_cur), *t = nullptr;
  if (UNLIKELY(!d && g_tso) && sb_drain()) d = default_next(include_cur);
  if (!d) { // nobody made progress possible: let spinners spin, quietly
    if (g_quiet_epoch != g_wepoch) { g_quiet_epoch = g_wepoch; g_quiet = 0; g_quiet_from = g_total; g_conf &= 1; g_fresh = 0; }
    Fiber *p = nullptr; int np = 0;
    for (int k = 1; k <= g_nf; ++k) { Fiber &f = F[cur->id + k < g_nf ? cur->id + k : cur->id + k - g_nf]; if (f.state == PAUSED) { np++; if (!p) p = &f; } }
    if (!p) {
      char b[2048]; int n = 0; for (int k = 0; k < g_nf; ++k) if (F[k].state != IDLE) n += snprintf(b + n, sizeof b - n, " t%d:%s", F[k].tid, F[k].state == BLOCKED ? "blocked" : "run");
      sim::fail("deadlock", "all threads blocked:%s", b);
    }
    // a long read-only computation that polls a flag keeps reading addresses nobody has read yet; spinning threads do not
    if (g_quiet == 500 && !(g_conf & 2)) { g_conf |= 2; memset(g_seen, 0, sizeof g_seen); }
    if (g_fresh) { g_fresh = 0; g_quiet = 501; g_quiet_from = g_total; }
    // no write anywhere for that long: the threads spin on a few locations, or else get far more steps before they are given up
    if (++g_quiet > 600ull * np + 2000 && (g_total - g_quiet_from < g_quiet * 256 || g_total - g_quiet_from > 100000000ull)) {
      char b[2048]; int n = 0; for (int k = 0; k < g_nf; ++k) if (F[k].state != IDLE) n += snprintf(b + n, sizeof b - n, " t%d:%s", F[k].tid, F[k].state == BLOCKED ? "blocked" : "spinning");
      sim::fail("deadlock", "no thread can make progress:%s", b);
    }
    p->state = RUNNABLE; switch_to(p); return;
  }
  if (g_strat == S_REPLAY) { int s = next_script(cur); if (s >= 0 && s < MAXF && cand(F[s]) && (include_cur || s != cur->id)) t = &F[s]; }
  else t = strat_choose(include_cur);
  if (!t) t = d;
  if (t != d) logdec(t);
  t->state = RUNNABLE;
  switch_to(t);
}

void check_limit() { if (UNLIKELY(g_total > g_step_limit)) { u64 l = g_step_limit; g_step_limit = UINT64_MAX; sim::fail("livelock", "no completion within %llu simulated steps", (unsigned long long)l); } }

void preempt_to(Fiber *t, const void *pc) {
  if (t && t != cur) { g_preempts++; logdec(t); t->state = RUNNABLE; g_trace = mix(g_trace, (u64)(uintptr_t)pc); switch_to(t); }
  else arm();
}

COLD void hook_slow(const void *pc) {
  settle(); check_limit();
  if (!g_multi) { arm(); return; }
  if (cur->steps >= g_run_start + FAIR) {
    g_run_start = cur->steps; Fiber *t = default_next(false);
    if (t) { if (g_strat != S_REPLAY && g_par_steps >= g_next_preempt) draw_next(); t->state = RUNNABLE; switch_to(t); return; }
  }
  if (g_strat == S_REPLAY) {
    int s = next_script(cur);
    if (s >= 0 && s < MAXF && s != cur->id && cand(F[s])) { preempt_to(&F[s], pc); return; }
    arm(); return;
  }
  if (g_par_steps < g_next_preempt) { arm(); return; }
  Fiber *t = nullptr;
  if (g_strat == S_PCT) { cur->prio = --g_prio_low; g_cp_i++; draw_next(); t = strat_choose(true); }
  else { draw_next(); t = strat_choose(false); }
  if (t && t != cur) { if (g_pairs.size() < 200000) g_pairs.insert(mix((u64)(uintptr_t)pc, 77)); }
  preempt_to(t, pc);
}

// extra preemption opportunity at the current step (already counted)
COLD void extra_preempt(const void *pc) {
  settle(); check_limit();
  if (!g_multi || g_strat == S_REPLAY) { if (g_cd <= 0) arm(); return; }
  if (g_par_steps >= g_next_preempt) draw_next();
  Fiber *t;
  if (g_strat == S_PCT) { t = nullptr; } else t = strat_choose(false);
  if (t && g_pairs.size() < 200000) g_pairs.insert(mix((u64)(uintptr_t)pc, 78));
  preempt_to(t, pc);
}

void step_sync() { g_cd--; settle(); check_limit(); }

// spin hint
void pause_point() {
  step_sync();
  cur->state = PAUSED; cur->pause_epoch = g_wepoch;
  if (g_strat == S_PCT && g_multi) { /* spinner keeps its priority but waits for a write */ }
  forced(true);
}

// yields that are always possible decision points (runtime calls)
void rt_point() {
  sb_fence(); step_sync();
  if (!g_multi) { arm(); return; }
  if (g_strat == S_REPLAY) {
    int s = next_script(cur);
    if (s >= 0 && s < MAXF && s != cur->id && cand(F[s])) { preempt_to(&F[s], nullptr); return; }
    arm(); return;
  }
  bool sw = g_strat == S_PCT ? true : g_srng.below(4) == 0;
  if (g_strat == S_SERIAL) sw = g_srng.below(16) == 0;
  if (sw) { Fiber *t = strat_choose(g_strat == S_PCT); preempt_to(t, nullptr); } else arm();
}

void block_on(const void *w) {
  sb_fence(); step_sync();
  cur->state = BLOCKED; cur->wait = w;
  forced(false);
}
void wake(const void *w) { for (int i = 0; i < g_nf; ++i) if (F[i].state == BLOCKED && F[i].wait == w) { F[i].state = RUNNABLE; F[i].wait = nullptr; } g_wepoch++; }

// ------------------------------------------------------------------ shadow checks
COLD void bad_access(uintptr_t a, size_t n, bool w, const void *pc) {
  if (a - ARENA < ARENA_SZ) {
    u8 s = shadow[(a - ARENA) >> 3]; if (s == 0 || s < 8) { uintptr_t e = a + n - 1; u8 s2 = shadow[(e - ARENA) >> 3]; if (s2 > 8) s = s2; }
    const char *k = s == 0xFD ? "use-after-free" : "out-of-bounds";
    char cls[64]; snprintf(cls, sizeof cls, "%s-%s", k, w ? "write" : "read");
    sim::fail(cls, "%s of %zu bytes at arena+0x%llx by thread %d", cls, n, (unsigned long long)(a - ARENA), cur->tid);
  }
  if (a < 4096) sim::fail("null-access", "%s of %zu bytes near null by thread %d", w ? "write" : "read", n, cur->tid);
  sim::fail("wild-access", "%s of %zu bytes at wild address by thread %d", w ? "write" : "read", n, cur->tid);
}
bool other_ok(uintptr_t a, size_t n) {
  for (auto &r : g_allowed) if (a >= r.first && a + n <= r.second) return true;
  return false;
}
inline void check(uintptr_t a, size_t n, bool w, const void *pc) {
  uintptr_t off = a - ARENA;
  if (LIKELY(off < ARENA_SZ)) {
    u8 s = shadow[off >> 3];
    if (LIKELY(s == 0 && (off & 7) + n <= 8)) return;
    // slow exact check
    for (uintptr_t o = off; o < off + n;) {
      s = shadow[o >> 3]; uintptr_t end = std::min(off + n, (o | 7) + 1);
      if (s != 0 && (s >= 8 || ((end - 1) & 7) >= s)) bad_access(a, n, w, pc);
      o = end;
    }
    return;
  }
  if (a - STACKS < STACKS_SZ) return;
  if (a - g_sut_lo < g_sut_hi - g_sut_lo) return;
  if (!other_ok(a, n)) bad_access(a, n, w, pc);
}

inline void seen(uintptr_t a) { u64 h = (a >> 1) * 0x9e3779b97f4a7c15ull >> 42; u8 &b = g_seen[h >> 3], m = (u8)(1 << (h & 7)); if (!(b & m)) { b |= m; g_fresh++; } }
inline void conf(uintptr_t a, bool w, const void *pc) {
  if (g_conf & 2) seen(a);
  if (!(g_conf & 1) || !g_multi) return;
  u32 &e = g_conftab[(a >> 3) & ((1 << 14) - 1)];
  u32 tag = g_runtag << 8; u32 prev = e;
  bool hit = (prev & 0xffffff00u) == tag && (int)(prev & 127) != cur->id && (w || (prev & 0x80));
  e = tag | (w ? 0x80u : (((prev & 0xffffff00u) == tag && (prev & 127) == (u32)cur->id) ? (prev & 0x80u) : 0u)) | (u32)cur->id;
  if (hit && (g_srng.next() & 255) < g_confp) { g_confwin = 0; extra_preempt(pc); }
}

inline void acc(const void *p, size_t n, bool w, const void *pc) {
  if (UNLIKELY(!g_active)) return;
  check((uintptr_t)p, n, w, pc);
  if (w) g_wepoch++;
  if (UNLIKELY(--g_cd <= 0)) hook_slow(pc);
  else if (UNLIKELY(g_conf)) conf((uintptr_t)p, w, pc);
  if (w && UNLIKELY(g_tso)) sb_rec((uintptr_t)p, n);
}

inline void vacc(const void *p, size_t n, bool w, const void *pc) {
  if (UNLIKELY(!g_active)) return;
  check((uintptr_t)p, n, w, pc);
  if (w) { g_wepoch++; cur->spin_cnt = 0; }
  if (UNLIKELY(--g_cd <= 0)) hook_slow(pc);
  else if (g_multi && g_strat != S_REPLAY && g_vol && (g_srng.next() & 255) < g_vol) extra_preempt(pc);
  if (!w) {
    if (cur->spin_addr == p && cur->spin_epoch == g_wepoch) { if (++cur->spin_cnt >= 4) { cur->spin_cnt = 0; pause_point(); } }
    else { cur->spin_addr = p; cur->spin_cnt = 0; }
    cur->spin_epoch = g_wepoch;
  } else if (UNLIKELY(g_tso)) sb_rec((uintptr_t)p, n);
}
} // namespace

// ------------------------------------------------------------------ tsan interface
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  HOT void __tsan_read##n(void *p) { acc(p, n, false, RET); } \
  HOT void __tsan_write##n(void *p) { acc(p, n, true, RET); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, false, RET); } \
  void __tsan_unaligned_write##n(void *p) { acc(p, n, true, RET); } \
  void __tsan_volatile_read##n(void *p) { vacc(p, n, false, RET); } \
  void __tsan_volatile_write##n(void *p) { vacc(p, n, true, RET); } \
  void __tsan_unaligned_volatile_read##n(void *p) { vacc(p, n, false, RET); } \
  void __tsan_unaligned_volatile_write##n(void *p) { vacc(p, n, true, RET); } \
  void __tsan_read##n##_pc(void *p, void *) { acc(p, n, false, RET); } \
  void __tsan_write##n##_pc(void *p, void *) { acc(p, n, true, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) acc(p, n, false, RET); }
void __tsan_write_range(void *p, unsigned long n) { if (n) acc(p, n, true, RET); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true, RET); }
void __tsan_vptr_read(void **p) { acc(p, 8, false, RET); }

#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { vacc((const void *)a, sizeof(T), false, RET); return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int o) { vacc((const void *)a, sizeof(T), true, RET); *a = v; if (o == 5) sb_fence(); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; *a = (T)(o & v); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; *a = (T)(o | v); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; *a = (T)(o ^ v); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; *a = (T)(~(o & v)); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { vacc((const void *)a, sizeof(T), true, RET); sb_fence(); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int o) { if (g_active && --g_cd <= 0) hook_slow(RET); if (g_active && o == 5) sb_fence(); }
void sim_mfence(void) { __tsan_atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

void sim_pause(void) { if (g_active) pause_point(); }
unsigned long long sim_rdtsc(void) { if (!g_active) return 0; g_cd--; return sim::now() * 3; }
}

// ------------------------------------------------------------------ OpenMP runtime
namespace {
Team *new_team(int n) {
  for (auto &t : teams) if (!t.used) { t.used = true; t.n = n; t.arrived = t.joined = 0; t.master_wait = false; t.works.clear(); t.works_done = 0; t.single_seen = 0; t.copypriv = nullptr; return &t; }
  sim::fail("harness", "too many nested teams");
}
struct LockT { const void *owner; int cnt; };
std::map<const void *, LockT> g_locks;

void fiber_entry() {
  Fiber *f = cur;
  if (f->id == 0) sim_main_fiber();
  f->fn(f->data);
  sched_exit();
}
[[noreturn]] void sched_exit() {
  sb_fence(); step_sync();
  Team *t = cur->team;
  t->joined++;
  cur->state = IDLE; cur->team = nullptr;
  if (t->joined == t->n - 1 && t->master_wait) wake(t);
  g_wepoch++;
  forced(false);
  __builtin_unreachable();
}

void do_parallel(void (*fn)(void *), void *data, unsigned nt) {
  if (!g_active) { fn(data); return; }
  Fiber *me = cur;
  bool nested = me->level > 0;
  int n = nested ? 1 : (nt ? (int)std::min<unsigned>(nt, MAXF - 1) : g_T);
  Team *sv_team = me->team; int sv_tid = me->tid; unsigned sv_ws = me->ws; int sv_level = me->level;
  Team *t = new_team(n);
  me->team = t; me->tid = 0; me->ws = 0; me->level = sv_level + 1;
  t->mem[0] = me;
  if (n > 1) {
    if (n > g_nf) g_nf = n;
    g_cd--; settle();
    for (int i = 1; i < n; ++i) {
      Fiber &f = F[i];
      f.state = RUNNABLE; f.team = t; f.tid = i; f.ws = 0; f.level = me->level; f.fn = fn; f.data = data; f.spin_addr = nullptr; f.spin_cnt = 0;
      t->mem[i] = &f; init_stack(&f);
      if (g_strat == S_PCT) f.prio = 1000 + (int)g_srng.below(1000);
    }
    if (g_strat == S_PCT) me->prio = 1000 + (int)g_srng.below(1000);
    g_multi = true; g_runtag = (g_runtag + 1) & 0xffffff;
    if (g_strat != S_REPLAY) draw_next();
    g_wepoch++;
    step_sync(); forced(true);
  } else if (!nested) { g_cd--; }
  fn(data);
  if (n > 1) {
    sb_fence(); step_sync();
    while (t->joined < n - 1) { t->master_wait = true; block_on(t); }
    g_multi = false; settle(); arm();
  }
  t->used = false;
  me->team = sv_team; me->tid = sv_tid; me->ws = sv_ws; me->level = sv_level;
}
void team_barrier() {
  if (!g_active) return;
  Team *t = cur->team; if (!t || t->n <= 1) { g_cd--; return; }
  sb_fence();
  if (++t->arrived == t->n) { t->arrived = 0; t->gen++; wake((char *)t + 1); step_sync(); forced(true); }
  else { u64 g = t->gen; do block_on((char *)t + 1); while (t->gen == g); }
}
Work *work_share(bool *created) {
  Team *t = cur->team; unsigned idx = ++cur->ws;
  for (auto &w : t->works) if (w.idx == idx) { *created = false; return &w; }
  if (t->works.capacity() < 4096) t->works.reserve(4096);
  if (t->works.size() >= 4096) { // forget old ones
    t->works.erase(t->works.begin(), t->works.begin() + 2048);
  }
  Work w; memset(&w, 0, sizeof w); w.idx = idx; t->works.push_back(w); *created = true; return &t->works.back();
}
Work *cur_work() { Team *t = cur->team; for (size_t i = t->works.size(); i-- > 0;) if (t->works[i].idx == cur->ws) return &t->works[i]; return nullptr; }
enum { K_STATIC, K_DYN, K_GUIDED };
bool loop_next(long *is, long *ie);
bool loop_start(long start, long end, long incr, long chunk, int kind, long *is, long *ie) {
  if (!g_active || !cur->team || cur->team->n == 1) {
    if ((incr > 0 && start >= end) || (incr < 0 && start <= end)) { cur->st_i = 0; cur->st_init = 2; return false; }
    *is = start; *ie = end; cur->st_init = 2; return true;
  }
  rt_point();
  bool c; Work *w = work_share(&c);
  if (c) { w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; w->kind = kind; }
  cur->st_init = 0; cur->st_i = 0;
  return loop_next(is, ie);
}
bool loop_next(long *is, long *ie) {
  if (cur->st_init == 2) return false;
  if (cur->st_init == 3) { cur->st_init = 2; *is = cur->st_i; *ie = cur->st_end; return cur->st_i != cur->st_end; }
  rt_point();
  Work *w = cur_work(); Team *t = cur->team;
  long n = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
  if (w->kind == K_STATIC) {
    // iteration count is relative to the loop start, w->next never moves
    if (n <= 0) return false;
    if (w->chunk <= 0) {
      if (cur->st_i) return false;
      cur->st_i = 1;
      long q = n / t->n, r = n % t->n; long s = q * cur->tid + std::min<long>(cur->tid, r); long e = s + q + (cur->tid < r);
      if (s >= e) return false;
      *is = w->next + s * w->incr; *ie = w->next + e * w->incr; return true;
    }
    long s = (cur->st_i * t->n + cur->tid) * w->chunk; if (s >= n) return false; cur->st_i++;
    long e = std::min(n, s + w->chunk); *is = w->next + s * w->incr; *ie = w->next + e * w->incr; return true;
  }
  if (n <= 0) return false;
  long ch = std::max<long>(1, w->chunk);
  if (w->kind == K_GUIDED) ch = std::max(ch, (n + t->n - 1) / t->n);
  ch = std::min(ch, n);
  *is = w->next; w->next += ch * w->incr; *ie = w->next; return true;
}
bool uloop_start(bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk, int kind, unsigned long long *is, unsigned long long *ie) {
  (void)up; long a, b; if (!loop_start((long)start, (long)end, (long)incr, (long)chunk, kind, &a, &b)) return false; *is = (unsigned long long)a; *ie = (unsigned long long)b; return true;
}
bool uloop_next(unsigned long long *is, unsigned long long *ie) { long a, b; if (!loop_next(&a, &b)) return false; *is = (unsigned long long)a; *ie = (unsigned long long)b; return true; }
void lock_acq(const void *l) {
  if (!g_active) return;
  rt_point();
  for (;;) { LockT &k = g_locks[l]; if (!k.owner) { k.owner = cur; return; } block_on(l); }
}
void lock_rel(const void *l) { if (!g_active) return; sb_fence(); g_locks[l].owner = nullptr; wake(l); rt_point(); }
char g_crit, g_atomic;
} // namespace

extern "C" {
typedef unsigned long long ull;
void GOMP_parallel(void (*fn)(void *), void *d, unsigned nt, unsigned) { do_parallel(fn, d, nt); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned nt, unsigned) { do_parallel(fn, d, nt); return (unsigned)g_T; }
void GOMP_barrier() { team_barrier(); }
bool GOMP_barrier_cancel() { team_barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { lock_acq(&g_crit); }
void GOMP_critical_end() { lock_rel(&g_crit); }
void GOMP_critical_name_start(void **p) { lock_acq(p); }
void GOMP_critical_name_end(void **p) { lock_rel(p); }
void GOMP_atomic_start() { lock_acq(&g_atomic); }
void GOMP_atomic_end() { lock_rel(&g_atomic); }
bool GOMP_single_start() {
  if (!g_active || !cur->team || cur->team->n == 1) return true;
  rt_point();
  unsigned idx = ++cur->ws; Team *t = cur->team;
  // works are numbered per construct; a single uses the same numbering
  for (auto &w : t->works) if (w.idx == idx) return false;
  Work w; memset(&w, 0, sizeof w); w.idx = idx; t->works.push_back(w); return true;
}
void *GOMP_single_copy_start() { if (GOMP_single_start()) return nullptr; team_barrier(); void *p = cur->team->copypriv; return p; }
void GOMP_single_copy_end(void *d) { if (g_active && cur->team && cur->team->n > 1) { cur->team->copypriv = d; team_barrier(); } }
#define LOOPS(name, kind) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, kind, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); } \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { return uloop_start(up, s, e, i, c, kind, a, b); } \
  bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return uloop_next(a, b); }
LOOPS(static, K_STATIC) LOOPS(dynamic, K_DYN) LOOPS(guided, K_GUIDED) LOOPS(nonmonotonic_dynamic, K_DYN) LOOPS(nonmonotonic_guided, K_GUIDED)
#define RLOOPS(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, K_DYN, a, b); } \
  bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); } \
  bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { return uloop_start(up, s, e, i, 1, K_DYN, a, b); } \
  bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { return uloop_next(a, b); }
RLOOPS(runtime) RLOOPS(nonmonotonic_runtime) RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { team_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { team_barrier(); return false; }
namespace { struct PL { void (*fn)(void *); void *d; }; }
// combined parallel loops: the outlined function calls GOMP_loop_*_next itself
struct ParLoop { void (*fn)(void *); void *d; long s, e, i, c; int k; };
static void parloop_tramp(void *p) {
  ParLoop *l = (ParLoop *)p; 
  if (g_active && cur->team && cur->team->n > 1) { bool c; Work *w = work_share(&c); if (c) { w->next = l->s; w->end = l->e; w->incr = l->i; w->chunk = l->c; w->kind = l->k; } cur->st_init = 0; cur->st_i = 0; }
  else { cur->st_init = 3; cur->st_i = l->s; cur->st_end = l->e; }
  l->fn(l->d);
}
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { ParLoop l = {fn, d, s, e, i, c, kind}; (void)l; \
  static ParLoop keep[8]; static int ki; ParLoop *p = &keep[ki++ & 7]; *p = l; do_parallel(parloop_tramp, p, nt); }
PLOOP(static, K_STATIC) PLOOP(dynamic, K_DYN) PLOOP(guided, K_GUIDED) PLOOP(nonmonotonic_dynamic, K_DYN) PLOOP(nonmonotonic_guided, K_GUIDED)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, s, e, i, 1, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, nt, s, e, i, 1, f); }
unsigned GOMP_sections_next();
unsigned GOMP_sections_start(unsigned n) { long a, b; if (loop_start(1, (long)n + 1, 1, 1, K_DYN, &a, &b)) { if (cur->st_init == 2) { cur->st_i = 1; cur->st_end = (long)n; } return (unsigned)a; } return 0; }
unsigned GOMP_sections_next() { if (cur->st_init == 2) { if (cur->st_i < cur->st_end) return (unsigned)++cur->st_i; return 0; } long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { team_barrier(); }
void GOMP_sections_end_nowait() {}
struct ParSec { void (*fn)(void *); void *d; unsigned n; };
static void parsec_tramp(void *p) { ParSec *l = (ParSec *)p; 
  if (g_active && cur->team && cur->team->n > 1) { bool c; Work *w = work_share(&c); if (c) { w->next = 1; w->end = (long)l->n + 1; w->incr = 1; w->chunk = 1; w->kind = K_DYN; } cur->st_init = 0; cur->st_i = 0; }
  else { cur->st_init = 2; cur->st_i = 0; cur->st_end = (long)l->n; }
  l->fn(l->d); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) { static ParSec keep[8]; static int ki; ParSec *p = &keep[ki++ & 7]; p->fn = fn; p->d = d; p->n = n; do_parallel(parsec_tramp, p, nt); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
  if (cpy) { char *b = (char *)alloca((size_t)(size + align)); b = (char *)(((uintptr_t)b + (uintptr_t)align - 1) & ~(uintptr_t)(align - 1)); cpy(b, data); fn(b); } else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}

int omp_get_thread_num() { return g_active && cur->team ? cur->tid : 0; }
int omp_get_num_threads() { return g_active && cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { return g_active && cur->level > 0 ? g_T : g_T; }
int omp_get_num_procs() { return g_T; }
int omp_get_thread_limit() { return MAXF - 1; }
int omp_in_parallel() { return g_active && g_multi && cur->level > 0; }
void omp_set_num_threads(int n) { if (n >= 1) g_T = std::min(n, MAXF - 1); }
void omp_set_dynamic(int d) { g_dyn = d; }
int omp_get_dynamic() { return g_dyn; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return g_active ? cur->level : 0; }
int omp_get_active_level() { return g_active && g_multi && cur->level > 0 ? 1 : 0; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
double omp_get_wtime() { if (!g_active) return 0; g_cd--; return 1000.0 + (double)sim::now() * 1e-8; }
double omp_get_wtick() { return 1e-8; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
void omp_init_lock(void *l) { g_locks.erase(l); }
void omp_destroy_lock(void *l) { g_locks.erase(l); }
void omp_set_lock(void *l) { lock_acq(l); }
void omp_unset_lock(void *l) { lock_rel(l); }
int omp_test_lock(void *l) { if (!g_active) return 1; rt_point(); if (g_locks[l].owner) return 0; g_locks[l].owner = cur; return 1; }
}

// ------------------------------------------------------------------ allocator
namespace {
enum AKind { A_MALLOC, A_NEW, A_NEWA, A_MMAP, A_HARNESS };
struct Hdr { u64 magic, size, serial; u32 kind, state; const void *pc; };
const u64 MAGIC = 0x51d0c0de5a11a5ull;
uintptr_t g_brk; u64 g_serial; u64 g_live_n, g_live_b;
struct Blk { uintptr_t p; };
std::vector<Hdr *> g_blocks; // by serial
int g_poison; Rng g_prng; int g_pad;
int g_fail_after, g_alloc_failed; uintptr_t g_brk_max = ARENA;

void set_shadow(uintptr_t a, size_t n, u8 v) { memset(shadow + ((a - ARENA) >> 3), v, (n + 7) >> 3); }
void open_shadow(uintptr_t a, size_t n) { memset(shadow + ((a - ARENA) >> 3), 0, n >> 3); if (n & 7) shadow[(a - ARENA + n) >> 3] = (u8)(n & 7); }

void fill(void *p, size_t n) {
  if (n > 16384 && g_poison >= 3) { fill(p, 4096); for (size_t i = 4096; i < n; i += 4096) memcpy((char *)p + i, p, std::min<size_t>(4096, n - i)); return; }
  switch (g_poison) {
  case 0: memset(p, 0, n); break;
  case 1: memset(p, 0xff, n); break;
  case 2: memset(p, 0xa5, n); break;
  case 3: { u32 *q = (u32 *)p; size_t i = 0; for (; i + 1 <= n / 4; ++i) q[i] = g_prng.below(64); memset(q + i, 1, n & 3); break; }
  default: { u32 *q = (u32 *)p; size_t i = 0; for (; i + 1 <= n / 4; ++i) q[i] = 0x7fffffffu - (u32)(g_prng.next() & 7); memset(q + i, 0x7f, n & 3); }
  }
}
void *arena_alloc(size_t n, size_t align, int kind, const void *pc, bool zero) {
  if (!g_active && kind != A_HARNESS) { /* before a run (prewarm): permanent arena part */ }
  if (g_active && g_fail_after > 0 && --g_fail_after == 0 && kind != A_HARNESS) { sim::fault("alloc-failure"); ++g_alloc_failed; return nullptr; }
  if (align < 16) align = 16;
  if (n > (256ull << 20)) return nullptr;
  uintptr_t p = (g_brk + 64 + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
  if (g_pad && align < 64) p += 16 * (g_prng.next() % 3);
  p = (p + align - 1) & ~(uintptr_t)(align - 1);
  if (p + n + 128 > ARENA + ARENA_SZ) { if (g_active) sim::fail("memory-blowup", "simulated memory exhausted (%zu bytes requested)", n); abort(); }
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->magic = MAGIC; h->size = n; h->serial = ++g_serial; h->kind = (u32)kind; h->state = 1; h->pc = pc;
  open_shadow(p, n);
  g_blocks.push_back(h);
  if (n > (1u << 20)) { // large blocks: fresh zero pages in the middle, so that untouched parts cost nothing
    const size_t edge = 96 << 10; uintptr_t a = (p + edge + 4095) & ~4095ull, b = (p + n - edge) & ~4095ull;
    madvise((void *)a, b - a, MADV_DONTNEED);
    if (zero) { memset((void *)p, 0, a - p); memset((void *)b, 0, p + n - b); } else { fill((void *)p, a - p); fill((void *)b, p + n - b); }
  } else if (zero) memset((void *)p, 0, n); else fill((void *)p, n);
  g_brk = p + n; if (g_brk > g_brk_max) g_brk_max = g_brk;
  g_live_n++; g_live_b += n;
  return (void *)p;
}
void arena_free(void *v, int kind, const void *pc) {
  if (!v) return;
  uintptr_t p = (uintptr_t)v;
  if (p - ARENA >= ARENA_SZ) { if (g_active) sim::fail("bad-free", "free of an address that was never allocated"); return; }
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  if ((p & 15) || h->magic != MAGIC) sim::fail("bad-free", "free of an address that is not the start of a block");
  if (h->state == 2) sim::fail("double-free", "block of %llu bytes released twice", (unsigned long long)h->size);
  if (h->kind != A_HARNESS) {
    bool ok = (h->kind == (u32)kind);
    if (!ok) sim::fail("alloc-mismatch", "block allocated by %s released by %s", h->kind == A_MALLOC ? "malloc" : h->kind == A_NEW ? "new" : h->kind == A_NEWA ? "new[]" : "mmap", kind == A_MALLOC ? "free" : kind == A_NEW ? "delete" : kind == A_NEWA ? "delete[]" : "munmap");
  }
  h->state = 2;
  set_shadow(p, h->size, 0xFD);
  g_live_n--; g_live_b -= h->size;
  g_wepoch++;
}
const uintptr_t BIG = 0x500000000000ull; bool g_bigs; size_t g_big_n; // at most one mapping beyond the arena
void big_release() { if (!g_big_n) return; munmap((void *)BIG, (g_big_n + 4095) & ~4095ull); g_big_n = 0; g_allowed.pop_back(); }
int g_mmap_fail; sim::MmapStats g_mm; uintptr_t g_virt; size_t g_virt_n; std::vector<sim::BlockOp> g_vops;
uintptr_t g_arena_base0; u64 g_serial0; size_t g_blocks0;
} // namespace

namespace sim {
AllocStats alloc_stats() { return AllocStats{g_live_n, g_live_b}; }
uint64_t alloc_serial() { return g_serial + 1; }
std::string leaks_since(uint64_t serial, int *count) {
  std::string s; int n = 0;
  for (auto h : g_blocks) if (h->serial >= serial && h->state == 1 && h->kind != A_HARNESS) { if (n < 6) { char b[96]; snprintf(b, sizeof b, "%s%llu bytes from 0x%llx", n ? ", " : "", (unsigned long long)h->size, (unsigned long long)(uintptr_t)h->pc); s += b; } n++; }
  if (count) *count = n; return s;
}
bool arena_block(const void *p, size_t *size) {
  for (auto h : g_blocks) { uintptr_t b = (uintptr_t)(h + 1); if (h->state == 1 && (uintptr_t)p >= b && (uintptr_t)p < b + h->size) { if (size) *size = h->size - ((uintptr_t)p - b); return true; } }
  return false;
}
void alloc_fail_after(int n) { g_fail_after = n; }
int alloc_failures() { return g_alloc_failed; }
void *sut_malloc(size_t n, size_t align) { return arena_alloc(n, align, A_HARNESS, nullptr, false); }
void sut_free(void *p) { arena_free(p, A_MALLOC, nullptr); }
bool readable(const void *p, size_t n) {
  uintptr_t off = (uintptr_t)p - ARENA; if (off >= ARENA_SZ || off + n > ARENA_SZ) return n == 0;
  for (uintptr_t o = off; o < off + n;) { u8 s = shadow[o >> 3]; uintptr_t end = std::min(off + n, (o | 7) + 1); if (s != 0 && (s >= 8 || ((end - 1) & 7) >= s)) return false; o = end; }
  return true;
}
void *virtual_range(size_t n) { g_virt = 0x300000000000ull; g_virt_n = n; g_vops.clear(); return (void *)g_virt; }
std::vector<BlockOp> virtual_ops() { return g_vops; }
void big_mappings(bool on) { g_bigs = on; }
void mmap_mode(int f) { g_mmap_fail = f; }
MmapStats mmap_stats() { return g_mm; }
}

extern "C" {
// every harness-side replacement of a library function the system calls
void *sim_malloc(size_t n) { return arena_alloc(n, 16, A_MALLOC, RET, false); }
void *sim_calloc(size_t a, size_t b) { return arena_alloc(a * b, 16, A_MALLOC, RET, true); }
void sim_free(void *p) { arena_free(p, A_MALLOC, RET); }
void *sim_realloc(void *p, size_t n) { void *q = arena_alloc(n, 16, A_MALLOC, RET, false); if (p && q) { Hdr *h = (Hdr *)((uintptr_t)p - sizeof(Hdr)); memcpy(q, p, std::min<size_t>(n, h->size)); arena_free(p, A_MALLOC, RET); } return q; }
int sim_posix_memalign(void **o, size_t al, size_t n) { void *p = arena_alloc(n, al, A_MALLOC, RET, false); if (!p) return ENOMEM; *o = p; return 0; }
void *sim_aligned_alloc(size_t al, size_t n) { return arena_alloc(n, al, A_MALLOC, RET, false); }
void *sim_new(size_t n) { void *p = arena_alloc(n, 16, A_NEW, RET, false); if (!p) throw std::bad_alloc(); return p; }
void *sim_newa(size_t n) { void *p = arena_alloc(n, 16, A_NEWA, RET, false); if (!p) throw std::bad_alloc(); return p; }
void *sim_new_nt(size_t n, const std::nothrow_t &) { return arena_alloc(n, 16, A_NEW, RET, false); }
void *sim_newa_nt(size_t n, const std::nothrow_t &) { return arena_alloc(n, 16, A_NEWA, RET, false); }
void sim_delete(void *p) { arena_free(p, A_NEW, RET); }
void sim_deletea(void *p) { arena_free(p, A_NEWA, RET); }
void sim_delete_sz(void *p, size_t) { arena_free(p, A_NEW, RET); }
void sim_deletea_sz(void *p, size_t) { arena_free(p, A_NEWA, RET); }

void *sim_mmap(void *, size_t n, int, int flags, int fd, off_t) {
  if (fd >= 0 || !(flags & MAP_ANONYMOUS)) { errno = EINVAL; return MAP_FAILED; }
  if (g_active && g_bigs && !g_mmap_fail && n > (1u << 30)) {
    if (g_big_n || n > (64ull << 30)) { errno = ENOMEM; return MAP_FAILED; }
    void *p = mmap((void *)BIG, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) sim::discard("no address space");
    g_big_n = n; g_allowed.push_back({BIG, BIG + ((n + 4095) & ~4095ull)}); g_live_n++; g_live_b += n; g_mm.maps++; return p;
  }
  if (g_mmap_fail && g_active) { g_mm.failed++; sim::fault("mmap-failure"); errno = ENOMEM; return MAP_FAILED; }
  void *p = arena_alloc(n, 4096, A_MMAP, RET, true); if (!p) { errno = ENOMEM; return MAP_FAILED; }
  g_mm.maps++; return p;
}
int sim_munmap(void *p, size_t n) {
  if (g_big_n && (uintptr_t)p == BIG) { if (((g_big_n + 4095) & ~4095ull) != ((n + 4095) & ~4095ull)) sim::fail("bad-free", "munmap of %zu bytes of a %zu byte mapping", n, g_big_n); g_live_n--; g_live_b -= g_big_n; big_release(); g_mm.unmaps++; return 0; }
  Hdr *h = (Hdr *)((uintptr_t)p - sizeof(Hdr));
  if ((uintptr_t)p - ARENA >= ARENA_SZ || h->magic != MAGIC || h->kind != A_MMAP || h->state != 1) { if (g_active) sim::fail("bad-free", "munmap of an address that is not a mapping"); return -1; }
  if (((h->size + 4095) & ~4095ull) != ((n + 4095) & ~4095ull)) sim::fail("bad-free", "munmap of %zu bytes of a %llu byte mapping", n, (unsigned long long)h->size);
  arena_free(p, A_MMAP, RET); g_mm.unmaps++; return 0;
}

static void rng_check(const void *p, size_t n, bool w, const void *pc) { if (!g_active || !n) return; check((uintptr_t)p, 1, w, pc); check((uintptr_t)p + n - 1, 1, w, pc); if ((uintptr_t)p - ARENA < ARENA_SZ) check((uintptr_t)p, n, w, pc); }
static void mem_step(const void *pc, bool w) { if (!g_active) return; if (w) g_wepoch++; if (--g_cd <= 0) hook_slow(pc); if (w) sb_fence(); }
// a range of addresses without memory behind it: block copies and fills into it are recorded, not executed
static bool virt(const void *d, size_t n) { if (!g_virt_n || (uintptr_t)d < g_virt || (uintptr_t)d - g_virt > g_virt_n) return false; if (n > g_virt_n - ((uintptr_t)d - g_virt)) sim::fail("out-of-bounds", "block operation of %zu bytes at offset %zu of %zu", n, (size_t)((uintptr_t)d - g_virt), g_virt_n); return true; }
static void virt_rec(const void *d, const void *s, size_t n, int c) { g_vops.push_back({(size_t)((uintptr_t)d - g_virt), n, s, c}); }
void *sim_memcpy(void *d, const void *s, size_t n) { mem_step(RET, true); if (virt(d, n)) { virt_rec(d, s, n, -1); return d; } rng_check(s, n, false, RET); rng_check(d, n, true, RET); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { mem_step(RET, true); rng_check(s, n, false, RET); rng_check(d, n, true, RET); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { mem_step(RET, true); if (virt(d, n)) { virt_rec(d, nullptr, n, c); return d; } rng_check(d, n, true, RET); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { mem_step(RET, false); rng_check(a, n, false, RET); rng_check(b, n, false, RET); return memcmp(a, b, n); }

void sim_exit(int code) {
  if (g_active) sb_drain();
  if (!g_active) _exit(3);
  if (!g_guard) sim::fail("unexpected-exit", "exit(%d) called", code);
  g_exit_code = code;
  if (cur->id == 0) { for (int i = 1; i < MAXF; ++i) F[i].state = IDLE; g_multi = false; settle(); arm(); siglongjmp(*g_guard, 1); }
  settle(); for (int i = 1; i < MAXF; ++i) F[i].state = IDLE;
  F[0].state = RUNNABLE; g_multi = false; g_pending_exit = true;
  Fiber *o = cur; cur = &F[0]; arm(); sim_ctx_switch(&o->sp, F[0].sp); __builtin_unreachable();
}
void sim_abort() { if (g_active) sim::fail("abort", "abort() called"); abort(); }
void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { const char *s = strrchr(f, '/'); sim::fail("assert", "assertion `%s' failed in %s (%s)", e, fn ? fn : "?", s ? s + 1 : f); (void)l; }
void sim_stack_chk_fail() { sim::fail("stack-smash", "stack buffer overrun"); }
int sim_gettimeofday(struct timeval *tv, void *) { u64 t = sim::now(); if (tv) { tv->tv_sec = 1000 + (long)(t / 1000000); tv->tv_usec = (long)(t % 1000000); } return 0; }
int sim_clock_gettime(int, struct timespec *ts) { u64 t = sim::now(); ts->tv_sec = 1000 + (long)(t / 100000000); ts->tv_nsec = (long)(t % 100000000) * 10; return 0; }
long sim_time(long *p) { long t = 1000 + (long)(sim::now() / 100000000); if (p) *p = t; return t; }
static u64 g_rand;
int sim_rand() { g_rand = g_rand * 6364136223846793005ull + 1442695040888963407ull; return (int)(g_rand >> 33); }
void sim_srand(unsigned s) { g_rand = s; }
int sim_sched_yield() { if (g_active) pause_point(); return 0; }
int sim_usleep(unsigned) { if (g_active) pause_point(); return 0; }

int sim_guard_acquire(char *g) { if (!g_active) { return g[0] == 0; } while (g[0] == 0 && g[1]) pause_point(); if (g[0]) return 0; g[1] = 1; return 1; }
void sim_guard_release(char *g) { sb_fence(); g[0] = 1; g[1] = 0; g_wepoch++; }
void sim_guard_abort(char *g) { g[1] = 0; }
}

namespace sim {
bool guarded(const std::function<void()> &fn, int *code) {
  sigjmp_buf jb; sigjmp_buf *old = g_guard;
  Team *t = cur->team; int tid = cur->tid, level = cur->level; unsigned ws = cur->ws;
  if (sigsetjmp(jb, 0) == 0) {
    g_guard = &jb;
    try { fn(); g_guard = old; return true; } // an uncaught bad_alloc ends the process and says so, if memory really ran out
    catch (const std::bad_alloc &) { if (!g_alloc_failed) { g_guard = old; throw; } g_exit_code = 1; }
  }
  g_guard = old; cur->team = t; cur->tid = tid; cur->level = level; cur->ws = ws; g_locks.clear();
  if (code) *code = g_exit_code;
  return false;
}
}

// ------------------------------------------------------------------ file system
namespace {
std::map<std::string, std::string> g_files;
sim::IoPlan g_plan; bool g_have_plan; Rng g_iorng; int g_opens; long g_wtotal;
sim::IoFired g_io;
struct Cookie { std::string name; size_t pos; bool append, wr; bool werr; };
std::map<FILE *, Cookie *> g_open;
ssize_t ck_read(void *c, char *b, size_t n) {
  Cookie *k = (Cookie *)c; const std::string &d = g_files[k->name]; g_io.reads++;
  size_t left = k->pos < d.size() ? d.size() - k->pos : 0, m = std::min(n, left);
  if (g_have_plan) {
    if (g_plan.fail_read_at >= 0) {
      if ((long)k->pos >= g_plan.fail_read_at) { g_io.read_errors++; sim::fault(g_plan.read_errno == EINTR ? "read-eintr" : "read-error"); errno = g_plan.read_errno; return -1; }
      m = std::min<size_t>(m, (size_t)(g_plan.fail_read_at - (long)k->pos));
    }
    if (g_plan.chunk > 0 && m > 0) { size_t l = g_plan.chunk_random ? 1 + g_iorng.below((u32)g_plan.chunk) : (size_t)g_plan.chunk; if (l < m) { m = l; g_io.short_reads++; sim::fault("short-read"); } }
  }
  memcpy(b, d.data() + k->pos, m); k->pos += m; return (ssize_t)m;
}
ssize_t ck_write(void *c, const char *b, size_t n) {
  Cookie *k = (Cookie *)c; std::string &d = g_files[k->name]; g_io.writes++;
  size_t m = n; bool err = false;
  if (g_have_plan && g_plan.fail_write_at >= 0 && g_wtotal + (long)n > g_plan.fail_write_at) { m = g_plan.fail_write_at > g_wtotal ? (size_t)(g_plan.fail_write_at - g_wtotal) : 0; err = true; }
  if (k->append) k->pos = d.size();
  if (d.size() < k->pos + m) d.resize(k->pos + m);
  memcpy(&d[k->pos], b, m); k->pos += m; g_wtotal += (long)m;
  if (err) { g_io.write_errors++; sim::fault(m ? "torn-write" : "write-error"); errno = g_plan.write_errno; return m ? (ssize_t)m : 0; }
  return (ssize_t)m;
}
int ck_seek(void *c, off64_t *o, int w) {
  Cookie *k = (Cookie *)c; long base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)k->pos : (long)g_files[k->name].size();
  if (base + *o < 0) { errno = EINVAL; return -1; } k->pos = (size_t)(base + *o); *o = (off64_t)k->pos; return 0;
}
int ck_close(void *c) {
  Cookie *k = (Cookie *)c; bool f = g_have_plan && g_plan.close_fails && k->wr; delete k;
  if (f) { g_io.close_errors++; sim::fault("close-error"); errno = EIO; return -1; } return 0;
}
bool is_std(FILE *f) { return f == stdout || f == stderr; }
std::string *g_stdout;
int say(const char *fmt, va_list ap) { char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); if (g_stdout && n > 0) g_stdout->append(b, std::min<size_t>((size_t)n, sizeof b - 1)); return n; }
void said(FILE *f) { if (f == stderr) g_io.stderr_messages++; }
void io_step() { if (g_active) { sb_fence(); g_cd -= 20; if (g_cd <= 0) hook_slow(nullptr); } }
void file_ok(FILE *f) { if (!g_active) return; if (!f) sim::fail("null-access", "stdio call on a null stream"); if (f == stdin || is_std(f)) return; if (!g_open.count(f)) sim::fail("closed-stream", "stdio call on a stream that is not open"); }
size_t remaining(FILE *f) { auto it = g_open.find(f); if (it == g_open.end()) return 0; long p = ftell(f); size_t s = g_files[it->second->name].size(); return p >= 0 && (size_t)p < s ? s - (size_t)p : 0; }
int scan_check(const char *fmt, va_list ap, int conv, const void *pc) {
  int done = 0;
  for (const char *p = fmt; *p && done < conv; ++p) {
    if (*p != '%') continue; ++p; if (*p == '%') continue;
    bool sup = false; if (*p == '*') { sup = true; ++p; }
    int width = 0; while (*p >= '0' && *p <= '9') width = width * 10 + (*p++ - '0');
    int l = 0, h = 0; while (*p == 'l' || *p == 'h' || *p == 'z' || *p == 'L') { if (*p == 'l' || *p == 'z') l++; if (*p == 'h') h++; if (*p == 'L') l = 3; ++p; }
    size_t sz = 4; bool str = false;
    switch (*p) { case 'd': case 'i': case 'u': case 'x': sz = l ? 8 : h ? (h > 1 ? 1 : 2) : 4; break; case 'g': case 'f': case 'e': case 'a': sz = l == 3 ? 16 : l ? 8 : 4; break; case 's': str = true; break; case 'c': sz = (size_t)(width ? width : 1); break; case '[': str = true; while (*p && *p != ']') ++p; break; case 'n': sz = 4; break; default: break; }
    if (sup) continue;
    void *q = va_arg(ap, void *); 
    rng_check(q, str ? strlen((char *)q) + 1 : sz, true, pc); done++;
  }
  return conv;
}
} // namespace

namespace sim {
void fs_reset() { g_stdout = nullptr; g_files.clear(); g_have_plan = false; g_opens = 0; g_wtotal = 0; memset(&g_io, 0, sizeof g_io); }
void fs_put(const std::string &n, const std::string &d) { g_files[n] = d; }
bool fs_get(const std::string &n, std::string *d) { auto i = g_files.find(n); if (i == g_files.end()) return false; *d = i->second; return true; }
void fs_plan(const IoPlan &p) { g_plan = p; g_have_plan = true; g_iorng.s = p.seed; g_opens = 0; g_wtotal = 0; }
void fs_plan_clear() { g_have_plan = false; }
void stdout_to(std::string *s) { g_stdout = s; }
int fs_open_files() { return (int)g_open.size(); }
IoFired fs_fired() { return g_io; }
}

extern "C" {
FILE *sim_fopen(const char *name, const char *mode) {
  if (!g_active) return nullptr;
  io_step(); g_io.opens++;
  if (g_have_plan && g_plan.fail_open >= 0 && g_opens++ == g_plan.fail_open) { g_io.open_errors++; sim::fault("open-failure"); errno = EMFILE; return nullptr; }
  bool w = mode[0] == 'w', a = mode[0] == 'a', plus = strchr(mode, '+') != nullptr;
  if (!w && !a && !g_files.count(name)) { errno = ENOENT; return nullptr; }
  if (w) g_files[name].clear(); else if (a) g_files[name];
  Cookie *k = new Cookie{name, 0, a, w || a || plus, false};
  cookie_io_functions_t io = {(w || a) && !plus ? nullptr : ck_read, (w || a || plus) ? ck_write : nullptr, ck_seek, ck_close};
  FILE *f = fopencookie(k, mode, io);
  if (g_have_plan && g_plan.buf > 0) setvbuf(f, nullptr, _IOFBF, (size_t)g_plan.buf);
  g_open[f] = k; return f;
}
int sim_fclose(FILE *f) { io_step(); if (is_std(f)) return 0; if (!f) sim::fail("null-access", "fclose(NULL)"); auto it = g_open.find(f); if (it == g_open.end()) { if (g_active) sim::fail("double-close", "fclose of a stream that is not open"); return EOF; } g_open.erase(it); return fclose(f); }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = say(fmt, ap); va_end(ap); io_step(); return n; }
int sim_vprintf(const char *fmt, va_list ap) { io_step(); return say(fmt, ap); }
int sim_puts(const char *s) { io_step(); if (g_stdout) *g_stdout += s, *g_stdout += '\n'; return 1; }
int sim_putchar(int c) { io_step(); if (g_stdout) *g_stdout += (char)c; return c; }
int sim_fprintf(FILE *f, const char *fmt, ...) { io_step(); file_ok(f); said(f); va_list ap; va_start(ap, fmt); int n = f == stdout ? say(fmt, ap) : is_std(f) ? vsnprintf(nullptr, 0, fmt, ap) : vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_fputs(const char *s, FILE *f) { io_step(); file_ok(f); said(f); if (f == stdout && g_stdout) *g_stdout += s; return is_std(f) ? 1 : fputs(s, f); }
int sim_fputc(int c, FILE *f) { io_step(); file_ok(f); said(f); return is_std(f) ? c : fputc(c, f); }
size_t sim_fwrite(const void *p, size_t s, size_t n, FILE *f) { io_step(); file_ok(f); rng_check(p, s * n, false, RET); said(f); return is_std(f) ? n : fwrite(p, s, n, f); }
size_t sim_fread(void *p, size_t s, size_t n, FILE *f) {
  io_step(); file_ok(f); if (!s || !n) return 0;
  // read element-exact through a bounce buffer so that a caller buffer that is
  // too small is reported instead of overwritten
  size_t want = n > SIZE_MAX / s ? SIZE_MAX : s * n; size_t rem = remaining(f); 
  size_t cap = std::min(want, rem); if (cap) rng_check(p, cap, true, RET);
  g_cd -= (int64_t)std::min<size_t>(cap / 8, 1000); g_wepoch++;
  return fread(p, s, n, f);
}
char *sim_fgets(char *b, int n, FILE *f) { io_step(); file_ok(f); char *r = fgets(b, n, f); if (r) rng_check(b, strlen(b) + 1, true, RET); g_wepoch++; return r; }
char *sim_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); rng_check(s, l, false, RET); char *q = (char *)arena_alloc(l + 1, 16, A_MALLOC, RET, false); if (q) { memcpy(q, s, l); q[l] = 0; } return q; }
char *sim_strdup(const char *s) { size_t l = strlen(s) + 1; rng_check(s, l, false, RET); char *q = (char *)arena_alloc(l, 16, A_MALLOC, RET, false); if (q) memcpy(q, s, l); return q; }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) {
  io_step(); file_ok(f); char *b = nullptr; size_t bn = 0; ssize_t r = getdelim(&b, &bn, d, f);
  if (r >= 0) {
    if (!*l || *n < (size_t)r + 1) { char *q = (char *)arena_alloc((size_t)r + 1, 16, A_MALLOC, RET, false); if (!q) { free(b); errno = ENOMEM; return -1; } if (*l) arena_free(*l, A_MALLOC, RET); *l = q; *n = (size_t)r + 1; }
    rng_check(*l, (size_t)r + 1, true, RET); memcpy(*l, b, (size_t)r + 1);
  }
  free(b); g_wepoch++; return r;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
int sim_fscanf(FILE *f, const char *fmt, ...) { io_step(); file_ok(f); va_list ap, a2; va_start(ap, fmt); va_copy(a2, ap); int n = vfscanf(f, fmt, ap); if (n > 0 && g_active) scan_check(fmt, a2, n, RET); va_end(a2); va_end(ap); g_wepoch++; return n; }
int sim_sscanf(const char *s, const char *fmt, ...) { io_step(); va_list ap, a2; va_start(ap, fmt); va_copy(a2, ap); int n = vsscanf(s, fmt, ap); if (n > 0 && g_active) scan_check(fmt, a2, n, RET); va_end(a2); va_end(ap); g_wepoch++; return n; }
int sim_fseek(FILE *f, long o, int w) { io_step(); file_ok(f); return fseek(f, o, w); }
long sim_ftell(FILE *f) { io_step(); file_ok(f); return ftell(f); }
void sim_rewind(FILE *f) { io_step(); file_ok(f); rewind(f); }
int sim_feof(FILE *f) { io_step(); file_ok(f); return feof(f); }
int sim_ferror(FILE *f) { io_step(); file_ok(f); return ferror(f); }
void sim_clearerr(FILE *f) { io_step(); file_ok(f); clearerr(f); }
int sim_fflush(FILE *f) { io_step(); if (!f || is_std(f)) return 0; file_ok(f); return fflush(f); }
int sim_getc(FILE *f) { io_step(); file_ok(f); return getc(f); }
int sim_ungetc(int c, FILE *f) { io_step(); file_ok(f); return ungetc(c, f); }
void sim_perror(const char *) { io_step(); said(stderr); }
int sim_remove(const char *n) { io_step(); return g_files.erase(n) ? 0 : (errno = ENOENT, -1); }
int sim_rename(const char *a, const char *b) { io_step(); auto i = g_files.find(a); if (i == g_files.end()) { errno = ENOENT; return -1; } std::string d = i->second; g_files.erase(i); g_files[b] = d; return 0; }
}

// ------------------------------------------------------------------ run loop
namespace {
std::vector<char> g_snap;
void restore_globals() { memcpy(__start_sut_data, g_snap.data(), g_snap.size()); }

struct Cfg { u64 seed = 1, start = 0, stride = 1, count = 1; double tlimit = 1e9; std::string out, replay, known; bool shrink = false, twice = false, verbose = false; u64 limit = 0; int forceT = 0; };
Cfg cfg;
u64 g_run_seed;
u64 g_max_steps = 0;
u64 g_strat_hist[S_NSTRAT];

void setup_strategy() {
  // drawn from the schedule PRNG, not from the choice stream
  int s = (int)g_srng.below(20);
  g_conf = 0; g_vol = 0; g_mean = 1e18; g_cps.clear(); g_cp_i = 0; g_prio_low = 0;
  static const double means[] = {2, 5, 15, 50, 200, 1000, 5000};
  static const u32 vols[] = {0, 4, 24, 96};
  if (s < 8) { g_strat = S_RAND; g_mean = means[g_srng.below(7)]; g_vol = vols[g_srng.below(4)]; }
  else if (s < 10) { g_strat = S_RR; g_mean = 1 + g_srng.below(400); }
  else if (s < 14) { g_strat = S_PCT; int d = (int)g_srng.below(6); int lg = 6 + (int)g_srng.below(10); for (int i = 0; i < d; ++i) g_cps.push_back(1 + g_srng.next() % (1ull << lg)); std::sort(g_cps.begin(), g_cps.end()); }
  else if (s < 19) { g_strat = S_CONFLICT; g_conf = 1; g_confp = 4u << g_srng.below(6); g_mean = g_srng.below(2) ? 300 : 1e15; g_vol = vols[g_srng.below(3)]; }
  else { g_strat = S_SERIAL; }
  g_next_preempt = UINT64_MAX;
}

void reset_run() {
  for (auto &o : g_open) { g_have_plan = false; fclose(o.first); }
  g_open.clear(); g_locks.clear(); big_release(); g_bigs = false;
  restore_globals();
  // arena: everything above the prewarm part becomes unaddressable again
  if (g_brk_max > g_arena_base0) set_shadow((g_arena_base0 + 7) & ~7ull, g_brk_max - g_arena_base0 + 64, 0xFA);
  g_brk = g_arena_base0; g_brk_max = g_brk; g_serial = g_serial0; g_blocks.resize(g_blocks0); g_live_n = g_live_b = 0;
  for (auto &t : teams) { t.used = false; t.arrived = t.joined = 0; }
  for (int i = 0; i < g_nf; ++i) { int id = i; u64 z = 0; Fiber &f = F[i]; void *sp = nullptr; memset(&f, 0, sizeof f); f.id = id; f.state = IDLE; f.steps = z; f.sp = sp; 
    size_t depth = i == 0 ? 49152 : 16384; memset((char *)stack_top(i) - depth, 0x5a, depth); }
  g_total = g_par_steps = g_wepoch = 0; g_switches = g_preempts = g_quiet = g_quiet_epoch = 0; g_trace = g_sched_hash = g_hist = 0; g_runtag = (g_runtag + 1) & 0xffffff;
  g_step_limit = 40000000ull; g_T = 1; g_dyn = 0; g_guard = nullptr; g_pending_exit = false; g_fail_after = g_alloc_failed = 0; g_mmap_fail = 0; g_virt_n = 0; g_vops.clear(); memset(&g_mm, 0, sizeof g_mm);
  g_rand = 12345; g_run_faults = 0; g_case_hash = 0; g_cout.clear(); g_cpos = 0; g_log.clear();
  for (int i = 0; i < MAXF; ++i) SB[i].n = 0;
  g_tso = 0; g_pend = 0; g_nf = 1; spmp_sim_par_thr = 65536; spmp_sim_level_thresh = 64;
  for (auto &i : g_script_i) i = 0;
  sim::fs_reset();
  g_res = Result();
  cur = &F[0]; g_multi = false;
}
volatile bool g_done;
} // namespace

void sim_main_fiber() {
  if (sim::chance(1, 3)) g_tso = 1 + sim::pick(65535);
  g_poison = (int)sim::pick(5); g_prng.s = sim::pick(1000); g_pad = (int)sim::pick(2);
  try { prop_case(); }
  catch (const std::bad_alloc &) { sim::fail("exception", "uncaught std::bad_alloc"); }
  catch (const std::exception &e) { sim::fail("exception", "uncaught exception %s", e.what()); }
  settle(); g_done = true; to_host();
}

namespace {
u64 g_tick; // step count at the previous tick of the watchdog
void arm_watchdog(int s) { g_tick = 0; struct itimerval it = {{s, 0}, {s, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
void on_sig(int sig) {
  if (!g_active) { signal(sig, SIG_DFL); raise(sig); return; }
  if (sig == SIGVTALRM) { u64 now = g_total + (u64)(g_cd_init - g_cd) + 1; if (now != g_tick) { g_tick = now; return; } }
  g_active = false; g_multi = false;
  g_res.failed = true; g_res.bt.clear();
  if (sig == SIGVTALRM) { g_res.cls = "hang"; g_res.msg = "no simulated step completes (loop without progress)"; }
  else { g_res.cls = "segv"; g_res.msg = std::string("fatal signal ") + strsignal(sig); }
  siglongjmp(g_host, 1);
}

// runs one case; strategy and inputs prepared by the caller
void run_one() {
  g_done = false;
  F[0].state = RUNNABLE; F[0].tid = 0; init_stack(&F[0]);
  g_cd = g_cd_init = 20000;
  if (sigsetjmp(g_host, 1) == 0) {
    arm_watchdog(5);
    g_active = true;
    void *dummy; sim_ctx_switch(&dummy, F[0].sp);
  }
  arm_watchdog(0);
  g_active = false; g_multi = false;
  u64 d = (u64)(g_cd_init - g_cd); g_total += d; g_cd = g_cd_init = 20000;
  if (g_delayed) { g_probes["runs-with-delayed-stores"]++; g_probes["delayed-stores"] += g_delayed; g_delayed = 0; }
  g_trace = mix(g_trace, g_total); g_trace = mix(g_trace, g_hist); g_trace = mix(g_trace, g_case_hash);
  for (char c : g_res.cls) g_trace = mix(g_trace, (u8)c);
  g_res.choices = g_cout; g_res.sched = g_log; g_res.T = g_T;
}
void run_explore(u64 idx) {
  reset_run();
  Rng r; r.s = cfg.seed * 0x9e3779b97f4a7c15ull + 0x1234567; r.next(); r.s ^= idx * 0xd1342543de82ef95ull; r.next();
  g_run_seed = r.next(); g_crng.s = r.next(); g_srng.s = r.next(); g_creplay = false;
  setup_strategy(); g_strat_hist[g_strat]++;
  run_one();
}
void run_replay(const std::vector<u32> &ch, const std::vector<Dec> &sc) {
  reset_run();
  g_creplay = true; g_cin = ch; g_strat = S_REPLAY; g_conf = 0; g_vol = 0; g_next_preempt = UINT64_MAX;
  for (auto &v : g_script) v.clear();
  for (auto &d : sc) if (d.f >= 0 && d.f < MAXF) g_script[d.f].push_back({d.step, d.to});
  for (auto &v : g_script) std::sort(v.begin(), v.end());
  run_one();
}
std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32 || (u8)c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (u8)c); o += b; } else o += c; } return o; }
void dump_result(FILE *o, const Result &r, u64 idx) {
  fprintf(o, "{\"property\":\"%s\",\"run\":%llu,\"run_seed\":%llu,\"failed\":%s,\"class\":\"%s\",\"message\":\"%s\",\"threads\":%d,\"trace_hash\":\"%016llx\",\"steps\":%llu,\"strategy\":%d,\"note\":\"%s\",\"choices\":[",
    prop_id, (unsigned long long)idx, (unsigned long long)g_run_seed, r.failed ? "true" : "false", jesc(r.cls).c_str(), jesc(r.msg).c_str(), r.T, (unsigned long long)g_trace, (unsigned long long)g_total, g_strat, jesc(r.note).c_str());
  for (size_t i = 0; i < r.choices.size(); ++i) fprintf(o, "%s%u", i ? "," : "", r.choices[i]);
  fprintf(o, "],\"schedule\":[");
  for (size_t i = 0; i < r.sched.size(); ++i) fprintf(o, "%s[%d,%llu,%d]", i ? "," : "", r.sched[i].f, (unsigned long long)r.sched[i].step, r.sched[i].to);
  fprintf(o, "],\"backtrace\":[");
  for (size_t i = 0; i < r.bt.size(); ++i) fprintf(o, "%s\"0x%llx\"", i ? "," : "", (unsigned long long)(uintptr_t)r.bt[i]);
  fprintf(o, "]}\n"); fflush(o);
}

// replay file: line "choices a b c", line "schedule f:s:t ..."
bool load_replay(const char *fn, std::vector<u32> &ch, std::vector<Dec> &sc) {
  FILE *f = fopen(fn, "r"); if (!f) return false; 
  char w[64]; 
  while (fscanf(f, "%63s", w) == 1) {
    if (!strcmp(w, "choices")) { size_t n; if (fscanf(f, "%zu", &n) != 1) break; for (size_t i = 0; i < n; ++i) { u32 v; if (fscanf(f, "%u", &v) != 1) break; ch.push_back(v); } }
    else if (!strcmp(w, "schedule")) { size_t n; if (fscanf(f, "%zu", &n) != 1) break; for (size_t i = 0; i < n; ++i) { int a, b; unsigned long long s; if (fscanf(f, "%d %llu %d", &a, &s, &b) != 3) break; sc.push_back(Dec{a, s, b}); } }
    else { int c; while ((c = fgetc(f)) != EOF && c != '\n'); }
  }
  fclose(f); return true;
}
double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + t.tv_nsec * 1e-9; }

// in-process minimisation: same class must persist
void shrink(std::vector<u32> &ch, std::vector<Dec> &sc, const std::string &cls, double budget) {
  double t0 = wall();
  auto ok = [&](const std::vector<u32> &c, const std::vector<Dec> &s, std::vector<u32> *oc, std::vector<Dec> *os) {
    run_replay(c, s); if (!(g_res.failed && g_res.cls == cls)) return false;
    if (oc) *oc = g_res.choices; if (os) *os = g_res.sched; return true; };
  bool progress = true;
  while (progress && wall() - t0 < budget) {
    progress = false;
    // schedule: ddmin by chunk removal
    for (size_t k = std::max<size_t>(1, sc.size() / 2); k >= 1 && !sc.empty(); k /= 2) {
      for (size_t i = 0; i < sc.size() && wall() - t0 < budget;) {
        std::vector<Dec> s2 = sc; s2.erase(s2.begin() + (long)i, s2.begin() + (long)std::min(sc.size(), i + k));
        std::vector<Dec> os;
        if (ok(ch, s2, nullptr, &os)) { sc = os.size() <= s2.size() ? os : s2; progress = true; } else i += k;
      }
      if (k == 1) break;
    }
    // choices: drop tail / chunks, zero, halve
    for (size_t k = std::max<size_t>(1, ch.size() / 2); k >= 1 && !ch.empty(); k /= 2) {
      for (size_t i = 0; i < ch.size() && wall() - t0 < budget;) {
        std::vector<u32> c2 = ch; c2.erase(c2.begin() + (long)i, c2.begin() + (long)std::min(ch.size(), i + k));
        std::vector<u32> oc; std::vector<Dec> os;
        if (ok(c2, sc, &oc, &os) && oc.size() < ch.size()) { ch = oc; sc = os; progress = true; } else i += k;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < ch.size() && wall() - t0 < budget; ++i) {
      while (ch[i] > 0 && wall() - t0 < budget) {
        bool got = false; u32 cand[3] = {0, ch[i] / 2, ch[i] - 1};
        for (u32 v : cand) { if (v >= ch[i]) continue; std::vector<u32> c2 = ch; c2[i] = v; std::vector<u32> oc; std::vector<Dec> os; if (ok(c2, sc, &oc, &os) && (oc.size() < ch.size() || (oc.size() == ch.size() && oc < ch))) { ch = oc; sc = os; got = true; progress = true; break; } }
        if (!got || i >= ch.size()) break;
      }
    }
  }
}
void build_allowed() {
  FILE *f = fopen("/proc/self/maps", "r"); char line[1024]; g_allowed.clear();
  while (f && fgets(line, sizeof line, f)) {
    unsigned long long a, b; char perm[8]; int n = 0; if (sscanf(line, "%llx-%llx %7s %*s %*s %*s %n", &a, &b, perm, &n) < 3) continue;
    const char *path = line + n; if (perm[0] != 'r') continue;
    // images (this program, shared libraries) but not heap, stack or anonymous maps
    if (strchr(path, '/') && !strstr(path, "(deleted)")) g_allowed.push_back({a, b});
  }
  if (f) fclose(f);
  g_allowed.push_back({(uintptr_t)&__bss_start, (uintptr_t)&_end});
  // libc .bss (stdio structs) lives in an anonymous map right after the image: allow by locale of stdout
  uintptr_t s = (uintptr_t)stdout; g_allowed.push_back({s & ~4095ull, (s & ~4095ull) + 8192});
}
void dump_set(const std::string &fn, const std::unordered_set<u64> &s) { FILE *f = fopen(fn.c_str(), "wb"); for (u64 v : s) fwrite(&v, 8, 1, f); fclose(f); }
} // namespace

// which blocks of the system ran (only in builds made by tools/coverage.py)
static unsigned char g_pcs[16 << 20];
extern "C" void __sanitizer_cov_trace_pc() { uintptr_t p = (uintptr_t)__builtin_return_address(0) - 0x400000; if (p < sizeof g_pcs) g_pcs[p] = 1; }
static void dump_pcs() { const char *n = getenv("SPMP_SIM_COV_OUT"); FILE *f = n ? fopen(n, "w") : nullptr; if (!f) return; for (size_t i = 0; i < sizeof g_pcs; ++i) if (g_pcs[i]) fprintf(f, "%zx\n", i + 0x400000); fclose(f); }

int main(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") cfg.seed = strtoull(nxt().c_str(), nullptr, 10); else if (a == "--start") cfg.start = strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--stride") cfg.stride = strtoull(nxt().c_str(), nullptr, 10); else if (a == "--count") cfg.count = strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--time") cfg.tlimit = atof(nxt().c_str()); else if (a == "--out") cfg.out = nxt(); else if (a == "--replay") cfg.replay = nxt();
    else if (a == "--known") cfg.known = nxt(); else if (a == "--shrink") cfg.shrink = true; else if (a == "--hashes") cfg.twice = true; else if (a == "-v") cfg.verbose = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  auto map = [](uintptr_t a, size_t n) { void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (p != (void *)a) { perror("mmap"); _exit(2); } };
  map(ARENA, ARENA_SZ); map(SHADOW, ARENA_SZ >> 3); map(STACKS, STACKS_SZ);
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate([] { if (g_active) sim::fail("exception", "uncaught exception in the system"); abort(); });
  { void *b[4]; backtrace(b, 4); } // load libgcc now
  g_sut_lo = (uintptr_t)__start_sut_data; g_sut_hi = (uintptr_t)__stop_sut_data;
  g_brk = ARENA + 4096; g_brk_max = g_brk;
  memset(shadow, 0xFA, 1 << 16);
  prop_setup();
  g_brk = (g_brk + 4095) & ~4095ull; g_arena_base0 = g_brk; g_serial0 = g_serial; g_blocks0 = g_blocks.size();
  g_snap.assign(__start_sut_data, __stop_sut_data);
  build_allowed();

  if (!cfg.replay.empty()) {
    std::vector<u32> ch; std::vector<Dec> sc; if (!load_replay(cfg.replay.c_str(), ch, sc)) { fprintf(stderr, "cannot read %s\n", cfg.replay.c_str()); return 2; }
    run_replay(ch, sc);
    if (cfg.shrink && g_res.failed) {
      std::string cls = g_res.cls; ch = g_res.choices; sc = g_res.sched;
      shrink(ch, sc, cls, cfg.tlimit > 1e8 ? 20 : cfg.tlimit);
      run_replay(ch, sc);
    }
    dump_result(stdout, g_res, 0);
    return g_res.failed ? 1 : 0;
  }

  std::vector<std::string> known; 
  if (!cfg.known.empty()) { FILE *f = fopen(cfg.known.c_str(), "r"); char b[1024]; while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (*b) known.push_back(b); } if (f) fclose(f); }
  double t0 = wall(); u64 runs = 0, evals = 0, steps = 0, psteps = 0, sw = 0, pre = 0, idx = cfg.start, frun = 0; std::map<std::string, u64> known_hits; std::map<std::string, u64> known_run;
  FILE *hf = nullptr; if (cfg.twice) hf = fopen((cfg.out + ".hashes").c_str(), "w");
  FILE *vf = nullptr; std::vector<std::string> samples; u64 thr_hist[MAXF] = {0}; bool viol = false;
  for (u64 k = 0; k < cfg.count; ++k, idx += cfg.stride) {
    if ((k & 7) == 0 && wall() - t0 > cfg.tlimit) break;
    run_explore(idx); runs++;
    if (hf) fprintf(hf, "%llu %016llx\n", (unsigned long long)idx, (unsigned long long)g_trace);
    steps += g_total; psteps += g_par_steps; sw += g_switches; pre += g_preempts; if (g_total > g_max_steps) g_max_steps = g_total;
    if (cfg.verbose) fprintf(stderr, "run %llu T=%d strat=%d steps=%llu sw=%llu pre=%llu %s %s | %s\n", (unsigned long long)idx, g_T, g_strat, (unsigned long long)g_total, (unsigned long long)g_switches, (unsigned long long)g_preempts, g_res.cls.c_str(), g_res.msg.c_str(), g_res.note.c_str());
    if (g_res.discarded) continue;
    evals++; thr_hist[g_T]++; if (g_run_faults) frun++;
    if (g_preempts || g_log.size() || g_run_faults) g_distinct.insert(mix(mix(g_case_hash, g_sched_hash), 1));
    g_scheds.insert(g_sched_hash);
    if (samples.size() < 3 && (g_preempts || g_run_faults) && !g_res.note.empty()) { char b[160]; snprintf(b, sizeof b, "run %llu: threads=%d preemptions=%llu switches=%llu steps=%llu faults=%llu | ", (unsigned long long)idx, g_T, (unsigned long long)g_preempts, (unsigned long long)g_switches, (unsigned long long)g_total, (unsigned long long)g_run_faults); samples.push_back(b + g_res.note.substr(0, 400)); }
    if (g_res.failed) {
      std::string sig = g_res.cls + ": " + g_res.msg; bool kn = false;
      for (auto &s : known) if (sig.find(s) != std::string::npos) { known_hits[s]++; known_run[s] = idx; kn = true; break; }
      if (kn) continue;
      if (!vf) vf = fopen((cfg.out + ".viol").c_str(), "w");
      dump_result(vf, g_res, idx); viol = true; break;
    }
  }
  if (hf) fclose(hf);
  if (vf) fclose(vf);
  dump_pcs();
  if (!cfg.out.empty()) {
    FILE *o = fopen((cfg.out + ".json").c_str(), "w");
    fprintf(o, "{\"runs\":%llu,\"evaluations\":%llu,\"steps\":%llu,\"parallel_steps\":%llu,\"max_steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"runs_with_faults\":%llu,\"distinct\":%zu,\"schedules\":%zu,\"states\":%zu,\"preempt_sites\":%zu,\"wall\":%.3f,\"next\":%llu", (unsigned long long)runs, (unsigned long long)evals, (unsigned long long)steps, (unsigned long long)psteps, (unsigned long long)g_max_steps, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)frun, g_distinct.size(), g_scheds.size(), g_cov.size(), g_pairs.size(), wall() - t0, (unsigned long long)idx);
    auto dm = [&](const char *n, const std::map<std::string, u64> &m) { fprintf(o, ",\"%s\":{", n); bool f = true; for (auto &p : m) { fprintf(o, "%s\"%s\":%llu", f ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); f = false; } fprintf(o, "}"); };
    dm("faults", g_faults); dm("probes", g_probes); dm("discards", g_discards); dm("known", known_hits); dm("known_run", known_run);
    fprintf(o, ",\"strategies\":["); for (int i = 0; i < S_REPLAY; ++i) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)g_strat_hist[i]); fprintf(o, "],\"threads\":["); for (int i = 0; i < MAXF; ++i) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)thr_hist[i]);
    fprintf(o, "],\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str()); fprintf(o, "],\"rule\":\"%s\"}\n", jesc(prop_rule).c_str());
    fclose(o);
    dump_set(cfg.out + ".distinct", g_distinct); dump_set(cfg.out + ".cov", g_cov); dump_set(cfg.out + ".pairs", g_pairs); dump_set(cfg.out + ".scheds", g_scheds);
  }
  return viol ? 1 : 0;
}
