// Deterministic simulator for SpMP: one OS thread, fibers, simulated OpenMP
// runtime, allocator, clock and file system. See DESIGN.md.
#ifndef SPMP_SIM_H
#define SPMP_SIM_H
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---- choices: every input of a run is drawn from this recorded stream ----
uint32_t pick(uint32_t n);            // 0..n-1, 0 is the simplest
inline int range(int lo, int hi) { return lo + (int)pick((uint32_t)(hi - lo + 1)); }
bool chance(uint32_t num, uint32_t den);   // true with num/den; false is simplest
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // sample text of the case

// ---- verdicts ----
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char *name);         // reach counter
bool store_buffers();                 // does this run have them
void fault(const char *kind);         // an injected fault fired
void coverage(uint64_t h);            // distinct-state measure
void history(uint64_t h);             // adds to the event-log hash of the run
[[noreturn]] void discard(const char *why); // not a case (counted, not evaluated)

// ---- threads ----
void set_threads(int t);              // omp_get_max_threads of the simulated system
void step_limit(unsigned long long n);   // livelock bound of this run (default 40M simulated steps)
int threads();

// Calls fn; returns true if it returned normally, false if the system called
// exit() (status in *code) - the controlled-exit outcome.
bool guarded(const std::function<void()> &fn, int *code = nullptr);

// ---- allocator ledger ----
struct AllocStats { uint64_t live_blocks, live_bytes; };
AllocStats alloc_stats();
uint64_t alloc_serial();                       // serial number of the next block
std::string leaks_since(uint64_t serial, int *count); // live blocks with serial >= given
bool arena_block(const void *p, size_t *size); // p inside a live block?
int alloc_failures();                           // allocations that were made to fail in this run
void alloc_fail_after(int n);                  // n-th allocation from now fails (0 = never)
void alloc_limit_enable(bool on);
// Allocates memory owned by the system under test (visible to checks).
void *sut_malloc(size_t n, size_t align = 64);
void sut_free(void *p);
void stdout_to(std::string *s);                // keep what the system prints; nullptr: drop it again
bool readable(const void *p, size_t n);        // arena bytes all addressable?

// An address range without memory: memcpy/memset into it are recorded only.
struct BlockOp { size_t off, n; const void *src; int c; };
void *virtual_range(size_t n);
std::vector<BlockOp> virtual_ops();

// ---- simulated clock ----
uint64_t now();

// ---- simulated file system ----
struct IoPlan {
  int chunk = 0;           // max bytes per read/write call of the "kernel" (0 = unlimited)
  int buf = 0;             // stdio buffer size (0 = default)
  long fail_read_at = -1;  // byte offset at which reads return an error
  long fail_write_at = -1; // total bytes after which writes fail
  int write_errno = 28;
  int read_errno = 5;
  int fail_open = -1;      // n-th fopen fails
  bool close_fails = false;// deferred write error reported at close
  bool chunk_random = false;
  uint32_t seed = 0;
};
void fs_reset();
void fs_put(const std::string &name, const std::string &data);
bool fs_get(const std::string &name, std::string *data);
void fs_plan(const IoPlan &p);
void fs_plan_clear();
int fs_open_files();
struct IoFired { long reads, writes, opens, short_reads, read_errors, write_errors, open_errors, close_errors, stderr_messages; };
IoFired fs_fired();

// mmap of huge pages
void big_mappings(bool on);              // anonymous mappings above 1 GB get real address space (untouched parts cost nothing)
void mmap_mode(int fail);   // 1: mmap fails
struct MmapStats { int maps, unmaps, failed; };
MmapStats mmap_stats();

} // namespace sim

// A property program provides these.
extern const char *prop_id;
extern const char *prop_rule;
void prop_case();
void prop_setup();   // once, before the snapshot of the system's globals
#endif
