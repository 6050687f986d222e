// Deterministic simulation runtime for wrenfold's C++ core.
//
// The code under test is compiled with -fsanitize=thread, but linked against this runtime instead
// of libtsan: every memory access, atomic operation, mutex, once-guard, allocation and clock read
// of the code under test calls into here. Real threads are parked and released one at a time
// (exactly one ever runs); which one runs is decided by a seeded PRNG or by a replay script.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>

namespace sim {

// ---- PRNG (splitmix64 seeded xoshiro-like; one instance decides everything in a run) ----------
// Always inlined: the runtime's own copy must never be the instrumented one.
#define SIM_INLINE __attribute__((always_inline)) inline
struct Rng {
  uint64_t s;
  SIM_INLINE explicit Rng(uint64_t seed = 0) : s(seed ^ 0x1234567) { s = next() ^ (seed << 32); s = next(); }
  SIM_INLINE uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  SIM_INLINE uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  SIM_INLINE bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  SIM_INLINE int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
};

constexpr int MAXT = 6;

// ---- scheduling -------------------------------------------------------------------------------
struct Preempt { uint64_t step; int tid; };

struct SchedConfig {
  uint64_t seed = 1;
  bool script_mode = false;       // replay `script` instead of drawing from the PRNG
  const Preempt* script = nullptr;
  size_t script_len = 0;
  double p_atomic = 0, p_sync = 0, p_static = 0, p_alloc = 0;
  uint64_t gap = 0;               // mean number of accesses between random preemptions (0: none)
  double p_park = 0;              // chance that a preempted thread is parked for a long time
  uint64_t step_limit = 0;
};

typedef void (*thread_fn)(void* arg, int index);

// Runs `n` threads (n < MAXT) to completion under the scheduler. Called from the main thread.
void run_threads(const SchedConfig& cfg, int n, thread_fn fn, void* arg);
int current_tid();

// A yield point that harness code may call (e.g. between operations).
void yield_point();

// ---- allocator --------------------------------------------------------------------------------
struct LayoutConfig {
  uint64_t seed = 0;
  int page_offset = 0;    // start of the arena in pages
  int reuse = 0;          // 0 lifo, 1 fifo, 2 random, 3 never
  double gap = 0;         // chance of an unused gap before a fresh block
  bool quarantine = false;  // never reuse freed memory and report accesses to it
  unsigned char fill = 0; // pattern for fresh memory
};
void boot_done();                           // first statement of main()
void arena_setup(const LayoutConfig& cfg);  // before any simulated allocation
struct HeapStats { uint64_t live_blocks, live_bytes, total_allocs; };
HeapStats heap_stats();
// Live blocks that no pointer leads to: not from static data, the calling thread's stack or its
// thread-local storage, nor from a block reached from there. A cache that keeps blocks is no leak.
uint64_t heap_unreachable();
uint64_t heap_mark();                      // sequence number of the next allocation
// Lists live blocks allocated at or after `mark`; returns the count and up to `n` sequence numbers.
size_t heap_live_since(uint64_t mark, uint64_t* seqs, uint64_t* sizes, size_t n);
// When non-null, remembers the call stack of the allocation with this sequence number.
void heap_watch_seq(uint64_t seq);

// Fault plan: allocation number `at` (1-based, counted from arm()) fails; `count` consecutive ones.
void alloc_fault_arm(uint64_t at, uint64_t count);
void alloc_fault_disarm();
void alloc_fault_third_party(bool on);  // fail the allocations of Abseil's hash tables instead of all others
void alloc_record(uint64_t* buf, uint64_t cap);  // while armed: a digest of the call path of each allocation
uint64_t alloc_fault_seen();     // allocations since arm()
uint64_t alloc_fault_fired();    // failures injected since arm()

// ---- simulated clock -----------------------------------------------------------------------
struct ClockConfig { bool enabled = false; uint64_t seed = 0; double p_jump = 0; int64_t max_jump_ns = 0; int64_t max_tick_ns = 1000; };
void clock_setup(const ClockConfig& cfg);
int64_t clock_mono_now();    // simulated true (monotonic) time, does not advance it
uint64_t clock_jumps();
uint64_t clock_reads();
int64_t clock_total_ns();

// ---- file faults ----------------------------------------------------------------------------
// kind: 0 none, 1 ENOSPC after n bytes, 2 EIO on nth write, 3 short writes, 4 open fails
struct FileFault { int kind = 0; uint64_t n = 0; uint64_t seed = 0; };
void file_setup(const FileFault& cfg);
uint64_t file_faults_fired();

// ---- observation --------------------------------------------------------------------------------
struct Stats {
  uint64_t steps, switches, preemptions, atomics, syncs, guard_inits, guard_waits, mutex_waits;
  uint64_t hash;   // running hash of the whole execution
  uint64_t sched_hash;  // hash of (who runs, where) only: identifies the interleaving
  uint64_t alloc_faults;
};
Stats stats();
void mix(uint64_t v);           // mixes a value into the execution hash
const Preempt* preemptions(size_t* n);

// Memory that belongs to the C++ library itself and is not judged.
void race_exclude(const void* p, size_t n);

// Uninstrumented append to the result record.
void out_append(char* buf, size_t* len, size_t cap, const char* p, size_t n);

// Ends the run at once with a violation (writes the result record and exits the process).
[[noreturn]] void violation(const char* kind, const char* detail);
// Ends the run with a harness error.
[[noreturn]] void harness_error(const char* detail);
// The result sink: called by violation(); installed by the driver.
typedef void (*result_sink)(const char* kind, const char* detail, const uint64_t* pcs, int npcs,
                            const uint64_t* pcs2, int npcs2);
void set_result_sink(result_sink s);
void set_simulating(bool on);   // hooks active
bool simulating();
// the pcs of the most recent injected allocation failure
int last_fault_stack(uint64_t* pcs, int n);
int current_stack(uint64_t* pcs, int n);
int watched_stack(uint64_t* pcs, int n);
}  // namespace sim
