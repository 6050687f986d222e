// See rt.h. This file is compiled WITHOUT -fsanitize=thread.
#include "rt.h"

#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <cxxabi.h>
#include <exception>
#include <new>

// -------------------------------------------------------------------------------------------------
// Small malloc based containers: the runtime itself must never touch the simulated heap.
// -------------------------------------------------------------------------------------------------
thread_local bool t_live = true;  // false while libc runs code whose memory accesses must not count
template <typename T>
struct Vec {
  T* p = nullptr;
  size_t n = 0, cap = 0;
  void push(const T& v) {
    if (n == cap) {
      cap = cap ? cap * 2 : 64;
      p = static_cast<T*>(realloc(static_cast<void*>(p), cap * sizeof(T)));
    }
    p[n++] = v;
  }
  T& operator[](size_t i) { return p[i]; }
  void clear() { n = 0; }
};

extern "C" {
extern char __data_start[], _end[];
long __real_syscall(long n, ...);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_sched_yield();
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_writev(int, const struct iovec*, int);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
}

namespace sim {
namespace {

// ------------------------------------------------------------------------------------- globals ---
bool g_on = false;          // hooks active at all
bool g_threads = false;     // inside run_threads
result_sink g_sink = nullptr;

constexpr uintptr_t ARENA_BASE = 0x100000000000ull;
constexpr size_t ARENA_SIZE = size_t(1) << 30;
constexpr size_t BOOT_SIZE = size_t(1) << 20;  // allocations made before main()
constexpr uintptr_t STACK_BASE = 0x120000000000ull;
constexpr size_t STACK_SIZE = size_t(16) << 20;
constexpr uintptr_t SHADOW_BASE = 0x200000000000ull;
uintptr_t g_static_lo, g_static_hi;
uintptr_t g_excl_lo = 0, g_excl_hi = 0;

struct Cell {
  uint32_t w;         // last plain write: tid<<28 | clk
  uint32_t aw;        // last atomic write
  uint32_t r[MAXT];   // last plain read per thread (clk)
  uint8_t wm, awm;    // byte masks
  uint8_t rm[MAXT];
  uint8_t freed;      // granule belongs to a freed block
  uint8_t pad[7];
};
static_assert(sizeof(Cell) == 48, "");
// arena shadow followed by static shadow
inline Cell* shadow_of(uintptr_t a) {
  if (a - ARENA_BASE < ARENA_SIZE) {
    return reinterpret_cast<Cell*>(SHADOW_BASE) + ((a - ARENA_BASE) >> 3);
  }
  if (a >= g_static_lo && a < g_static_hi) {
    if (a - g_excl_lo < g_excl_hi - g_excl_lo) return nullptr;
    return reinterpret_cast<Cell*>(SHADOW_BASE) + (ARENA_SIZE >> 3) + ((a - g_static_lo) >> 3);
  }
  return nullptr;
}
bool g_shadow_ready = false;

struct VC { uint32_t c[MAXT]; };
inline void join(VC& a, const VC& b) {
  for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

enum Status { ST_NONE, ST_RUNNABLE, ST_BLOCKED, ST_DONE };
constexpr int STACKMAX = 512;
struct Thr {
  Status st = ST_NONE;
  const void* wait_on = nullptr;
  uint32_t futex = 0;
  VC vc{};
  pthread_t pt{};
  uint64_t parked_until = 0;
  uint32_t depth = 0;
  uint64_t stack[STACKMAX];
};
Thr T[MAXT];
thread_local int t_tid = 0;
int g_cur = 0;
int g_nthreads = 0;

SchedConfig C;
Rng g_rng;
Stats S;
Vec<Preempt> g_pre;
size_t g_script_pos = 0;
uint64_t g_next_gap = 0;

inline void mixh(uint64_t v) {
  S.hash = (S.hash ^ v) * 0x100000001b3ull;
  S.hash ^= S.hash >> 29;
}
inline void mixs(uint64_t v) {
  S.sched_hash = (S.sched_hash ^ v) * 0x100000001b3ull;
  S.sched_hash ^= S.sched_hash >> 31;
}

// Sync variables: open addressing hash from address>>2 to VC.
struct SyncEnt { uintptr_t k; VC vc; };
SyncEnt* g_sync = nullptr;
size_t g_sync_cap = 0, g_sync_n = 0;
SyncEnt* sync_find(uintptr_t k, bool create);
void sync_grow() {
  SyncEnt* old = g_sync;
  size_t oc = g_sync_cap;
  g_sync_cap = oc ? oc * 2 : 4096;
  g_sync = static_cast<SyncEnt*>(calloc(g_sync_cap, sizeof(SyncEnt)));
  g_sync_n = 0;
  for (size_t i = 0; i < oc; ++i) {
    if (old[i].k > 1) sync_find(old[i].k, true)->vc = old[i].vc;
  }
  free(old);
}
SyncEnt* sync_find(uintptr_t k, bool create) {
  if (create && (g_sync_n + 1) * 2 > g_sync_cap) sync_grow();
  if (!g_sync_cap) return nullptr;
  size_t h = (k * 0x9E3779B97F4A7C15ull) >> 20;
  for (;; ++h) {
    SyncEnt& e = g_sync[h & (g_sync_cap - 1)];
    if (e.k == k) return &e;
    if (e.k == 0) {
      if (!create) return nullptr;
      e.k = k;
      memset(&e.vc, 0, sizeof(VC));
      ++g_sync_n;
      return &e;
    }
  }
}
void sync_acquire(const void* p) {
  if (SyncEnt* e = sync_find(reinterpret_cast<uintptr_t>(p) | 1, false)) join(T[t_tid].vc, e->vc);
}
void sync_release(const void* p) {
  SyncEnt* e = sync_find(reinterpret_cast<uintptr_t>(p) | 1, true);
  join(e->vc, T[t_tid].vc);
  ++T[t_tid].vc.c[t_tid];
}
void sync_release_store(const void* p) {
  SyncEnt* e = sync_find(reinterpret_cast<uintptr_t>(p) | 1, true);
  e->vc = T[t_tid].vc;
  ++T[t_tid].vc.c[t_tid];
}

// ------------------------------------------------------------------------------------ scheduler ---
void futex_wait(uint32_t* a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) {
    __real_syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(a, 0, __ATOMIC_RELAXED);
}
void futex_wake(uint32_t* a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  __real_syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool runnable(int i) { return T[i].st == ST_RUNNABLE; }

void switch_to(int next) {
  const int me = t_tid;
  if (next == me) return;
  ++S.switches;
  mixh(0x5157ull + static_cast<uint64_t>(next));
  mixs(S.steps * 8 + static_cast<uint64_t>(next));
  g_cur = next;
  futex_wake(&T[next].futex);
  if (T[me].st != ST_DONE) futex_wait(&T[me].futex);
}

// The default choice when the current thread cannot run: lowest runnable id, preferring threads
// that are not parked.
int default_next() {
  for (int i = 1; i <= g_nthreads; ++i) if (runnable(i) && T[i].parked_until <= S.steps) return i;
  for (int i = 1; i <= g_nthreads; ++i) if (runnable(i)) return i;
  return runnable(0) ? 0 : -1;
}

int random_next(int exclude) {
  int cand[MAXT], n = 0, candp[MAXT], np = 0;
  for (int i = 1; i <= g_nthreads; ++i) {
    if (i == exclude || !runnable(i)) continue;
    if (T[i].parked_until <= S.steps) cand[n++] = i; else candp[np++] = i;
  }
  if (n) return cand[g_rng.below(static_cast<uint64_t>(n))];
  if (np) return candp[g_rng.below(static_cast<uint64_t>(np))];
  return -1;
}

void do_preempt(int next) {
  if (next < 0 || next == t_tid) return;
  Preempt p{S.steps, next};
  g_pre.push(p);
  ++S.preemptions;
  switch_to(next);
}

void schedule_next_gap() {
  if (C.gap == 0) { g_next_gap = ~0ull; return; }
  g_next_gap = S.steps + 1 + g_rng.below(C.gap * 2);
}

#ifdef SIMLOG
struct LogEnt { uint64_t step; void* pc; void* fn; int tid; };
LogEnt g_log[1 << 20];
uint32_t g_logn;
void simlog(void* pc) {
  uint32_t i = __atomic_fetch_add(&g_logn, 1, __ATOMIC_RELAXED);
  if (i < (1 << 20)) g_log[i] = LogEnt{S.steps, pc, T[t_tid].depth ? (void*)T[t_tid].stack[T[t_tid].depth - 1] : nullptr, t_tid};
}
#endif
// Called at every interception point while threads run.
inline void point(double p) {
  ++S.steps;
  if (__builtin_expect(!g_threads, 1)) return;
#ifdef SIMLOG
  simlog(__builtin_return_address(0));
#endif
  if (C.script_mode) {
    if (g_script_pos < C.script_len && C.script[g_script_pos].step <= S.steps) {
      int next = C.script[g_script_pos++].tid;
      if (next >= 1 && next <= g_nthreads && runnable(next)) do_preempt(next);
    }
  } else {
    bool hit = S.steps >= g_next_gap;
    if (hit) schedule_next_gap();
    if (!hit && p > 0) hit = g_rng.chance(p);
    if (hit && g_nthreads > 1) {
      int next = random_next(t_tid);
      if (next >= 0) {
        if (C.p_park > 0 && g_rng.chance(C.p_park)) {
          T[t_tid].parked_until = S.steps + (uint64_t(1) << (8 + g_rng.below(12)));
        }
        do_preempt(next);
      }
    }
  }
  if (__builtin_expect(C.step_limit && S.steps > C.step_limit, 0)) {
    violation("no-progress", "step limit reached: some thread makes no progress");
  }
}

void block_on(const void* what) {
  T[t_tid].st = ST_BLOCKED;
  T[t_tid].wait_on = what;
  int next = C.script_mode ? default_next() : random_next(t_tid);
  if (next < 0) next = default_next();
  if (next < 0 || next == 0) violation("deadlock", "every thread is blocked");
  if (!C.script_mode) g_pre.push(Preempt{S.steps, next});
  else if (g_script_pos < C.script_len && C.script[g_script_pos].step <= S.steps) {
    int want = C.script[g_script_pos].tid;
    ++g_script_pos;
    if (want >= 1 && want <= g_nthreads && runnable(want)) next = want;
  }
  switch_to(next);
}
void wake_all(const void* what) {
  for (int i = 0; i <= g_nthreads; ++i) {
    if (T[i].st == ST_BLOCKED && T[i].wait_on == what) { T[i].st = ST_RUNNABLE; T[i].wait_on = nullptr; }
  }
}

// -------------------------------------------------------------------------------- race detector ---
[[noreturn]] void race(const char* what, uintptr_t addr, int other) {
  char buf[256];
  snprintf(buf, sizeof buf, "%s by thread %d, conflicting with thread %d, no synchronisation between them (%s)", what,
           t_tid, other, addr - ARENA_BASE < ARENA_SIZE ? "heap" : "static data");
  (void)addr;
  violation("data-race", buf);
}

inline bool hb(uint32_t clk, int tid) { return clk <= T[t_tid].vc.c[tid]; }

bool g_check_freed = false;

inline void access(uintptr_t a, size_t size, bool write) {
  // The hash covers the address of every access (arena and statics only).
  Cell* c = shadow_of(a);
  if (!c) return;
  mixh(a);
  if (!g_threads && !g_check_freed) {
    return;
  }
  size_t off = a & 7;
  size_t left = size;
  const int me = t_tid;
  Thr& t = T[me];
  while (left) {
    size_t n = 8 - off < left ? 8 - off : left;
    uint8_t mask = static_cast<uint8_t>(((1u << n) - 1) << off);
    if (__builtin_expect(c->freed, 0) && g_check_freed) {
      char buf[160];
      snprintf(buf, sizeof buf, "%s of freed heap memory", write ? "write" : "read");
      violation("use-after-free", buf);
    }
    if (g_threads) {
      uint32_t w = c->w;
      if (w && (c->wm & mask)) {
        int wt = static_cast<int>(w >> 28);
        if (wt != me && !hb(w & 0x0fffffff, wt)) race(write ? "write after write" : "read after write", a, wt);
      }
      uint32_t aw = c->aw;
      if (aw && (c->awm & mask)) {
        int wt = static_cast<int>(aw >> 28);
        if (wt != me && !hb(aw & 0x0fffffff, wt)) race(write ? "plain write after atomic write" : "plain read after atomic write", a, wt);
      }
      if (write) {
        for (int i = 0; i <= g_nthreads; ++i) {
          if (i != me && c->r[i] && (c->rm[i] & mask) && !hb(c->r[i], i)) race("write after read", a, i);
        }
        uint32_t e = (static_cast<uint32_t>(me) << 28) | t.vc.c[me];
        if (c->w == e) c->wm |= mask; else { c->w = e; c->wm = mask; }
      } else {
        if (c->r[me] == t.vc.c[me]) c->rm[me] |= mask; else { c->r[me] = t.vc.c[me]; c->rm[me] = mask; }
      }
    } 
    left -= n;
    off = 0;
    ++c;
  }
}

inline void atomic_access(uintptr_t a, size_t size, bool write) {
  Cell* c = shadow_of(a);
  if (!c) return;
  mixh(a + 1);
  size_t off = a & 7;
  if (size > 8) size = 8;
  uint8_t mask = static_cast<uint8_t>(((1u << size) - 1) << off);
  if (c->freed && g_check_freed) violation("use-after-free", "atomic access to freed heap memory");
  if (!g_threads) return;
  const int me = t_tid;
  uint32_t w = c->w;
  if (w && (c->wm & mask)) {
    int wt = static_cast<int>(w >> 28);
    if (wt != me && !hb(w & 0x0fffffff, wt)) race("atomic access after plain write", a, wt);
  }
  if (write) {
    for (int i = 0; i <= g_nthreads; ++i) {
      if (i != me && c->r[i] && (c->rm[i] & mask) && !hb(c->r[i], i)) race("atomic write after plain read", a, i);
    }
    c->aw = (static_cast<uint32_t>(me) << 28) | T[me].vc.c[me];
    c->awm = mask;
  }
}

void shadow_reset(uintptr_t a, size_t n, bool freed) {
  if (!g_shadow_ready) return;
  Cell* c = shadow_of(a);
  if (!c) return;
  size_t k = (n + 7) >> 3;
  if (g_threads || freed || g_check_freed) {
    for (size_t i = 0; i < k; ++i) {
      if (freed) { c[i].freed = 1; } else { memset(&c[i], 0, sizeof(Cell)); }
    }
  } else {
    memset(static_cast<void*>(c), 0, k * sizeof(Cell));
  }
}

// ------------------------------------------------------------------------------------ allocator ---
struct Hdr { uint64_t seq; uint32_t size; uint32_t magic; };
constexpr uint32_t LIVE = 0xA11CA7ED, DEAD = 0xDEADF4EE;
LayoutConfig L;
Rng g_lrng;
uintptr_t g_bump = 0;
uint64_t g_seq = 0, g_live_blocks = 0, g_live_bytes = 0;
constexpr int NBIN = 4096;  // 16 byte classes up to 64 KiB
Vec<void*> g_bins[NBIN];
size_t g_bin_head[NBIN];  // for fifo
bool g_arena_ready = false, g_boot = false;
uint64_t g_watch = 0;
uint64_t g_watch_pcs[64];
int g_watch_n = 0;

bool g_fault_armed = false;
uint64_t g_fault_at = 0, g_fault_count = 0, g_fault_seen = 0, g_fault_fired = 0;
uint64_t g_fault_pcs[64];
int g_fault_n = 0;

int copy_stack(uint64_t* out, int n) {
  Thr& t = T[t_tid];
  int k = 0;
  for (int i = static_cast<int>(t.depth < STACKMAX ? t.depth : STACKMAX) - 1; i >= 0 && k < n; --i) out[k++] = t.stack[i];
  return k;
}

thread_local int t_third_party = 0;
bool g_fault_third_party = false;
uint64_t* g_rec = nullptr;
uint64_t g_rec_cap = 0;
bool fault_now() {
  if (!g_fault_armed || (t_third_party > 0) != g_fault_third_party) return false;
  ++g_fault_seen;
  if (g_rec && g_fault_seen <= g_rec_cap) {
    const Thr& t = T[t_tid];
    uint64_t h = 0xC01D;
    for (uint32_t i = 0, n = static_cast<uint32_t>(t.depth < STACKMAX ? t.depth : STACKMAX); i < n; ++i) h = (h ^ t.stack[i]) * 0x9E3779B97F4A7C15ull + (h >> 29);
    g_rec[g_fault_seen - 1] = h;
  }
  if (g_fault_seen >= g_fault_at && g_fault_seen - g_fault_at < g_fault_count) {
    ++g_fault_fired;
    ++S.alloc_faults;
    mixh(0xFA17);
    if (g_fault_fired == 1) g_fault_n = copy_stack(g_fault_pcs, 64);
    return true;
  }
  return false;
}

void* arena_alloc(size_t n, size_t align) {
  point(C.p_alloc);
  if (fault_now()) return nullptr;
  if (n == 0) n = 1;
  size_t sz = (n + 15) & ~size_t(15);
  if (align < 16) align = 16;
  char* user = nullptr;
  size_t bin = sz >> 4;
  if (align == 16 && bin < NBIN && !L.quarantine && L.reuse != 3) {
    Vec<void*>& b = g_bins[bin];
    size_t& h = g_bin_head[bin];
    if (b.n > h) {
      if (L.reuse == 1) {
        user = static_cast<char*>(b[h++]);
        if (h == b.n) { b.n = 0; h = 0; }
      } else {
        size_t i = b.n - 1;
        if (L.reuse == 2) i = h + g_lrng.below(b.n - h);
        user = static_cast<char*>(b[i]);
        b[i] = b[b.n - 1];
        --b.n;
      }
    }
  }
  if (!user) {
    if (L.gap > 0 && g_lrng.chance(L.gap)) g_bump += 16 * (1 + g_lrng.below(g_lrng.chance(0.05) ? 600 : 8));
    uintptr_t p = (g_bump + sizeof(Hdr) + align - 1) & ~(uintptr_t(align) - 1);
    g_bump = p + sz;
    if (g_bump > ARENA_BASE + ARENA_SIZE) harness_error("simulated heap exhausted");
    user = reinterpret_cast<char*>(p);
  }
  Hdr* h = reinterpret_cast<Hdr*>(user) - 1;
  h->seq = ++g_seq;
  h->size = static_cast<uint32_t>(sz);
  h->magic = LIVE;
  ++g_live_blocks;
  g_live_bytes += sz;
  __real_memset(user, L.fill, sz);
  shadow_reset(reinterpret_cast<uintptr_t>(user), sz, false);
  if (g_sync_cap) {
    // forget happens-before state of a previous life of this memory
    for (size_t o = 0; o < sz && sz <= 256; o += 4) {
      SyncEnt* e = sync_find((reinterpret_cast<uintptr_t>(user) + o) | 1, false);
      if (e) memset(&e->vc, 0, sizeof(VC));
    }
  }
  mixh(sz);
  mixh(reinterpret_cast<uintptr_t>(user));
  if (g_watch && g_seq == g_watch) g_watch_n = copy_stack(g_watch_pcs, 64);
  return user;
}

void arena_free(void* p) {
  point(C.p_alloc);
  Hdr* h = static_cast<Hdr*>(p) - 1;
  if (h->magic != LIVE) violation("bad-free", h->magic == DEAD ? "heap block freed twice" : "free of an invalid pointer");
  size_t sz = h->size;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (g_threads) access(a, sz, true);  // freeing conflicts with any unsynchronised access
  h->magic = DEAD;
  --g_live_blocks;
  g_live_bytes -= sz;
  __real_memset(p, 0xDD, sz);
  shadow_reset(a, sz, true);
  mixh(a ^ 0xF4EE);
  size_t bin = sz >> 4;
  if (!L.quarantine && L.reuse != 3 && bin < NBIN) g_bins[bin].push(p);
}

inline bool in_arena(const void* p) { return reinterpret_cast<uintptr_t>(p) - ARENA_BASE < ARENA_SIZE; }

// ---------------------------------------------------------------------------------------- clock ---
ClockConfig K;
Rng g_krng;
int64_t g_mono = 1000000000ll, g_wall_off = 1700000000000000000ll;
uint64_t g_jumps = 0, g_clock_reads = 0;
void clock_advance() {
  ++g_clock_reads;
  g_mono += 1 + static_cast<int64_t>(g_krng.below(static_cast<uint64_t>(K.max_tick_ns)));
  if (K.p_jump > 0 && g_krng.chance(K.p_jump)) {
    int64_t j = static_cast<int64_t>(g_krng.below(static_cast<uint64_t>(K.max_jump_ns) * 2 + 1)) - K.max_jump_ns;
    g_wall_off += j;
    ++g_jumps;
    mixh(static_cast<uint64_t>(j));
  }
}

// ---------------------------------------------------------------------------------------- files ---
FileFault FF;
uint64_t g_ff_fired = 0, g_ff_written = 0, g_ff_calls = 0;
Rng g_frng;

}  // namespace

// ------------------------------------------------------------------------------------ public API ---
void set_simulating(bool on) { g_on = on; }
bool simulating() { return g_on; }
int current_tid() { return t_tid; }
Stats stats() {
#ifdef SIMLOG
  g_on = false; for (uint32_t i = 0; i < g_logn && i < (1 << 20); ++i) { char b[120]; int m = snprintf(b, sizeof b, "%lu t%d %p %p\n", g_log[i].step, g_log[i].tid, g_log[i].pc, g_log[i].fn); __real_write(2, b, m); }
#endif
 return S; }
void mix(uint64_t v) { mixh(v); }
const Preempt* preemptions(size_t* n) { *n = g_pre.n; return g_pre.p; }
void set_result_sink(result_sink s) { g_sink = s; }
int last_fault_stack(uint64_t* pcs, int n) { int k = g_fault_n < n ? g_fault_n : n; memcpy(pcs, g_fault_pcs, sizeof(uint64_t) * static_cast<size_t>(k)); return k; }
int watched_stack(uint64_t* pcs, int n) { int k = g_watch_n < n ? g_watch_n : n; memcpy(pcs, g_watch_pcs, sizeof(uint64_t) * static_cast<size_t>(k)); return k; }
int current_stack(uint64_t* pcs, int n) { return copy_stack(pcs, n); }

void violation(const char* kind, const char* detail) {
  g_on = false;
  g_threads = false;
  g_fault_armed = false;
  uint64_t pcs[48];
  int n = copy_stack(pcs, 48);
  g_sink(kind, detail, pcs, n, g_fault_pcs, g_fault_fired ? g_fault_n : 0);
  _exit(0);
}
void harness_error(const char* detail) {
  g_on = false;
  g_threads = false;
  g_sink("harness-error", detail, nullptr, 0, nullptr, 0);
  _exit(3);
}

// Maps the heap. Runs at the first operator new, that is, before main().
void boot_map() {
  void* p = mmap(reinterpret_cast<void*>(ARENA_BASE), ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(ARENA_BASE)) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
  g_bump = ARENA_BASE + 64;
  g_boot = true;
  g_arena_ready = true;
}
void boot_done() {
  if (!g_arena_ready) boot_map();
  if (g_bump > ARENA_BASE + BOOT_SIZE) { fprintf(stderr, "boot arena exhausted\n"); _exit(3); }
  g_boot = false;
}
void arena_setup(const LayoutConfig& cfg) {
  L = cfg;
  g_lrng = Rng(cfg.seed ^ 0xA4E7A);
  g_static_lo = reinterpret_cast<uintptr_t>(__data_start) & ~uintptr_t(7);
  g_static_hi = reinterpret_cast<uintptr_t>(_end);
  size_t ncell = (ARENA_SIZE >> 3) + ((g_static_hi - g_static_lo) >> 3) + 64;
  void* p = mmap(reinterpret_cast<void*>(SHADOW_BASE), ncell * sizeof(Cell), PROT_READ | PROT_WRITE,
           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(SHADOW_BASE)) { fprintf(stderr, "shadow mmap failed\n"); _exit(3); }
  g_shadow_ready = true;
  g_bump = ARENA_BASE + BOOT_SIZE + 4096ull * static_cast<uint64_t>(cfg.page_offset) + 64;
  g_check_freed = cfg.quarantine;
  for (int i = 0; i < MAXT; ++i) T[i].vc.c[i] = 1;
  T[0].st = ST_RUNNABLE;
  S.hash = 0xcbf29ce484222325ull;
  S.sched_hash = 0xcbf29ce484222325ull;
}
HeapStats heap_stats() { return HeapStats{g_live_blocks, g_live_bytes, g_seq}; }

namespace {
struct Blk { uintptr_t a; uint64_t size; };
struct Mark { Vec<Blk> blocks; Vec<uint32_t> todo; Vec<char> seen; uintptr_t lo, hi; };
void mark_range(Mark& m, uintptr_t from, uintptr_t to) {
  for (uintptr_t a = (from + 7) & ~uintptr_t(7); a + 8 <= to; a += 8) {
    const uintptr_t v = *reinterpret_cast<const uintptr_t*>(a);
    if (v < m.lo || v >= m.hi) continue;
    size_t l = 0, r = m.blocks.n;  // last block that starts at or before v
    while (l < r) { const size_t c = (l + r) / 2; if (m.blocks[c].a <= v) l = c + 1; else r = c; }
    if (!l) continue;
    const Blk& b = m.blocks[l - 1];
    // one past the end counts: an empty range at the end of a block
    if (v > b.a + b.size || m.seen[l - 1]) continue;
    m.seen[l - 1] = 1;
    m.todo.push(static_cast<uint32_t>(l - 1));
  }
}
int mark_object(dl_phdr_info* i, size_t, void* arg) {
  Mark& m = *static_cast<Mark*>(arg);
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const ElfW(Phdr)& h = i->dlpi_phdr[k];
    if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) mark_range(m, i->dlpi_addr + h.p_vaddr, i->dlpi_addr + h.p_vaddr + h.p_memsz);
    if (h.p_type == PT_TLS && i->dlpi_tls_data) mark_range(m, reinterpret_cast<uintptr_t>(i->dlpi_tls_data), reinterpret_cast<uintptr_t>(i->dlpi_tls_data) + h.p_memsz);
  }
  return 0;
}
}  // namespace
uint64_t heap_unreachable() {
  const bool was = g_on;
  g_on = false;
  Mark m;
  m.lo = ARENA_BASE + BOOT_SIZE;
  m.hi = g_bump + 16;
  for (uintptr_t a = m.lo; a + sizeof(Hdr) <= g_bump; a += 16) {
    const Hdr* h = reinterpret_cast<const Hdr*>(a);
    if ((h->magic != LIVE && h->magic != DEAD) || h->seq == 0 || h->seq > g_seq) continue;
    if (h->magic == LIVE) { m.blocks.push(Blk{a + sizeof(Hdr), h->size}); m.seen.push(0); }
    a += h->size;
  }
  pthread_attr_t at;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    void* lo = nullptr;
    size_t n = 0;
    pthread_attr_getstack(&at, &lo, &n);
    pthread_attr_destroy(&at);
    mark_range(m, reinterpret_cast<uintptr_t>(__builtin_frame_address(0)), reinterpret_cast<uintptr_t>(lo) + n);
  }
  mark_range(m, ARENA_BASE, ARENA_BASE + BOOT_SIZE);
  dl_iterate_phdr(mark_object, &m);
  while (m.todo.n) {
    const Blk b = m.blocks[m.todo[--m.todo.n]];
    mark_range(m, b.a, b.a + b.size);
  }
  uint64_t lost = 0;
  for (size_t i = 0; i < m.blocks.n; ++i) lost += !m.seen[i];
  free(m.blocks.p); free(m.todo.p); free(m.seen.p);
  g_on = was;
  return lost;
}
uint64_t heap_mark() { return g_seq + 1; }
size_t heap_live_since(uint64_t mark, uint64_t* seqs, uint64_t* sizes, size_t n) {
  // Only valid without reuse (quarantine or reuse==3): walk the arena for live headers.
  size_t k = 0;
  uintptr_t a = ARENA_BASE + BOOT_SIZE + 4096ull * static_cast<uint64_t>(L.page_offset) + 64;
  for (a &= ~uintptr_t(15); a + 16 <= g_bump; a += 16) {
    Hdr* h = reinterpret_cast<Hdr*>(a);
    if (h->magic == LIVE && h->seq >= mark && h->seq <= g_seq) {
      if (k < n) { seqs[k] = h->seq; sizes[k] = h->size; }
      ++k;
    }
  }
  return k;
}
void heap_watch_seq(uint64_t seq) { g_watch = seq; }
void alloc_fault_arm(uint64_t at, uint64_t count) {
  g_fault_at = at; g_fault_count = count; g_fault_seen = 0; g_fault_fired = 0; g_fault_n = 0;
  g_fault_armed = true;
}
void third_party_begin() { ++t_third_party; }
void third_party_end() { --t_third_party; }
void alloc_fault_third_party(bool on) { g_fault_third_party = on; }
void alloc_record(uint64_t* buf, uint64_t cap) { g_rec = buf; g_rec_cap = cap; }
void alloc_fault_disarm() { g_fault_armed = false; }
uint64_t alloc_fault_seen() { return g_fault_seen; }
uint64_t alloc_fault_fired() { return g_fault_fired; }

void clock_setup(const ClockConfig& cfg) { K = cfg; g_krng = Rng(cfg.seed ^ 0xC10C); }
int64_t clock_mono_now() { return g_mono; }
uint64_t clock_jumps() { return g_jumps; }
uint64_t clock_reads() { return g_clock_reads; }
int64_t clock_total_ns() { return g_mono - 1000000000ll; }

void file_setup(const FileFault& cfg) { FF = cfg; g_ff_fired = g_ff_written = g_ff_calls = 0; g_frng = Rng(cfg.seed ^ 0xF11E); }
uint64_t file_faults_fired() { return g_ff_fired; }

void out_append(char* buf, size_t* len, size_t cap, const char* p, size_t n) {
  if (*len + n > cap) n = cap - *len;
  __real_memcpy(buf + *len, p, n);
  *len += n;
}
void race_exclude(const void* p, size_t n) { g_excl_lo = reinterpret_cast<uintptr_t>(p); g_excl_hi = g_excl_lo + n; }
void yield_point() { if (g_on) point(C.p_sync); }

namespace {
struct StartArg { thread_fn fn; void* arg; int idx; };
pthread_key_t g_done_key;
int g_start_dummy;
// Runs as a thread-specific-data destructor: after the destructors of thread_local objects, which
// therefore still execute under the scheduler.
void thread_done(void*) {
  T[t_tid].st = ST_DONE;
  T[0].vc.c[t_tid] = T[0].vc.c[t_tid];
  int next = -1;
  if (C.script_mode) {
    next = default_next();
    if (g_script_pos < C.script_len && C.script[g_script_pos].step <= S.steps) {
      int want = C.script[g_script_pos].tid;
      ++g_script_pos;
      if (want >= 1 && want <= g_nthreads && runnable(want)) next = want;
    }
  } else {
    next = random_next(t_tid);
    if (next < 0) next = default_next();
    if (next > 0) g_pre.push(Preempt{S.steps, next});
  }
  bool any = false;
  for (int i = 1; i <= g_nthreads; ++i) if (T[i].st == ST_RUNNABLE || T[i].st == ST_BLOCKED) any = true;
  if (!any) { T[0].st = ST_RUNNABLE; next = 0; }
  if (next < 0 || (any && next == 0)) violation("deadlock", "every remaining thread is blocked");
  t_live = false;
  switch_to(next);
}

char g_altstack[MAXT][65536];
uint32_t g_ready = 0;
void* thread_main(void* p) {
  t_live = false;
  StartArg a = *static_cast<StartArg*>(p);
  t_tid = a.idx + 1;
  stack_t ss{};
  ss.ss_sp = g_altstack[t_tid];
  ss.ss_size = sizeof g_altstack[t_tid];
  sigaltstack(&ss, nullptr);
  pthread_setspecific(g_done_key, &g_start_dummy);
  futex_wake(&g_ready);
  futex_wait(&T[t_tid].futex);
  t_live = true;
  a.fn(a.arg, a.idx);
  return nullptr;
}
StartArg g_start[MAXT];
}  // namespace

void run_threads(const SchedConfig& cfg, int n, thread_fn fn, void* arg) {
  C = cfg;
  g_rng = Rng(cfg.seed ^ 0x5CED);
  g_nthreads = n;
  g_script_pos = 0;
  schedule_next_gap();
  static bool mapped = false;
  if (!mapped) {
    void* p = mmap(reinterpret_cast<void*>(STACK_BASE), STACK_SIZE * MAXT, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(STACK_BASE)) harness_error("stack mmap failed");
    mapped = true;
    pthread_key_create(&g_done_key, thread_done);
  }
  for (int i = 1; i <= n; ++i) {
    T[i].st = ST_RUNNABLE;
    T[i].futex = 0;
    T[i].depth = 0;
    T[i].parked_until = 0;
    join(T[i].vc, T[0].vc);
  }
  ++T[0].vc.c[0];
  const bool was_on = g_on;
  g_on = false;
  for (int i = 0; i < n; ++i) {
    g_start[i] = StartArg{fn, arg, i};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, reinterpret_cast<void*>(STACK_BASE + STACK_SIZE * static_cast<size_t>(i)), STACK_SIZE);
    if (pthread_create(&T[i + 1].pt, &at, thread_main, &g_start[i]) != 0) harness_error("pthread_create");
    pthread_attr_destroy(&at);
    futex_wait(&g_ready);
  }
  g_on = was_on;
  g_threads = true;
  T[0].st = ST_BLOCKED;
  T[0].wait_on = &g_threads;
  int first = C.script_mode ? 1 : 1 + static_cast<int>(g_rng.below(static_cast<uint64_t>(n)));
  if (C.script_mode) {
    if (g_script_pos < C.script_len && C.script[g_script_pos].step <= S.steps) {
      int want = C.script[g_script_pos++].tid;
      if (want >= 1 && want <= n) first = want;
    }
  } else {
    g_pre.push(Preempt{S.steps, first});
  }
  switch_to(first);
  g_threads = false;
  g_on = false;
  for (int i = 1; i <= n; ++i) {
    pthread_join(T[i].pt, nullptr);
    join(T[0].vc, T[i].vc);
    T[i].st = ST_NONE;
  }
  g_nthreads = 0;
  g_on = was_on;
}

}  // namespace sim

using namespace sim;

// =================================================================================================
// operator new / delete
// =================================================================================================
static void* new_impl(size_t n, size_t align) {
  if (!g_arena_ready) boot_map();
  if (g_on || g_boot) return arena_alloc(n, align);
  void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
  return p;
}
static void delete_impl(void* p) {
  if (!p) return;
  if (in_arena(p)) {
    // Frees that happen outside the simulated section (process teardown) are accounted as well.
    arena_free(p);
  } else {
    free(p);
  }
}
void* operator new(size_t n) { void* p = new_impl(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = new_impl(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = new_impl(n, static_cast<size_t>(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = new_impl(n, static_cast<size_t>(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return new_impl(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { delete_impl(p); }
void operator delete[](void* p) noexcept { delete_impl(p); }
void operator delete(void* p, size_t) noexcept { delete_impl(p); }
void operator delete[](void* p, size_t) noexcept { delete_impl(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { delete_impl(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delete_impl(p); }
void operator delete(void* p, std::align_val_t) noexcept { delete_impl(p); }
void operator delete[](void* p, std::align_val_t) noexcept { delete_impl(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { delete_impl(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { delete_impl(p); }

// =================================================================================================
// __tsan_* entry points emitted by the compiler
// =================================================================================================
#define HOOK extern "C" __attribute__((visibility("default")))
#ifdef WFSIM_COVER
// (development only: which instrumented places were executed)
static uint8_t* g_cover = [] {
  const char* f = getenv("WFSIM_COVER");
  if (!f) return static_cast<uint8_t*>(nullptr);
  const int fd = open(f, O_RDWR | O_CREAT, 0644);
  if (ftruncate(fd, 64 << 20)) abort();
  return static_cast<uint8_t*>(mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
}();
#define COVER() do { if (g_cover) { const uintptr_t q = reinterpret_cast<uintptr_t>(__builtin_return_address(0)); if (q < (64u << 20)) g_cover[q] = 1; } } while (0)
#else
#define COVER() do {} while (0)
#endif
static inline void plain(void* a, size_t n, bool w) {
  if (__builtin_expect(!g_on, 0)) return;
  uintptr_t u = reinterpret_cast<uintptr_t>(a);
  double p = 0;
  if (__builtin_expect(g_threads && C.p_static > 0 && u >= g_static_lo && u < g_static_hi, 0)) p = C.p_static;
  point(p);
  access(u, n, w);
}
HOOK void __tsan_init() {}
HOOK void __tsan_func_entry(void* pc) {
  COVER();
  if (!g_on) return;
  Thr& t = T[t_tid];
  if (t.depth < STACKMAX) t.stack[t.depth] = reinterpret_cast<uint64_t>(__builtin_return_address(0));
  ++t.depth;
  (void)pc;
}
HOOK void __tsan_func_exit() {
  if (!g_on) return;
  Thr& t = T[t_tid];
  if (t.depth) --t.depth;
}
#define RW(n) \
  HOOK void __tsan_read##n(void* a) { COVER(); plain(a, n, false); } \
  HOOK void __tsan_write##n(void* a) { COVER(); plain(a, n, true); } \
  HOOK void __tsan_unaligned_read##n(void* a) { COVER(); plain(a, n, false); } \
  HOOK void __tsan_unaligned_write##n(void* a) { COVER(); plain(a, n, true); } \
  HOOK void __tsan_volatile_read##n(void* a) { COVER(); plain(a, n, false); } \
  HOOK void __tsan_volatile_write##n(void* a) { COVER(); plain(a, n, true); } \
  HOOK void __tsan_unaligned_volatile_read##n(void* a) { COVER(); plain(a, n, false); } \
  HOOK void __tsan_unaligned_volatile_write##n(void* a) { COVER(); plain(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
HOOK void __tsan_read_range(void* a, unsigned long n) { if (n) plain(a, n, false); }
HOOK void __tsan_write_range(void* a, unsigned long n) { if (n) plain(a, n, true); }
HOOK void __tsan_vptr_update(void** a, void* v) {
  if (!g_on) return;
  point(0);  // always: whether fresh memory of an exception object already holds v is not decided by the plan
  if (*a != v) access(reinterpret_cast<uintptr_t>(a), 8, true);
}
HOOK void __tsan_vptr_read(void** a) { COVER(); plain(a, 8, false); }

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_pre(const volatile void* a, size_t n, bool write) {
  if (!g_on) return;
  ++S.atomics;
  point(C.p_atomic);
  atomic_access(reinterpret_cast<uintptr_t>(a), n, write);
}
static inline void sync_each(const volatile void* a, size_t n, int op) {
  if (!g_threads || !g_on) return;
  uintptr_t u = reinterpret_cast<uintptr_t>(a) & ~uintptr_t(3);
  size_t end = reinterpret_cast<uintptr_t>(a) + n;
  for (; u < end; u += 4) {
    void* q = reinterpret_cast<void*>(u);
    if (op == 0) sync_acquire(q);
    else if (op == 1) sync_release_store(q);
    else sync_release(q);
  }
}
#define ATOMIC(bits, type) \
  HOOK type __tsan_atomic##bits##_load(const volatile type* a, int mo) { \
    at_pre(a, bits / 8, false); \
    type v = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    if (acq(mo)) sync_each(a, bits / 8, 0); \
    return v; } \
  HOOK void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) { \
    at_pre(a, bits / 8, true); \
    if (rel(mo)) sync_each(a, bits / 8, 1); \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  HOOK type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo) { \
    at_pre(a, bits / 8, true); \
    if (acq(mo)) sync_each(a, bits / 8, 0); \
    if (rel(mo)) sync_each(a, bits / 8, 2); \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  HOOK type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo) { \
    at_pre(a, bits / 8, true); \
    if (acq(mo)) sync_each(a, bits / 8, 0); \
    if (rel(mo)) sync_each(a, bits / 8, 2); \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  HOOK type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo) { \
    at_pre(a, bits / 8, true); \
    if (acq(mo)) sync_each(a, bits / 8, 0); \
    if (rel(mo)) sync_each(a, bits / 8, 2); \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  HOOK type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo) { \
    at_pre(a, bits / 8, true); \
    if (acq(mo)) sync_each(a, bits / 8, 0); \
    if (rel(mo)) sync_each(a, bits / 8, 2); \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  HOOK type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo) { \
    at_pre(a, bits / 8, true); \
    if (acq(mo)) sync_each(a, bits / 8, 0); \
    if (rel(mo)) sync_each(a, bits / 8, 2); \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  HOOK type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int mo) { \
    at_pre(a, bits / 8, true); \
    if (acq(mo)) sync_each(a, bits / 8, 0); \
    if (rel(mo)) sync_each(a, bits / 8, 2); \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  HOOK type __tsan_atomic##bits##_fetch_nand(volatile type* a, type v, int mo) { \
    at_pre(a, bits / 8, true); \
    if (acq(mo)) sync_each(a, bits / 8, 0); \
    if (rel(mo)) sync_each(a, bits / 8, 2); \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  HOOK int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int mo, int fmo) { \
    at_pre(a, bits / 8, true); \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (acq(ok ? mo : fmo)) sync_each(a, bits / 8, 0); \
    if (ok && rel(mo)) sync_each(a, bits / 8, 2); \
    return ok; } \
  HOOK int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
  HOOK type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int mo, int fmo) { \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); \
    return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
static char g_fence;
HOOK void __tsan_atomic_thread_fence(int mo) {
  if (!g_on || !g_threads) return;
  point(C.p_atomic);
  if (acq(mo)) sync_acquire(&g_fence);
  if (rel(mo)) sync_release(&g_fence);
}
HOOK void __tsan_atomic_signal_fence(int) {}

// =================================================================================================
// wrapped library calls
// =================================================================================================
// ---- function-local statics ----
extern "C" int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (!g_on) return __real___cxa_guard_acquire(g);
  volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g);
  ++S.syncs;
  point(C.p_sync);
  for (;;) {
    if (b[0]) { if (g_threads) sync_acquire(g); return 0; }
    if (!b[1]) {
      b[1] = static_cast<uint8_t>(1 + t_tid);
      if (g_threads) sync_acquire(g);
      ++S.guard_inits;
      return 1;
    }
    if (b[1] == 1 + t_tid) violation("recursive-init", "a function-local static is initialised recursively");
    ++S.guard_waits;
    if (!g_threads) violation("deadlock", "waiting for a static initialisation that never finishes");
    block_on(g);
  }
}
extern "C" void __wrap___cxa_guard_release(uint64_t* g) {
  if (!g_on) return __real___cxa_guard_release(g);
  volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g);
  point(C.p_sync);
  b[1] = 0;
  b[0] = 1;
  if (g_threads) {
    uintptr_t u = reinterpret_cast<uintptr_t>(g) & ~uintptr_t(3);
    sync_release(reinterpret_cast<void*>(u));
    sync_release(g);
    wake_all(g);
  }
  point(C.p_sync);
}
extern "C" void __wrap___cxa_guard_abort(uint64_t* g) {
  if (!g_on) return __real___cxa_guard_abort(g);
  volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g);
  b[1] = 0;
  if (g_threads) { sync_release(g); wake_all(g); }
}

// ---- mutexes: owner stored out of band ----
namespace {
struct Mx { uintptr_t k; int owner; int count; };
Vec<Mx> g_mx;
Mx& mx(void* m) {
  for (size_t i = 0; i < g_mx.n; ++i) if (g_mx[i].k == reinterpret_cast<uintptr_t>(m)) return g_mx[i];
  g_mx.push(Mx{reinterpret_cast<uintptr_t>(m), -1, 0});
  return g_mx[g_mx.n - 1];
}
}  // namespace
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!g_on) return __real_pthread_mutex_lock(m);
  ++S.syncs;
  point(C.p_sync);
  while (mx(m).owner >= 0) {
    if (mx(m).owner == t_tid) {
      if (m->__data.__kind & PTHREAD_MUTEX_RECURSIVE_NP) { ++mx(m).count; return 0; }
      violation("deadlock", "a thread locks a mutex it already holds");
    }
    ++S.mutex_waits;
    block_on(m);
  }
  mx(m).owner = t_tid;
  if (g_threads) sync_acquire(m);
  return 0;
}
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!g_on) return __real_pthread_mutex_trylock(m);
  ++S.syncs;
  point(C.p_sync);
  if (mx(m).owner >= 0) return EBUSY;
  mx(m).owner = t_tid;
  if (g_threads) sync_acquire(m);
  return 0;
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!g_on) return __real_pthread_mutex_unlock(m);
  Mx& x = mx(m);
  if (x.owner != t_tid) violation("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
  if (x.count) { --x.count; return 0; }
  x.owner = -1;
  if (g_threads) { sync_release(m); wake_all(m); }
  point(C.p_sync);
  return 0;
}
// ---- rwlocks (std::shared_mutex) ----
namespace {
struct Rw { uintptr_t k; int writer; int readers; };
Vec<Rw> g_rw;
Rw& rw(void* m) {
  for (size_t i = 0; i < g_rw.n; ++i) if (g_rw[i].k == reinterpret_cast<uintptr_t>(m)) return g_rw[i];
  g_rw.push(Rw{reinterpret_cast<uintptr_t>(m), -1, 0});
  return g_rw[g_rw.n - 1];
}
}  // namespace
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  ++S.syncs;
  point(C.p_sync);
  while (rw(m).writer >= 0) { ++S.mutex_waits; block_on(m); }
  ++rw(m).readers;
  if (g_threads) sync_acquire(m);
  return 0;
}
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  ++S.syncs;
  point(C.p_sync);
  while (rw(m).writer >= 0 || rw(m).readers > 0) { ++S.mutex_waits; block_on(m); }
  rw(m).writer = t_tid;
  if (g_threads) sync_acquire(m);
  return 0;
}
extern "C" int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (rw(m).writer == t_tid) rw(m).writer = -1; else --rw(m).readers;
  if (g_threads) { sync_release(m); wake_all(m); }
  point(C.p_sync);
  return 0;
}
extern "C" int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  ++S.syncs;
  point(C.p_sync);
  if (rw(m).writer >= 0) return EBUSY;
  ++rw(m).readers;
  if (g_threads) sync_acquire(m);
  return 0;
}
extern "C" int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  ++S.syncs;
  point(C.p_sync);
  if (rw(m).writer >= 0 || rw(m).readers > 0) return EBUSY;
  rw(m).writer = t_tid;
  if (g_threads) sync_acquire(m);
  return 0;
}
// ---- condition variables: every waiter wakes up (wake-ups may be spurious); a timed wait times out at once when nothing else can run ----
extern "C" int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!g_on) return __real_pthread_cond_wait(c, m);
  __wrap_pthread_mutex_unlock(m);
  if (!g_threads) violation("deadlock", "waiting for a condition that nobody else can signal");
  ++S.mutex_waits;
  block_on(c);
  sync_acquire(c);
  return __wrap_pthread_mutex_lock(m);
}
static int timed_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  __wrap_pthread_mutex_unlock(m);
  g_mono += 1000000;
  ++S.mutex_waits;
  if (g_threads) sync_acquire(c);
  const int e = __wrap_pthread_mutex_lock(m);
  return e ? e : ETIMEDOUT;
}
extern "C" int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  return g_on ? timed_wait(c, m) : __real_pthread_cond_timedwait(c, m, t);
}
extern "C" int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  return g_on ? timed_wait(c, m) : __real_pthread_cond_clockwait(c, m, k, t);
}
extern "C" int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!g_on) return __real_pthread_cond_broadcast(c);
  ++S.syncs;
  point(C.p_sync);
  if (g_threads) { sync_release(c); wake_all(c); }
  return 0;
}
extern "C" int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!g_on) return __real_pthread_cond_signal(c);
  return __wrap_pthread_cond_broadcast(c);
}
// ---- giving way and sleeping: time passes, another thread may run ----
extern "C" int __wrap_sched_yield() {
  if (!g_on) return __real_sched_yield();
  point(0.5);
  return 0;
}
static int doze(const struct timespec* t) {
  g_mono += t->tv_sec * 1000000000ll + t->tv_nsec;
  point(0.9);
  return 0;
}
extern "C" int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { return g_on ? doze(t) : __real_nanosleep(t, r); }
extern "C" int __wrap_clock_nanosleep(clockid_t k, int f, const struct timespec* t, struct timespec* r) {
  return g_on && !(f & TIMER_ABSTIME) ? doze(t) : __real_clock_nanosleep(k, f, t, r);
}
// ---- call_once ----
namespace {
struct Once { uintptr_t k; int state; };
Vec<Once> g_once;
}  // namespace
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!g_on) return __real_pthread_once(o, f);
  ++S.syncs;
  point(C.p_sync);
  size_t i = 0;
  for (; i < g_once.n; ++i) if (g_once[i].k == reinterpret_cast<uintptr_t>(o)) break;
  if (i == g_once.n) g_once.push(Once{reinterpret_cast<uintptr_t>(o), 0});
  for (;;) {
    if (g_once[i].state == 2) { if (g_threads) sync_acquire(o); return 0; }
    if (g_once[i].state == 0) {
      g_once[i].state = 1;
      try { f(); } catch (...) {
        g_once[i].state = 0;
        if (g_threads) wake_all(o);
        throw;
      }
      g_once[i].state = 2;
      if (g_threads) { sync_release(o); wake_all(o); }
      return 0;
    }
    block_on(o);
  }
}

// ---- memory functions called from instrumented code ----
static inline void mem(const void* p, size_t n, bool w) {
  if (!g_on || !n || !t_live) return;
#ifdef SIMLOG
  if (g_threads) simlog(__builtin_return_address(0));
#endif
  ++S.steps;  // no preemption here: the caller may be inside libc and hold a real lock
  access(reinterpret_cast<uintptr_t>(p), n, w);
}
extern "C" void* __wrap_memcpy(void* d, const void* s, size_t n) { mem(s, n, false); mem(d, n, true); return __real_memcpy(d, s, n); }
extern "C" void* __wrap_memmove(void* d, const void* s, size_t n) { mem(s, n, false); mem(d, n, true); return __real_memmove(d, s, n); }
extern "C" void* __wrap_memset(void* d, int c, size_t n) { mem(d, n, true); return __real_memset(d, c, n); }
extern "C" int __wrap_memcmp(const void* a, const void* b, size_t n) { mem(a, n, false); mem(b, n, false); return __real_memcmp(a, b, n); }

// What libc's own allocator copies or clears depends on the state of its heap: not part of the execution.
struct Quiet { bool was = t_live; Quiet() { t_live = false; } ~Quiet() { t_live = was; } };
extern "C" void* __wrap_malloc(size_t n) { Quiet q; return __real_malloc(n); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { Quiet q; return __real_calloc(a, b); }
extern "C" void* __wrap_realloc(void* p, size_t n) { Quiet q; return __real_realloc(p, n); }
extern "C" void __wrap_free(void* p) { Quiet q; __real_free(p); }

// ---- clock, thread ids ----
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
  if (!g_on) return __real_clock_gettime(id, ts);
  point(C.p_sync);
  clock_advance();
  int64_t t = g_mono;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += g_wall_off;
  ts->tv_sec = t / 1000000000ll;
  ts->tv_nsec = t % 1000000000ll;
  return 0;
}
extern "C" long __wrap_syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (g_on && n == SYS_gettid) return 7000 + t_tid;
  return __real_syscall(n, a, b, c, d, e, f);
}
extern "C" pid_t __real_getpid();
extern "C" pid_t __wrap_getpid() { return g_on ? 4242 : __real_getpid(); }
extern "C" pid_t __real_gettid();
extern "C" pid_t __wrap_gettid() { return g_on ? 7000 + t_tid : __real_gettid(); }

// ---- file writes from libstdc++ streams ----
static ssize_t faulty_write(int fd, const void* p, size_t n) {
  ++g_ff_calls;
  if (FF.kind == 1) {
    if (g_ff_written + n > FF.n) {
      size_t room = FF.n > g_ff_written ? FF.n - g_ff_written : 0;
      ++g_ff_fired;
      if (room == 0) { errno = ENOSPC; return -1; }
      n = room;
    }
  } else if (FF.kind == 2) {
    if (g_ff_calls >= FF.n) { ++g_ff_fired; errno = EIO; return -1; }
  } else if (FF.kind == 3) {
    if (n > 1) { n = 1 + g_frng.below(n); ++g_ff_fired; }
    if (g_frng.chance(0.2)) { errno = EINTR; return -1; }
  }
  ssize_t r = __real_write(fd, p, n);
  if (r > 0) g_ff_written += static_cast<uint64_t>(r);
  return r;
}
extern "C" ssize_t __wrap_write(int fd, const void* p, size_t n) {
  if (!g_on || FF.kind == 0 || fd <= 2) return __real_write(fd, p, n);
  return faulty_write(fd, p, n);
}
extern "C" ssize_t __wrap_writev(int fd, const struct iovec* v, int k) {
  if (!g_on || FF.kind == 0 || fd <= 2) return __real_writev(fd, v, k);
  for (int i = 0; i < k; ++i) if (v[i].iov_len) return faulty_write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
