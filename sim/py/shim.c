// Interposer preloaded into the Python interpreter of the simulator.
//
//  * heap: once switched on, every allocation of the process (interpreter, wrenfold, NumPy, SymPy)
//    comes from an arena at a fixed address whose layout is drawn from a seed. Freed blocks are
//    overwritten, kept in a quarantine, and checked for later writes; double frees are detected.
//  * threads: exactly one simulated thread runs; it hands the baton to another one at scheduling
//    points only, as a seeded generator (or a replayed script) decides.
//  * files: operations inside the scratch directory can fail, be cut short or be interrupted, and
//    are scheduling points.
//  * process: a crash is recorded with the seed and the position it occurred at by the parent.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

extern void* __libc_malloc(size_t);
extern void __libc_free(void*);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);

static uint64_t splitmix(uint64_t* s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// ------------------------------------------------------------------------------- violations ---
// The first violation seen by the interposer; read by the harness.
static char violation_text[256];
static void violation(const char* what) {
  if (!violation_text[0]) strncpy(violation_text, what, sizeof violation_text - 1);
}
EXPORT const char* sim_violation(void) { return violation_text; }

// Set while simulated threads execute code of the extension module without the interpreter lock.
static int nogil_n;
static void race_new_block(void* p, size_t n);
static void race_free_block(void* p, size_t n);

// ------------------------------------------------------------------------------------- heap ---
#define ARENA_BASE ((char*)0x100000000000ull)
#define ARENA_SIZE (16ull << 30)
#define MAGIC_LIVE 0x11feb10c
#define MAGIC_FREE 0xdeadb10c
#define POISON 0xdb
#define QN 8192
#define QBYTES (24u << 20)

typedef struct {
  uint32_t magic, cls;
  uint64_t size;
} hdr_t;  // 16 bytes

static int heap_on;
static char* bump;
static char* arena_start;
static uint64_t heap_rng;
static int pad_rate;
static uint8_t fresh_fill;
static long live_blocks, live_bytes, total_allocs;
static void* freelist[80];
static hdr_t* quarantine[QN];
static unsigned q_head, q_len, q_bytes;
static atomic_flag heap_lock = ATOMIC_FLAG_INIT;

static void lock_heap(void) {
  while (atomic_flag_test_and_set_explicit(&heap_lock, memory_order_acquire)) {
  }
}
static void unlock_heap(void) { atomic_flag_clear_explicit(&heap_lock, memory_order_release); }

static int in_arena(const void* p) { return (const char*)p >= ARENA_BASE && (const char*)p < ARENA_BASE + ARENA_SIZE; }

// Size classes: 16-byte steps to 512, then four steps per power of two.
static unsigned class_of(size_t n, size_t* rounded) {
  if (n <= 512) {
    unsigned c = n ? (unsigned)((n + 15) / 16) : 1;
    *rounded = c * 16u;
    return c;  // 1..32
  }
  unsigned k = 63 - (unsigned)__builtin_clzll(n - 1);  // 2^k < n <= 2^(k+1)
  size_t step = ((size_t)1 << k) / 4;
  size_t base = (size_t)1 << k;
  unsigned q = (unsigned)((n - base + step - 1) / step);  // 1..4
  *rounded = base + q * step;
  unsigned c = 33 + (k - 9) * 4 + (q - 1);
  return c < 79 ? c : 79;
}

static void check_poison(hdr_t* h) {
  const uint64_t* w = (const uint64_t*)(h + 1);
  size_t n = h->size / 8;
  if (n > 512) n = 512;
  for (size_t i = 0; i < n; ++i)
    if (w[i] != 0xdbdbdbdbdbdbdbdbull) {
      violation("write to freed memory");
      return;
    }
}

static void* heap_alloc(size_t n, int zero) {
  if (n > (4ull << 30)) {
    errno = ENOMEM;
    return NULL;
  }
  lock_heap();
  ++total_allocs;
  size_t want = n;
  if (pad_rate && (splitmix(&heap_rng) >> 40) % 256 < (unsigned)pad_rate) want += 16 * (1 + splitmix(&heap_rng) % 6);
  size_t r;
  unsigned c = class_of(want, &r);
  hdr_t* h;
  int fresh = 0;
  if (c < 79 && freelist[c]) {
    h = (hdr_t*)freelist[c];
    freelist[c] = *(void**)(h + 1);
  } else {
    h = (hdr_t*)bump;
    bump += sizeof(hdr_t) + r;
    if (bump > ARENA_BASE + ARENA_SIZE) {
      unlock_heap();
      errno = ENOMEM;
      return NULL;
    }
    h->size = r;
    h->cls = c;
    fresh = 1;
  }
  h->magic = MAGIC_LIVE;
  ++live_blocks;
  live_bytes += (long)h->size;
  unlock_heap();
  if (zero) {
    if (!fresh) memset(h + 1, 0, n);
  } else {
    memset(h + 1, fresh_fill, h->size < 256 ? h->size : 256);
  }
  if (nogil_n) race_new_block(h + 1, h->size);
  return h + 1;
}

static void heap_free(void* p) {
  hdr_t* h = (hdr_t*)p - 1;
  if (h->magic != MAGIC_LIVE) {
    violation(h->magic == MAGIC_FREE ? "memory freed twice" : "free of something that was not allocated");
    return;
  }
  if (nogil_n) race_free_block(p, h->size);
  lock_heap();
  h->magic = MAGIC_FREE;
  --live_blocks;
  live_bytes -= (long)h->size;
  memset(h + 1, POISON, h->size < (1u << 20) ? h->size : 1u << 20);
  if (h->cls >= 79 || h->size > (1u << 20)) {
    // large blocks are never reused; give the pages back
    uintptr_t a = ((uintptr_t)(h + 1) + 4096 + 4095) & ~4095ull, b = ((uintptr_t)(h + 1) + h->size) & ~4095ull;
    if (b > a) madvise((void*)a, b - a, MADV_DONTNEED);
    unlock_heap();
    return;
  }
  while (q_len == QN || (q_len && q_bytes + h->size > QBYTES)) {
    hdr_t* o = quarantine[q_head];
    q_head = (q_head + 1) % QN;
    --q_len;
    q_bytes -= (unsigned)o->size;
    check_poison(o);
    *(void**)(o + 1) = freelist[o->cls];
    freelist[o->cls] = o;
  }
  quarantine[(q_head + q_len) % QN] = h;
  ++q_len;
  q_bytes += (unsigned)h->size;
  unlock_heap();
}

EXPORT void* malloc(size_t n) { return heap_on ? heap_alloc(n, 0) : __libc_malloc(n); }
EXPORT void* calloc(size_t a, size_t b) {
  if (!heap_on) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return NULL;
  }
  return heap_alloc(n, 1);
}
EXPORT void free(void* p) {
  if (!p) return;
  if (in_arena(p)) {
    int e = errno;
    heap_free(p);
    errno = e;
  } else {
    // a block from before the simulation began: counts as one less
    if (heap_on) {
      lock_heap();
      --live_blocks;
      unlock_heap();
    }
    __libc_free(p);
  }
}
EXPORT size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  if (in_arena(p)) return ((hdr_t*)p - 1)->size;
  static size_t (*real)(void*);
  if (!real) real = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
  return real(p);
}
EXPORT void* realloc(void* p, size_t n) {
  if (!heap_on && !in_arena(p)) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  if (n == 0) {
    free(p);
    return NULL;
  }
  size_t old = malloc_usable_size(p);
  void* q = malloc(n);
  if (!q) return NULL;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
static void* aligned(size_t a, size_t n) {
  if (!heap_on) return __libc_memalign(a, n);
  if (a <= 16) return heap_alloc(n, 0);
  // over-aligned blocks stay with the C library (few, and never Python objects)
  return __libc_memalign(a, n);
}
EXPORT void* memalign(size_t a, size_t n) { return aligned(a, n); }
EXPORT void* aligned_alloc(size_t a, size_t n) { return aligned(a, n); }
EXPORT int posix_memalign(void** out, size_t a, size_t n) {
  void* p = aligned(a, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

// Reserves the arena; done once, before any simulated process is forked.
EXPORT int sim_heap_init(void) {
  void* p = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  return p == (void*)ARENA_BASE ? 0 : -1;
}
EXPORT void sim_heap_start(uint64_t seed, int pad, int fill) {
  heap_rng = seed;
  pad_rate = pad;
  fresh_fill = (uint8_t)fill;
  uint64_t s = seed ^ 0x51ed;
  arena_start = bump = ARENA_BASE + (pad ? (splitmix(&s) % 65536) * 16 : 0);
  heap_on = 1;
}
EXPORT long sim_live_blocks(void) { return live_blocks; }
EXPORT long sim_live_bytes(void) { return live_bytes; }
EXPORT long sim_total_allocs(void) { return total_allocs; }
// Verifies everything in quarantine.
EXPORT void sim_heap_check(void) {
  lock_heap();
  for (unsigned i = 0; i < q_len; ++i) check_poison(quarantine[(q_head + i) % QN]);
  unlock_heap();
}
// Live blocks by size class allocated since `mark` (for describing a leak).
EXPORT char* sim_heap_mark(void) { return bump; }
EXPORT int sim_is_freed(const void* p) { return in_arena(p) && ((const hdr_t*)p - 1)->magic == MAGIC_FREE; }

// ---------------------------------------------------------------------------------- threads ---
#define MAXT 16
enum { T_NONE, T_READY, T_BLOCKED, T_DONE };
static int nthreads, started, current = -1;
static int tstate[MAXT];
static _Atomic uint32_t baton[MAXT];
static uint64_t sched_rng, sched_hash = 1469598103934665603ull;
static long sched_step, n_switch, n_points;
static double sched_p;
static int script_mode;
static struct pre { long step; int tid; } script[65536], taken[65536];
static int n_script, n_taken, script_pos;
static __thread int my_tid = -1;
static __thread int no_yield;

static _Atomic uint32_t parked, finished;
static long step_limit = 2000000;
// The process cannot go on: end it; the parent knows these codes.
EXPORT void sim_die(int code) { syscall(SYS_exit_group, code); }
EXPORT void sim_step_limit(long n) { step_limit = n; }

static long futex(_Atomic uint32_t* u, int op, uint32_t v) { return syscall(SYS_futex, u, op, v, NULL, NULL, 0); }
static void wait_baton(int t) {
  while (atomic_load(&baton[t]) == 0) futex(&baton[t], FUTEX_WAIT_PRIVATE, 0);
  atomic_store(&baton[t], 0);
}
static void give_baton(int t) {
  current = t;
  atomic_store(&baton[t], 1);
  futex(&baton[t], FUTEX_WAKE_PRIVATE, 1);
}
EXPORT void sim_hash(uint64_t v) {
  sched_hash = (sched_hash ^ v) * 1099511628211ull;
  sched_hash ^= sched_hash >> 29;
}
EXPORT uint64_t sim_hash_get(void) { return sched_hash; }

EXPORT void sim_sched_init(int n, uint64_t seed, double p, int scripted) {
  nthreads = n;
  started = 0;
  sched_rng = seed;
  sched_p = p;
  script_mode = scripted;
  n_script = n_taken = script_pos = 0;
  sched_step = 0;
  for (int i = 0; i < n; ++i) {
    tstate[i] = T_READY;
    atomic_store(&baton[i], 0);
  }
  current = -1;
}
EXPORT void sim_script_add(long step, int tid) {
  if (n_script < 65536) {
    script[n_script].step = step;
    script[n_script++].tid = tid;
  }
}
EXPORT long sim_steps(void) { return n_points; }
EXPORT long sim_switches(void) { return n_switch; }
EXPORT int sim_taken(long* out, int max) {
  int n = n_taken < max ? n_taken : max;
  for (int i = 0; i < n; ++i) {
    out[2 * i] = taken[i].step;
    out[2 * i + 1] = taken[i].tid;
  }
  return n_taken;
}
static int pick_other(int me, uint64_t r) {
  int c = 0, cand[MAXT];
  for (int i = 0; i < nthreads; ++i)
    if (i != me && tstate[i] == T_READY) cand[c++] = i;
  return c ? cand[r % (unsigned)c] : -1;
}
// A thread that waits for a lock while it holds the interpreter lock: no other thread may take the
// interpreter lock until it has gone on.
static int gil_keeper = -1;
static __thread int nogil;
static void switch_once(int me, int to) {
  ++n_switch;
  sim_hash(((uint64_t)sched_step << 8) | (unsigned)to);
  give_baton(to);
  wait_baton(me);
}
static int yield_blocked(void);
static void wait_for_keeper(int me) {
  while (gil_keeper >= 0 && gil_keeper != me && !nogil)
    if (yield_blocked() != 0) sim_die(87);
}
static void switch_to(int me, int to) {
  switch_once(me, to);
  wait_for_keeper(me);
}
// A scheduling point of the calling simulated thread. The caller must not hold the interpreter lock.
EXPORT void sim_yield(void) {
  int me = my_tid;
  if (me < 0 || no_yield || current != me) return;
  ++n_points;
  long s = ++sched_step;
  if (n_points > step_limit) sim_die(88);
  int to = -1;
  if (script_mode) {
    while (script_pos < n_script && script[script_pos].step < s) ++script_pos;
    if (script_pos < n_script && script[script_pos].step == s) {
      int t = script[script_pos].tid;
      if (t >= 0 && t < nthreads && t != me && tstate[t] == T_READY) to = t;
    }
  } else {
    uint64_t r = splitmix(&sched_rng);
    if ((double)(r >> 11) * 0x1p-53 < sched_p) to = pick_other(me, splitmix(&sched_rng));
  }
  if (to < 0) return;
  if (n_taken < 65536) {
    taken[n_taken].step = s;
    taken[n_taken].tid = to;
  }
  ++n_taken;
  switch_to(me, to);
}
// The calling thread cannot go on (a lock is taken): run another one.
static int yield_blocked(void) {
  int me = my_tid;
  if (me < 0 || current != me) return -1;
  tstate[me] = T_BLOCKED;
  int to = -1;
  for (int k = 1; k <= nthreads && to < 0; ++k)
    if (tstate[(me + k) % nthreads] == T_READY) to = (me + k) % nthreads;
  if (to < 0) {
    tstate[me] = T_READY;
    return -1;
  }
  ++sched_step;
  switch_once(me, to);
  return 0;
}
static void unblock_all(void) {
  for (int i = 0; i < nthreads; ++i)
    if (tstate[i] == T_BLOCKED) tstate[i] = T_READY;
}
EXPORT void sim_thread_begin(int tid) {
  my_tid = tid;
  atomic_fetch_add(&parked, 1);
  futex(&parked, FUTEX_WAKE_PRIVATE, 1);
  wait_baton(tid);
}
// Called by the main thread: waits until `n` simulated threads stand at their start.
EXPORT void sim_wait_parked(uint32_t n) {
  uint32_t v;
  while ((v = atomic_load(&parked)) < n) futex(&parked, FUTEX_WAIT_PRIVATE, v);
}
// Called by the main thread: lets the simulated threads run until all of them have ended.
EXPORT void sim_sched_go(int first) {
  give_baton(first);
  while (atomic_load(&finished) == 0) futex(&finished, FUTEX_WAIT_PRIVATE, 0);
  atomic_store(&finished, 0);
  atomic_store(&parked, 0);
}
EXPORT void sim_thread_end(void) {
  int me = my_tid;
  if (me < 0) return;
  my_tid = -1;
  tstate[me] = T_DONE;
  unblock_all();
  for (int i = 0; i < nthreads; ++i)
    if (tstate[i] == T_READY) {
      ++sched_step;
      sim_hash(((uint64_t)sched_step << 8) | (unsigned)i);
      give_baton(i);
      for (;;) pause();  // never returns to the interpreter: what it would do there is not scheduled
    }
  for (int i = 0; i < nthreads; ++i)
    if (tstate[i] == T_BLOCKED) sim_die(87);
  current = -1;
  atomic_store(&finished, 1);
  futex(&finished, FUTEX_WAKE_PRIVATE, 1);
  for (;;) pause();
}
EXPORT void sim_no_yield(int d) { no_yield += d; }

// Locks of the interpreter (threading.Lock) and of C++ (std::mutex): blocking is a scheduling matter.
static int (*py_gil_check)(void);
static int gil_held(void) {
  if (!py_gil_check) py_gil_check = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
  return py_gil_check ? py_gil_check() : 0;
}
#define REAL(name) \
  static __typeof__(&name) real; \
  if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

EXPORT int sem_wait(sem_t* s) {
  REAL(sem_wait);
  if (my_tid < 0 || current != my_tid) return real(s);
  while (sem_trywait(s) != 0) {
    if (errno != EAGAIN) return -1;
    if (yield_blocked() != 0) sim_die(87);
  }
  return 0;
}
EXPORT int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) {
  REAL(sem_clockwait);
  if (my_tid < 0 || current != my_tid) return real(s, c, t);
  while (sem_trywait(s) != 0) {
    if (errno != EAGAIN) return -1;
    if (yield_blocked() != 0) {  // nobody else can run: the wait times out
      errno = ETIMEDOUT;
      return -1;
    }
  }
  return 0;
}
EXPORT int sem_post(sem_t* s) {
  REAL(sem_post);
  if (my_tid >= 0 && current == my_tid) unblock_all();
  return real(s);
}
// The calling thread waits until another one unlocks something. Waiting with the interpreter lock held
// keeps the others out of the interpreter.
static void wait_for_other(void) {
  int keep = gil_held();
  if (keep) gil_keeper = my_tid;
  if (yield_blocked() != 0) sim_die(87);
  if (keep) {
    gil_keeper = -1;
    unblock_all();
  } else {
    wait_for_keeper(my_tid);
  }
}

// ------------------------------------------------------------- code without the interpreter lock ---
// The module is compiled with -fsanitize=thread against the functions below. While every simulated
// thread holds the interpreter lock when it executes the module, accesses are ordered and nothing is
// done. When a thread releases the lock and goes on in the module, accesses of all simulated
// threads are checked with vector clocks, and are scheduling points of the thread without the lock.
// Index 0 stands for "whoever holds the interpreter lock".
#define NV 9
typedef struct { uint32_t c[NV]; } vc_t;
typedef struct {
  uintptr_t word;
  uint32_t gen, w, aw, r[NV];
  uint8_t wt, wm, awt, awm, rm[NV];
} cell_t;
typedef struct { uintptr_t addr; uint32_t gen; vc_t vc; } sync_t;
#define NCELL (1u << 19)
#define NSYNC (1u << 16)
static cell_t cells[NCELL];
static sync_t syncs[NSYNC];
static uint32_t race_gen = 1, n_cells, n_syncs;
static vc_t tvc[NV];
static long n_nogil, n_race_checks, race_gap;
static uint64_t race_rng;
EXPORT long sim_race_stat(int what) { return what == 0 ? n_nogil : n_race_checks; }

static int vid(void) { return my_tid < 0 ? -1 : nogil ? my_tid + 1 : 0; }
static void vjoin(vc_t* a, const vc_t* b) {
  for (int i = 0; i < NV; ++i)
    if (a->c[i] < b->c[i]) a->c[i] = b->c[i];
}
static sync_t* sync_of(const volatile void* a, int make) {
  for (size_t h = ((uintptr_t)a * 0x9e3779b97f4a7c15ull) >> 48, k = 0; k < 64; ++k) {
    sync_t* s = &syncs[(h + k) % NSYNC];
    if (s->gen != race_gen) {
      if (!make || n_syncs > NSYNC / 2) return NULL;
      ++n_syncs;
      memset(s, 0, sizeof *s);
      s->gen = race_gen;
      s->addr = (uintptr_t)a;
      return s;
    }
    if (s->addr == (uintptr_t)a) return s;
  }
  return NULL;
}
static void sync_acquire(const volatile void* a) {
  int t = vid();
  sync_t* s = t < 0 ? NULL : sync_of(a, 0);
  if (s) vjoin(&tvc[t], &s->vc);
}
static void sync_release(const volatile void* a) {
  int t = vid();
  sync_t* s = t < 0 ? NULL : sync_of(a, 1);
  if (s) {
    vjoin(&s->vc, &tvc[t]);
    ++tvc[t].c[t];
  }
}
static cell_t* cell_of(uintptr_t word, int make) {
  for (size_t h = ((word >> 3) * 0x9e3779b97f4a7c15ull) >> 45, k = 0; k < 64; ++k) {
    cell_t* c = &cells[(h + k) % NCELL];
    if (c->gen != race_gen) {
      if (!make || n_cells > NCELL / 4 * 3) return NULL;
      ++n_cells;
      memset(c, 0, sizeof *c);
      c->gen = race_gen;
      c->word = word;
      return c;
    }
    if (c->word == word) return c;
  }
  return NULL;
}
static void race(const char* what, uintptr_t addr, const void* pc) {
  if (violation_text[0]) return;
  Dl_info i;
  // (the character caches of std::ctype<char> are filled without synchronisation: GCC PR 77704)
  if (dladdr((void*)addr, &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++")) return;
  char b[240];
  const char* f = "?";
  unsigned long off = 0;
  if (dladdr(pc, &i) && i.dli_fname) {
    f = strrchr(i.dli_fname, '/') ? strrchr(i.dli_fname, '/') + 1 : i.dli_fname;
    off = (unsigned long)((const char*)pc - (const char*)i.dli_fbase) - 1;
  }
  snprintf(b, sizeof b, "data race in code that does not hold the interpreter lock: %s at %s+0x%lx", what, f, off);
  violation(b);
}
#define HB(t, epoch, by) ((by) == (t) || tvc[t].c[by] >= (epoch))
static void race_access(uintptr_t a, size_t n, int write, int atomic, const void* pc) {
  int t = vid();
  if (t < 0 || t >= NV || current != my_tid) return;
  if (!atomic && nogil && --race_gap < 0) {
    race_gap = (long)(splitmix(&race_rng) % 400);
    sim_yield();
  }
  ++n_race_checks;
  size_t off = a & 7;
  for (uintptr_t word = a & ~7ul; n; word += 8) {
    size_t m = 8 - off < n ? 8 - off : n;
    uint8_t mask = (uint8_t)(((1u << m) - 1) << off);
    cell_t* c = cell_of(word, 1);
    if (c) {
      if (c->w && (c->wm & mask) && !HB(t, c->w, c->wt)) race(write ? "write after write" : "read after write", word, pc);
      if (!atomic && c->aw && (c->awm & mask) && !HB(t, c->aw, c->awt)) race("plain access after atomic write", word, pc);
      if (write)
        for (int i = 0; i < NV; ++i)
          if (c->r[i] && (c->rm[i] & mask) && !HB(t, c->r[i], i)) race("write after read", word, pc);
      uint32_t e = tvc[t].c[t];
      if (atomic) {
        if (write) c->aw = e, c->awt = (uint8_t)t, c->awm = mask;
      } else if (write) {
        c->wm = c->w == e && c->wt == t ? c->wm | mask : mask;
        c->w = e, c->wt = (uint8_t)t;
      } else {
        c->rm[t] = c->r[t] == e ? c->rm[t] | mask : mask;
        c->r[t] = e;
      }
    }
    n -= m;
    off = 0;
  }
}
static void race_new_block(void* p, size_t n) {
  if (my_tid < 0 || n > (1u << 20)) return;
  for (uintptr_t w = (uintptr_t)p & ~7ul; w < (uintptr_t)p + n; w += 8) {
    cell_t* c = cell_of(w, 0);
    if (c) c->w = c->aw = 0, memset(c->r, 0, sizeof c->r);
  }
  for (uintptr_t w = (uintptr_t)p; n <= 256 && w < (uintptr_t)p + n; w += 4) {
    sync_t* s = sync_of((void*)w, 0);
    if (s) memset(&s->vc, 0, sizeof s->vc);
  }
}
static void race_free_block(void* p, size_t n) {
  if (my_tid >= 0 && n <= (1u << 20)) race_access((uintptr_t)p, n, 1, 0, __builtin_return_address(0));
}
// The calling thread has released the interpreter lock and goes on in the module.
static void race_leave(void) {
  int t = my_tid + 1;
  if (t >= NV) return;
  if (!nogil_n++) {
    ++race_gen;
    n_cells = n_syncs = 0;
    memset(tvc, 0, sizeof tvc);
    for (int i = 0; i < NV; ++i) tvc[i].c[i] = 1;
    race_rng = sched_hash;
    race_gap = 0;
  }
  ++n_nogil;
  vjoin(&tvc[t], &tvc[0]);
  ++tvc[0].c[0];
  ++tvc[t].c[t];
  nogil = 1;
}
static void race_enter(void) {
  int t = my_tid + 1;
  if (t >= NV || !nogil) return;
  vjoin(&tvc[0], &tvc[t]);
  ++tvc[t].c[t];
  nogil = 0;
  --nogil_n;
}

#define ACCESS(a, n, w) \
  if (__builtin_expect(nogil_n != 0, 0)) race_access((uintptr_t)(a), (n), (w), 0, __builtin_return_address(0))
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void* pc) { (void)pc; }
EXPORT void __tsan_func_exit(void) {}
#define RW(n) \
  EXPORT void __tsan_read##n(void* a) { ACCESS(a, n, 0); } \
  EXPORT void __tsan_write##n(void* a) { ACCESS(a, n, 1); } \
  EXPORT void __tsan_unaligned_read##n(void* a) { ACCESS(a, n, 0); } \
  EXPORT void __tsan_unaligned_write##n(void* a) { ACCESS(a, n, 1); } \
  EXPORT void __tsan_volatile_read##n(void* a) { ACCESS(a, n, 0); } \
  EXPORT void __tsan_volatile_write##n(void* a) { ACCESS(a, n, 1); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void* a) { ACCESS(a, n, 0); } \
  EXPORT void __tsan_unaligned_volatile_write##n(void* a) { ACCESS(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* a, unsigned long n) { ACCESS(a, n, 0); }
EXPORT void __tsan_write_range(void* a, unsigned long n) { ACCESS(a, n, 1); }
EXPORT void __tsan_vptr_update(void** a, void* v) {
  // storing the value that is there already conflicts with nothing
  if (*a == v) { ACCESS(a, 8, 0); } else { ACCESS(a, 8, 1); }
}
EXPORT void __tsan_vptr_read(void** a) { ACCESS(a, 8, 0); }

static int mo_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static int mo_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_pre(const volatile void* a, size_t n, int write, const void* pc) {
  if (nogil) sim_yield();
  race_access((uintptr_t)a, n, write, 1, pc);
}
#define PRE(write) if (nogil_n) at_pre(a, sizeof *a, write, __builtin_return_address(0))
#define ACQ(mo) if (nogil_n && mo_acq(mo)) sync_acquire((void*)((uintptr_t)a & ~3ul))
#define REL(mo) if (nogil_n && mo_rel(mo)) sync_release((void*)((uintptr_t)a & ~3ul))
#define RMW(bits, type, op, expr) \
  EXPORT type __tsan_atomic##bits##_##op(volatile type* a, type v, int mo) { \
    PRE(1); ACQ(mo); REL(mo); return expr; }
#define ATOMIC(bits, type) \
  EXPORT type __tsan_atomic##bits##_load(const volatile type* a, int mo) { \
    PRE(0); type v = __atomic_load_n(a, __ATOMIC_SEQ_CST); ACQ(mo); return v; } \
  EXPORT void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) { \
    PRE(1); REL(mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  RMW(bits, type, exchange, __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST)) \
  RMW(bits, type, fetch_add, __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST)) \
  RMW(bits, type, fetch_sub, __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST)) \
  RMW(bits, type, fetch_and, __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST)) \
  RMW(bits, type, fetch_or, __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST)) \
  RMW(bits, type, fetch_xor, __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST)) \
  RMW(bits, type, fetch_nand, __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST)) \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int mo, int fmo) { \
    PRE(1); \
    int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    ACQ(ok ? mo : fmo); \
    if (ok) { REL(mo); } \
    return ok; } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
  EXPORT type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int mo, int fmo) { \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); \
    return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
static char fence_obj;
EXPORT void __tsan_atomic_thread_fence(int mo) {
  char* a = &fence_obj;
  ACQ(mo);
  REL(mo);
}
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// Calls of the module (linked with --wrap).
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n) { ACCESS(s, n, 0); }
  if (n) { ACCESS(d, n, 1); }
  return memcpy(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n) { ACCESS(s, n, 0); }
  if (n) { ACCESS(d, n, 1); }
  return memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int v, size_t n) {
  if (n) { ACCESS(d, n, 1); }
  return memset(d, v, n);
}
EXPORT int __wrap___cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  if (my_tid >= 0 && current == my_tid) {
    if (nogil) sim_yield();
    while (!b[0] && b[1]) wait_for_other();
    if (nogil_n) sync_acquire((void*)((uintptr_t)g & ~3ul));
  }
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
static void guard_end(uint64_t* g, int done) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  if (nogil_n) sync_release((void*)((uintptr_t)g & ~3ul));
  b[1] = 0;
  b[0] = (uint8_t)done;
  if (my_tid >= 0 && current == my_tid) {
    unblock_all();
    if (nogil) sim_yield();
  }
}
EXPORT void __wrap___cxa_guard_release(uint64_t* g) { guard_end(g, 1); }
EXPORT void __wrap___cxa_guard_abort(uint64_t* g) { guard_end(g, 0); }

extern char __executable_start, etext;
static int (*real_mutex_lock)(pthread_mutex_t*);
static char *exe_lo, *exe_hi;
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!real_mutex_lock) real_mutex_lock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  char* ra = (char*)__builtin_return_address(0);
  if (my_tid < 0 || current != my_tid || (ra >= exe_lo && ra < exe_hi)) return real_mutex_lock(m);
  int r;
  if (nogil) sim_yield();
  while ((r = pthread_mutex_trylock(m)) == EBUSY) wait_for_other();
  if (nogil_n) sync_acquire(m);
  return r;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  char* ra = (char*)__builtin_return_address(0);
  if (my_tid < 0 || current != my_tid || (ra >= exe_lo && ra < exe_hi)) return real(m);
  if (nogil_n) sync_release(m);
  int r = real(m);
  unblock_all();
  if (nogil) sim_yield();
  return r;
}
EXPORT void sim_exe_range(uint64_t lo, uint64_t hi) {
  exe_lo = (char*)lo;
  exe_hi = (char*)hi;
}

// The interpreter lock as seen by the extension module (see gilhook.h).
static long n_gil_points;
EXPORT long sim_gil_points(void) { return n_gil_points; }
// A thread without the interpreter lock is about to take it.
static void gil_point(void) {
  ++n_gil_points;
  sim_yield();
  int n = nogil;
  nogil = 0;
  wait_for_keeper(my_tid);
  nogil = n;
}
EXPORT int wfsim_PyGILState_Ensure(void) {
  static int (*real)(void);
  if (!real) real = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Ensure");
  if (my_tid < 0) return real();
  if (!gil_held()) gil_point();
  int s = real();
  if (s == 1) race_enter();
  return s;
}
EXPORT void wfsim_PyGILState_Release(int s) {
  static void (*real)(int);
  if (!real) real = (void (*)(int))dlsym(RTLD_DEFAULT, "PyGILState_Release");
  real(s);
  if (my_tid >= 0 && s == 1) {
    race_leave();
    ++n_gil_points;
    sim_yield();
  }
}
EXPORT void* wfsim_PyEval_SaveThread(void) {
  static void* (*real)(void);
  if (!real) real = (void* (*)(void))dlsym(RTLD_DEFAULT, "PyEval_SaveThread");
  void* r = real();
  if (my_tid >= 0) {
    race_leave();
    ++n_gil_points;
    sim_yield();
  }
  return r;
}
EXPORT void wfsim_PyEval_RestoreThread(void* t) {
  static void (*real)(void*);
  if (!real) real = (void (*)(void*))dlsym(RTLD_DEFAULT, "PyEval_RestoreThread");
  if (my_tid >= 0) gil_point();
  real(t);
  if (my_tid >= 0) race_enter();
}

// ------------------------------------------------------------------------------------ files ---
enum { F_OPEN = 1, F_WRITE, F_CLOSE, F_MKDIR, F_STAT, F_RENAME, F_FSYNC, F_KINDS };
static char scratch[256];
static size_t scratch_len;
static char tracked[4096];
static int n_tracked;
static struct ff { int kind; long at, count; int err; long arg; long fired; } ffault[64];
static int n_ff;
static long op_count[F_KINDS], file_ops, file_faults, short_writes, eintrs;
static long cwd_inside;

EXPORT void sim_file_start(const char* dir, int inside) {
  strncpy(scratch, dir, sizeof scratch - 1);
  scratch_len = strlen(scratch);
  cwd_inside = inside;
}
EXPORT void sim_file_stop(void) { scratch_len = 0; }
EXPORT void sim_file_faults_clear(void) {
  n_ff = 0;
  memset(op_count, 0, sizeof op_count);
}
// err > 0: fail with it; err == 0: short operation of `arg` bytes (write only). count < 0: for good.
EXPORT void sim_file_fault(int kind, long at, long count, int err, long arg) {
  if (n_ff < 64) ffault[n_ff++] = (struct ff){kind, at, count, err, arg, 0};
}
EXPORT long sim_file_stat(int what) {
  return what == 0 ? file_ops : what == 1 ? file_faults : what == 2 ? short_writes : what == 3 ? eintrs : what == 4 ? n_tracked : 0;
}
static __thread int file_pause;
EXPORT void sim_file_pause(int d) { file_pause += d; }
static int inside(const char* path) {
  if (!scratch_len || !path || file_pause) return 0;
  if (path[0] != '/') return (int)cwd_inside;
  return strncmp(path, scratch, scratch_len) == 0;
}
static struct ff* file_point(int kind) {
  ++file_ops;
  if (my_tid >= 0 && !gil_held()) sim_yield();
  long n = op_count[kind]++;
  for (int i = 0; i < n_ff; ++i)
    if (ffault[i].kind == kind && n >= ffault[i].at && (ffault[i].count < 0 || n < ffault[i].at + ffault[i].count)) {
      ++ffault[i].fired;
      ++file_faults;
      if (ffault[i].err == EINTR) ++eintrs;
      sim_hash(0xf11e0000u + (unsigned)kind * 256 + (unsigned)ffault[i].err);
      return &ffault[i];
    }
  return NULL;
}
static int open_common(int dirfd, const char* path, int flags, mode_t mode, int at) {
  int in = inside(path);
  if (in) {
    struct ff* f = file_point(F_OPEN);
    if (f && f->err) {
      errno = f->err;
      return -1;
    }
  }
  int fd = (int)(at ? syscall(SYS_openat, dirfd, path, flags, mode) : syscall(SYS_openat, AT_FDCWD, path, flags, mode));
  if (fd >= 0 && fd < (int)sizeof tracked && in) {
    tracked[fd] = 1;
    ++n_tracked;
  }
  return fd;
}
#define MODE() \
  mode_t mode = 0; \
  if (flags & (O_CREAT | __O_TMPFILE)) { \
    va_list ap; \
    va_start(ap, flags); \
    mode = va_arg(ap, mode_t); \
    va_end(ap); \
  }
EXPORT int open(const char* path, int flags, ...) {
  MODE();
  return open_common(0, path, flags, mode, 0);
}
EXPORT int open64(const char* path, int flags, ...) {
  MODE();
  return open_common(0, path, flags | O_LARGEFILE, mode, 0);
}
EXPORT int openat(int d, const char* path, int flags, ...) {
  MODE();
  return open_common(d, path, flags, mode, 1);
}
EXPORT int openat64(int d, const char* path, int flags, ...) {
  MODE();
  return open_common(d, path, flags | O_LARGEFILE, mode, 1);
}
static int is_tracked(int fd) { return fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }
EXPORT ssize_t write(int fd, const void* p, size_t n) {
  if (is_tracked(fd)) {
    struct ff* f = file_point(F_WRITE);
    if (f) {
      if (f->err) {
        errno = f->err;
        return -1;
      }
      if (n > 1) {
        ++short_writes;
        size_t k = f->arg > 0 ? (size_t)f->arg : 1;
        n = k < n ? k : n - 1;
      }
    }
  }
  return syscall(SYS_write, fd, p, n);
}
EXPORT int close(int fd) {
  if (is_tracked(fd)) {
    struct ff* f = file_point(F_CLOSE);
    tracked[fd] = 0;
    --n_tracked;
    int r = (int)syscall(SYS_close, fd);
    if (f && f->err) {
      errno = f->err;
      return -1;
    }
    return r;
  }
  return (int)syscall(SYS_close, fd);
}
EXPORT int mkdir(const char* path, mode_t m) {
  if (inside(path)) {
    struct ff* f = file_point(F_MKDIR);
    if (f && f->err) {
      if (f->err == EEXIST && syscall(SYS_mkdir, path, m) != 0) return -1;  // another process was faster
      errno = f->err;
      return -1;
    }
  }
  return (int)syscall(SYS_mkdir, path, m);
}
EXPORT int mkdirat(int d, const char* path, mode_t m) {
  if (inside(path)) {
    struct ff* f = file_point(F_MKDIR);
    if (f && f->err) {
      errno = f->err;
      return -1;
    }
  }
  return (int)syscall(SYS_mkdirat, d, path, m);
}
EXPORT int fsync(int fd) {
  if (is_tracked(fd)) {
    struct ff* f = file_point(F_FSYNC);
    if (f && f->err) {
      errno = f->err;
      return -1;
    }
  }
  return (int)syscall(SYS_fsync, fd);
}
EXPORT int rename(const char* a, const char* b) {
  if (inside(a) || inside(b)) {
    struct ff* f = file_point(F_RENAME);
    if (f && f->err) {
      errno = f->err;
      return -1;
    }
  }
  return (int)syscall(SYS_rename, a, b);
}
static int stat_point(const char* path) {
  if (inside(path)) {
    struct ff* f = file_point(F_STAT);
    if (f && f->err) {
      errno = f->err;
      return -1;
    }
  }
  return 0;
}
EXPORT int stat(const char* path, struct stat* st) { return stat_point(path) ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0); }
EXPORT int stat64(const char* path, struct stat64* st) { return stat_point(path) ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0); }
EXPORT int lstat(const char* path, struct stat* st) { return stat_point(path) ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char* path, struct stat64* st) { return stat_point(path) ? -1 : (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int sim_fd_tracked(int fd) { return is_tracked(fd); }
EXPORT int sim_my_tid(void) { return my_tid; }
// Calls f(block, size) for every live block in the arena at or after `from`.
EXPORT void sim_heap_walk(char* from, void (*f)(void*, long)) {
  char* end = bump;
  for (char* p = arena_start; p < end;) {
    hdr_t* h = (hdr_t*)p;
    uint64_t n = h->size;
    if (h->magic == MAGIC_LIVE && p >= from) f(h + 1, (long)n);
    p += sizeof(hdr_t) + n;
  }
}
