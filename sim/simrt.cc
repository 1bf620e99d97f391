// Deterministic simulator runtime.
//
// The code under test is compiled with `clang -fsanitize=thread` and linked
// against this file instead of the TSan runtime, so every memory access and
// every atomic operation of the real code calls in here.  Together with the
// interposed libc/pthread entry points below this puts every source of
// nondeterminism (thread scheduling, clocks, timers, futexes, thread creation,
// the allocator and its addresses) behind one seeded PRNG:
//
//  * simulated threads are real OS threads of which exactly one - the token
//    holder - runs at any time; who runs next is decided here only;
//  * time is virtual and moves when the simulator says so;
//  * a happens-before race detector and a freed-memory detector watch every
//    access (C++ memory orders are honoured, not x86's stronger ones);
//  * every decision goes onto a tape (workload, preemptions, picks, faults);
//    replaying a tape repeats the execution exactly.
//
// One run = one fork() of a warmed-up zygote, so every run starts from exactly
// the same process state.  This file must not use library templates: the
// linker could pick instrumented copies of them.
#include "sim.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t uptr;
#define INL static inline __attribute__((always_inline))
#define NOINL __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define EXPORT extern "C" __attribute__((visibility("default")))

// ---------------------------------------------------------------- raw calls
INL long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static u64 real_ns() {
  timespec ts;
  raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
  return (u64)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

// ---------------------------------------------------------------- constants
static const int MAXT = 32;
static const uptr HEAP_BASE = 0x100000000000ull;
static const uptr HEAP_SIZE = 16ull << 30;
static const uptr SHADOW_BASE = 0x200000000000ull;
static const u64 EPOCH_NS = 1700000000ull * 1000000000ull;
static const size_t TAPE_CAP = 1 << 18;
static const size_t STACK_SIZE = 4 << 20;

// ---------------------------------------------------------------- results
struct Probe { char name[56]; u64 n; };
enum { NPROBE = 96, NSTATE = 64 };
struct Tape { u32 len; u32 v[TAPE_CAP]; };
struct Result {  // shared between a worker and its run children
  volatile int status;  // 0 = not finished, 1 = ok, 2 = violation
  char key[160];
  char msg[6000];
  u64 steps, syncs, switches, preempts, sim_ns, log_hash, ihash;
  u64 threads;
  u32 nprobe;
  Probe probe[NPROBE];
  u32 nstate;
  u64 state[NSTATE];
  u32 overflow;
  u32 note_len;
  char notes[1 << 15];
  Tape W, P, B, F;
};

// ---------------------------------------------------------------- state
struct VC { u32 c[MAXT]; };
struct Thread {
  int tid;
  volatile int go;          // futex: 1 = holds the token
  int state;                // 0 unused 1 runnable 2 blocked 3 finished
  const void* wait_obj;
  int wait_kind;
  u64 deadline;             // 0 = none
  bool timed_out;
  bool signaled;
  int ignore, nopreempt;
  int pct;
  bool detached, joined;
  int in_handler;           // depth of simulated signal handlers
  bool sig_blocked;
  VC vc, acq, relf;
  bool has_relf;
  pthread_t pt;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  u32 depth;
  u32 stack[128];
};
enum { RUNNABLE = 1, BLOCKED = 2, FINISHED = 3 };
enum { W_MUTEX = 1, W_COND, W_JOIN, W_FUTEX, W_GUARD, W_ONCE, W_SLEEP, W_RW, W_SEM, W_QUIESCE };
struct SyncVar {
  uptr addr;
  bool has;      // rel clock valid
  VC rel, rd;
  int owner;     // mutex/guard owner tid or -1
  int count;     // recursion / readers / sem
  SyncVar* next;
};
struct Slot { u32 epoch; u8 tid; u8 mask; u8 flags; u8 pad; u32 pc; };  // 12 bytes
enum { S_W = 1, S_ATOMIC = 2, S_FREED = 4, S_REDZONE = 8 };
struct Cell { Slot s[5]; u32 rot; };  // 64 bytes per 8 bytes of memory

static struct {
  bool on;       // a run is in progress
  bool multi;    // a second thread exists or existed
  bool replay;
  bool verbose;
  int nthr;
  Thread* cur;
  u64 now;
  u64 steps, max_steps, syncs, switches, preempts;
  u64 gap;       // yields since the last preemption (recorded on the tape)
  u64 run_len;   // yields since the last switch (fairness)
  u64 cd_plain, cd_sync;   // countdowns
  u32 mean_plain, mean_sync;
  u64 target_gap; u32 target_pick; bool have_target;
  int strategy;  // 0 random 1 pct
  u64 pct_next; int pct_left; u64 pct_scale; int pct_low;
  u64 rng;
  u64 log_hash, ihash;
  int hwconc;
  unsigned f_create, f_spurious, f_timer;
  u64 live_blocks, live_bytes;
  u32 wp, pp, bp, fp;  // replay positions
  Tape *tW, *tP, *tB, *tF;   // replay tapes
  int trace_fd;
  u32 created;
  u64 sig_gates;         // yields until an armed signal arrives
  void (*sig_fn)(void);
  bool sig_may_block;
  bool done;
} g;
static Thread T[MAXT];
static Result* R;
static __thread Thread* t_self __attribute__((tls_model("initial-exec")));

// ---------------------------------------------------------------- real libc
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int (*real_pthread_detach)(pthread_t);
static pthread_key_t exit_key;

// ---------------------------------------------------------------- allocator
struct Hdr { u64 size; u32 magic; u32 info; };
enum : u32 { M_ALLOC = 0xA110CA7Eu, M_FREED = 0xDEADF4EEu };
static volatile uptr heap_p;
static u32 fill_pattern;
extern "C" char __executable_start, _end, __data_start;
static uptr glob_lo, glob_hi;
static Cell* glob_shadow;

static void heap_init() {
  void* p = (void*)raw6(SYS_mmap, HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p != (void*)HEAP_BASE) { raw6(SYS_write, 2, (long)"heap mmap\n", 10, 0, 0, 0); raw6(SYS_exit_group, 70, 0, 0, 0, 0, 0); }
  p = (void*)raw6(SYS_mmap, SHADOW_BASE, HEAP_SIZE * 8, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p != (void*)SHADOW_BASE) { raw6(SYS_write, 2, (long)"shadow mmap\n", 12, 0, 0, 0); raw6(SYS_exit_group, 70, 0, 0, 0, 0, 0); }
  heap_p = HEAP_BASE + 4096;
  glob_lo = (uptr)&__data_start & ~4095ull;
  glob_hi = ((uptr)&_end + 4095) & ~4095ull;
  p = (void*)raw6(SYS_mmap, 0, (glob_hi - glob_lo) * 8, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  glob_shadow = (Cell*)p;
}
// Bump memory for the runtime itself: not in the tracked region.
static char* int_p; static size_t int_left;
static void* int_alloc(size_t n) {
  n = (n + 15) & ~15ull;
  if (n > int_left) {
    size_t m = n > (1 << 20) ? n : (1 << 20);
    int_p = (char*)raw6(SYS_mmap, 0, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    int_left = m;
  }
  void* r = int_p; int_p += n; int_left -= n;
  return r;
}
[[noreturn]] static void finish(int status);
[[noreturn]] static void violation(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static Cell* cell_of(uptr a) {
  if (a - HEAP_BASE < HEAP_SIZE) return (Cell*)(SHADOW_BASE + ((a - HEAP_BASE) >> 3) * sizeof(Cell));
  if (a - glob_lo < glob_hi - glob_lo) return glob_shadow + ((a - glob_lo) >> 3);
  return nullptr;
}
static char emergency[1 << 20];
static volatile size_t emergency_p;

static void* do_alloc(size_t n, size_t align) {
  if (UNLIKELY(!heap_p)) heap_init();
  if (UNLIKELY(g.on && !t_self)) {  // a thread outside the simulation (glibc teardown)
    size_t o = __atomic_fetch_add(&emergency_p, ((n + 31) & ~15ull) + align, __ATOMIC_RELAXED);
    if (o + n + align + 32 > sizeof(emergency)) return nullptr;
    uptr p = ((uptr)emergency + o + align - 1) & ~(align - 1);
    return (void*)p;
  }
  if (UNLIKELY(g.on && t_self->in_handler && !t_self->ignore)) violation("signal-unsafe:malloc", "a signal handler allocates memory");
  if (align < 16) align = 16;
  if (n > (4ull << 30)) { errno = ENOMEM; return nullptr; }
  uptr p = (heap_p + sizeof(Hdr) + align - 1) & ~(align - 1);
  uptr e = p + ((n + 15) & ~15ull);
  if (e - HEAP_BASE >= HEAP_SIZE - 4096) { errno = ENOMEM; return nullptr; }
  heap_p = e;
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  h->size = n; h->magic = M_ALLOC; h->info = g.on ? 1 : 0;
  if (g.on) {
    g.live_blocks++; g.live_bytes += n;
    if (n <= 1 << 16) memset((void*)p, fill_pattern, n);
    Cell* c = cell_of(p - 16);
    c[0].s[0].flags = c[1].s[0].flags = S_REDZONE;
  }
  return (void*)p;
}
static void shadow_free(uptr p, size_t n, uptr pc);
static void do_free(void* v, uptr pc) {
  uptr p = (uptr)v;
  if (!p || p - HEAP_BASE >= HEAP_SIZE) return;
  if (g.on && !t_self) return;
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  if (g.on) {
    if (h->magic == M_FREED) violation("double-free", "double free of %p (%llu bytes) pc=%#llx", v, (unsigned long long)h->size, (unsigned long long)pc);
    if (h->magic != M_ALLOC) violation("bad-free", "free of an invalid pointer %p pc=%#llx", v, (unsigned long long)pc);
    shadow_free(p, h->size, pc);
    if (h->info == 1) { g.live_blocks--; g.live_bytes -= h->size; }
    if (h->size <= 1 << 16) memset(v, 0xDB, h->size);
  }
  h->magic = M_FREED;
}
#define PC() ((uptr)__builtin_return_address(0))
EXPORT void* malloc(size_t n) { return do_alloc(n, 16); }
EXPORT void free(void* p) { do_free(p, PC()); }
EXPORT void cfree(void* p) { do_free(p, PC()); }
EXPORT void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = do_alloc(n, 16);
  if (p && (g.on)) memset(p, 0, n);
  return p;
}
EXPORT void* realloc(void* o, size_t n) {
  if (!o) return do_alloc(n, 16);
  if (n == 0) { do_free(o, PC()); return nullptr; }
  void* p = do_alloc(n, 16);
  if (!p) return p;
  if ((uptr)o - HEAP_BASE < HEAP_SIZE) {
    size_t m = ((Hdr*)((uptr)o - sizeof(Hdr)))->size;
    memcpy(p, o, m < n ? m : n);
    do_free(o, PC());
  }
  return p;
}
EXPORT void* memalign(size_t al, size_t n) { return do_alloc(n, al); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
EXPORT int posix_memalign(void** r, size_t al, size_t n) { *r = do_alloc(n, al); return *r ? 0 : ENOMEM; }
EXPORT void* valloc(size_t n) { return do_alloc(n, 4096); }
EXPORT void* pvalloc(size_t n) { return do_alloc((n + 4095) & ~4095ull, 4096); }
EXPORT size_t malloc_usable_size(void* p) {
  return ((uptr)p - HEAP_BASE < HEAP_SIZE) ? ((Hdr*)((uptr)p - sizeof(Hdr)))->size : 0;
}

// ---------------------------------------------------------------- decisions
static u64 rng_next() {
  g.rng += 0x9e3779b97f4a7c15ull;
  u64 x = g.rng;
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
  return x;
}
static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static void tape_put(Tape* t, u32 v) {
  if (t->len < TAPE_CAP) t->v[t->len++] = v; else R->overflow = 1;
}
static void logev(int kind, u64 a) {
  g.log_hash = mix(g.log_hash, ((u64)(t_self ? t_self->tid : 99) << 56) ^ ((u64)kind << 48) ^ a);
}
static uptr norm(const void* p) {
  uptr a = (uptr)p;
  if (a - HEAP_BASE < HEAP_SIZE || a - glob_lo < glob_hi - glob_lo) return a;
  return 1;
}
static void tracef(const char* fmt, ...) {
  if (!g.verbose) return;
  char b[1024];
  int n = snprintf(b, sizeof b, "%8llu t=%lluns T%d ", (unsigned long long)g.steps, (unsigned long long)g.now, t_self ? t_self->tid : -1);
  va_list ap; va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  raw6(SYS_write, g.trace_fd, (long)b, n, 0, 0, 0);
}
static u64 decide(Tape* rec, Tape* rep, u32* pos, u64 n, bool biased_true, unsigned pm) {
  u64 v;
  if (g.replay) {
    v = *pos < rep->len ? rep->v[*pos] : 0;
    ++*pos;
    if (n) v %= n;
  } else if (biased_true) {
    v = (rng_next() % 1000) < pm;
  } else {
    v = n ? rng_next() % n : 0;
  }
  tape_put(rec, (u32)v);
  return v;
}

// ---------------------------------------------------------------- finishing
static void pc_stack(char* b, size_t cap, Thread* t, uptr pc) {
  size_t n = snprintf(b, cap, " pcs=");
  if (pc) n += snprintf(b + n, cap - n, "%#llx,", (unsigned long long)pc);
  for (int i = (int)t->depth - 1, k = 0; i >= 0 && k < 8 && n + 20 < cap; --i, ++k)
    if (i < 128) n += snprintf(b + n, cap - n, "%#x,", t->stack[i]);
}
[[noreturn]] static void finish(int status) {
  g.done = true;
  R->steps = g.steps; R->syncs = g.syncs; R->switches = g.switches; R->preempts = g.preempts;
  R->sim_ns = g.now; R->log_hash = g.log_hash; R->ihash = g.ihash; R->threads = g.nthr;
  __atomic_store_n(&R->status, status, __ATOMIC_SEQ_CST);
  raw6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
[[noreturn]] static void vviolation(const char* key, const char* fmt, va_list ap) {
  snprintf(R->key, sizeof R->key, "%s", key);
  size_t n = vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  if (n > sizeof R->msg - 300) n = sizeof R->msg - 300;
  if (t_self) pc_stack(R->msg + n, sizeof R->msg - n, t_self, 0);
  g.log_hash = mix(g.log_hash, 0xbad);
  tracef("VIOLATION %s: %s", R->key, R->msg);
  finish(2);
}
[[noreturn]] static void violation(const char* key, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vviolation(key, fmt, ap);
}

// ---------------------------------------------------------------- futex park
static void park(Thread* t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    raw6(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void unpark(Thread* t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

// ---------------------------------------------------------------- scheduler
static void hand_to(Thread* self, Thread* next, bool wait) {
  if (next == self) return;
  g.switches++;
  g.cur = next;
  g.ihash = mix(g.ihash, ((u64)self->tid << 32) ^ ((u64)next->tid << 40) ^ g.syncs);
  tracef("-> T%d", next->tid);
  unpark(next);
  if (wait) park(self);
}
static int runnable_others(Thread* self, Thread** out) {
  int n = 0;
  for (int k = 1; k <= g.nthr; ++k) {
    Thread* t = &T[(self->tid + k) % g.nthr];
    if (t != self && t->state == RUNNABLE) out[n++] = t;
  }
  return n;
}
static void resample_plain() { g.cd_plain = g.mean_plain ? 1 + rng_next() % (2ull * g.mean_plain) : ~0ull; }
static void resample_sync() { g.cd_sync = g.mean_sync ? 1 + rng_next() % (2ull * g.mean_sync) : ~0ull; }
static void load_target() {
  if (g.pp + 1 < g.tP->len) {
    g.target_gap = g.tP->v[g.pp]; g.target_pick = g.tP->v[g.pp + 1]; g.pp += 2; g.have_target = true;
  } else {
    g.have_target = false;
  }
}
static int best_pct(Thread** c, int n) {
  int b = 0;
  for (int i = 1; i < n; ++i) if (c[i]->pct > c[b]->pct) b = i;
  return b;
}
static NOINL void preempt(Thread* self) {
  Thread* c[MAXT];
  int n = runnable_others(self, c);
  if (n == 0) return;
  u32 pick = g.replay ? g.target_pick % n : (g.strategy == 1 ? best_pct(c, n) : rng_next() % n);
  if (!g.replay && g.strategy == 1 && c[pick]->pct < self->pct) return;
  u32 gp = (u32)g.gap;
  tape_put(&R->P, gp); tape_put(&R->P, pick);
  g.gap = 0; g.run_len = 0; g.preempts++;
  if (g.replay) load_target();
  logev(1, pick);
  tracef("preempt after %u yields", gp);
  hand_to(self, c[pick], true);
}
static u64 earliest(Thread** who) {
  u64 d = 0; *who = nullptr;
  for (int i = 0; i < g.nthr; ++i)
    if (T[i].state == BLOCKED && T[i].deadline && (!d || T[i].deadline < d)) { d = T[i].deadline; *who = &T[i]; }
  return d;
}
static void fire_timer(Thread* t) {
  if (t->deadline > g.now) g.now = t->deadline;
  t->deadline = 0; t->timed_out = true; t->state = RUNNABLE; t->wait_obj = nullptr;
}
static NOINL void yield_slow(Thread* self, bool sync) {
  if (self->nopreempt || self->ignore) {  // not now: try again at the next yield
    if (!g.replay) { if (!g.cd_plain) g.cd_plain = 1; if (!g.cd_sync) g.cd_sync = 1; }
    return;
  }
  if (g.strategy == 1 && !g.replay) {
    // Change point: demote the running thread.
    if (g.steps >= g.pct_next && g.pct_left > 0) {
      self->pct = --g.pct_low; g.pct_left--;
      g.pct_next = g.pct_left > 0 ? g.steps + 1 + rng_next() % g.pct_scale : ~0ull;
    }
  }
  if (!g.cd_plain) resample_plain();
  if (!g.cd_sync) resample_sync();
  preempt(self);
}
// An armed signal arrives on the running thread, unless it cannot take it now.
static NOINL void sig_gate(Thread* self) {
  if (self->nopreempt || self->ignore || self->in_handler || self->sig_blocked) { g.sig_gates = 1; return; }
  void (*fn)(void) = g.sig_fn;
  tracef("signal interrupts T%d", self->tid);
  logev(41, self->tid);
  self->in_handler++;
  fn();
  self->in_handler--;
}
INL void yield_point(Thread* self, bool sync) {
  if (UNLIKELY(++g.steps > g.max_steps)) {
    if (!self->ignore) violation("hang", "no completion within %llu simulated steps", (unsigned long long)g.max_steps);
  }
  if (UNLIKELY(g.sig_gates) && UNLIKELY(--g.sig_gates == 0)) sig_gate(self);
  if (!g.multi) return;
  ++g.gap; ++g.run_len;
  if (g.replay) {
    if (UNLIKELY((g.have_target && g.gap >= g.target_gap) || g.run_len > 200000)) {
      if (self->nopreempt || self->ignore) return;
      if (!(g.have_target && g.gap >= g.target_gap)) g.target_pick = 0;
      preempt(self);
    }
    return;
  }
  if (g.strategy == 1) {
    if (UNLIKELY(g.steps >= g.pct_next || g.run_len > 20000)) {
      if (g.run_len > 20000 && !(self->nopreempt || self->ignore)) self->pct = --g.pct_low;
      yield_slow(self, sync);
    }
    return;
  }
  if (UNLIKELY((sync ? --g.cd_sync : --g.cd_plain) == 0 || g.run_len > 20000)) yield_slow(self, sync);
}
// Picks who runs when `self` cannot continue.
static Thread* pick_next(Thread* self) {
  for (;;) {
    Thread* c[MAXT];
    int n = runnable_others(self, c);
    if (self->state == RUNNABLE) c[n++] = self;
    if (n > 0) {
      Thread* tw; earliest(&tw);
      if (tw && g.f_timer && decide(&R->F, g.tF, &g.fp, 2, true, g.f_timer)) {
        sim_probe("fault:early-timer");
        tracef("FAULT early-timer T%d", tw->tid);
        fire_timer(tw);
        continue;
      }
      u32 k = 0;
      if (n > 1) {
        if (!g.replay && g.strategy == 1) { k = best_pct(c, n); tape_put(&R->B, k); }
        else k = (u32)decide(&R->B, g.tB, &g.bp, n, false, 0);
      }
      g.run_len = 0;
      return c[k];
    }
    // Quiescence waiters come before the clock moves.
    for (int i = 0; i < g.nthr; ++i)
      if (T[i].state == BLOCKED && T[i].wait_kind == W_QUIESCE) { T[i].state = RUNNABLE; T[i].wait_obj = nullptr; break; }
    bool any = false;
    for (int i = 0; i < g.nthr; ++i) any |= T[i].state == RUNNABLE;
    if (any) continue;
    Thread* tw;
    if (earliest(&tw)) { fire_timer(tw); continue; }
    char b[1200]; size_t m = 0; b[0] = 0;
    static const char* kn[] = {"", "mutex", "cond", "join", "futex", "static-init", "once", "sleep", "rwlock", "sem", "quiesce"};
    for (int i = 0; i < g.nthr && m + 200 < sizeof b; ++i)
      if (T[i].state == BLOCKED) {
        m += snprintf(b + m, sizeof b - m, " T%d waits for %s", i, kn[T[i].wait_kind]);
        char q[260]; pc_stack(q, sizeof q, &T[i], 0);
        m += snprintf(b + m, sizeof b - m, "%.200s;", q);
      }
    violation("deadlock", "all threads are blocked:%s", b);
  }
}
static void block(Thread* self, const void* obj, int kind, u64 deadline) {
  if (self->in_handler && !g.sig_may_block) violation("signal-unsafe:block", "a signal handler blocks");
  self->state = BLOCKED; self->wait_obj = obj; self->wait_kind = kind; self->deadline = deadline;
  self->timed_out = false;
  Thread* n = pick_next(self);
  hand_to(self, n, true);
}
static void wake(Thread* t) { t->state = RUNNABLE; t->wait_obj = nullptr; t->deadline = 0; }
static void wake_all(const void* obj, int kind) {
  for (int i = 0; i < g.nthr; ++i)
    if (T[i].state == BLOCKED && T[i].wait_obj == obj && T[i].wait_kind == kind) wake(&T[i]);
}
static void voluntary_switch(Thread* self) {
  Thread* n = pick_next(self);
  hand_to(self, n, true);
}

// ---------------------------------------------------------------- clocks
static SyncVar* sv_tab[1 << 14];
static SyncVar* sv_get(const void* p) {
  uptr a = (uptr)p;
  u64 h = (a * 0x9e3779b97f4a7c15ull) >> 50;
  for (SyncVar* s = sv_tab[h]; s; s = s->next) if (s->addr == a) return s;
  SyncVar* s = (SyncVar*)int_alloc(sizeof(SyncVar));
  memset(s, 0, sizeof *s);
  s->addr = a; s->owner = -1; s->next = sv_tab[h]; sv_tab[h] = s;
  return s;
}
INL void vjoin(VC* a, const VC* b) { for (int i = 0; i < MAXT; ++i) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
static void hb_acquire(Thread* t, SyncVar* s) { if (s->has) vjoin(&t->vc, &s->rel); }
static void hb_release(Thread* t, SyncVar* s, bool join) {
  if (join && s->has) vjoin(&s->rel, &t->vc); else s->rel = t->vc;
  s->has = true;
  t->vc.c[t->tid]++;
}

// ---------------------------------------------------------------- shadow
static NOINL void report_race(Thread* t, uptr a, unsigned size, u8 flags, const Slot* o, uptr pc, const char* what) {
  char b[700]; pc_stack(b, sizeof b, t, pc);
  if (o->flags & (S_FREED | S_REDZONE)) {
    if (o->flags & S_REDZONE)
      violation("heap-overflow", "T%d %s of %u bytes outside any block at %#llx;%s", t->tid, flags & S_W ? "write" : "read", size, (unsigned long long)norm((void*)a), b);
    violation("use-after-free", "T%d %s of %u bytes in memory freed by T%d (freed at pc2=%#x);%s", t->tid, flags & S_W ? "write" : "read", size, o->tid, o->pc, b);
  }
  violation("race", "data race: T%d %s%s of %u bytes vs earlier %s%s by T%d at pc2=%#x without happens-before; %s%s", t->tid,
            flags & S_ATOMIC ? "atomic " : "", what ? what : (flags & S_W ? "write" : "read"), size,
            o->flags & S_ATOMIC ? "atomic " : "", o->flags & S_W ? "write" : "read", o->tid, o->pc, "", b);
}
INL void check_cell(Thread* t, Cell* c, u8 mask, u8 flags, uptr pc, uptr a, unsigned size, const char* what) {
  int free_slot = -1, own = -1;
  for (int i = 0; i < 5; ++i) {
    Slot* s = &c->s[i];
    if (!s->mask && !s->flags) { if (free_slot < 0) free_slot = i; continue; }
    if (UNLIKELY(s->flags & (S_FREED | S_REDZONE))) { if (!what) report_race(t, a, size, flags, s, pc, what); else continue; }
    if (!(s->mask & mask)) continue;
    if (s->tid == t->tid) {
      if (s->mask == mask && (s->flags & S_ATOMIC) == (flags & S_ATOMIC)) {
        if ((flags & S_W) || !(s->flags & S_W)) own = i;   // same strength or stronger
        else if (s->epoch == t->vc.c[t->tid]) return;       // covered by own write
      }
      continue;
    }
    if (!((s->flags | flags) & S_W)) continue;
    if ((s->flags & flags) & S_ATOMIC) continue;
    if (s->epoch > t->vc.c[s->tid]) report_race(t, a, size, flags, s, pc, what);
    else if ((flags & S_W) && !(flags & S_ATOMIC) && (s->mask & ~mask) == 0 && free_slot < 0) free_slot = i;
  }
  int k = own >= 0 ? own : free_slot;
  if (k < 0) { k = c->rot % 5; c->rot++; }
  Slot* s = &c->s[k];
  s->epoch = t->vc.c[t->tid]; s->tid = t->tid; s->mask = mask; s->flags = flags; s->pc = (u32)pc;
}
// Access in single-threaded phases: only freed memory and red zones matter.
static NOINL void check_single(Thread* t, Cell* c, u8 flags, uptr pc, uptr a, unsigned size) {
  if (c->s[0].flags & (S_FREED | S_REDZONE)) report_race(t, a, size, flags, &c->s[0], pc, nullptr);
}
INL void access(uptr a, unsigned size, u8 flags, uptr pc) {
  Thread* t = t_self;
  if (LIKELY(!t) || !g.on || g.done) return;
  if (UNLIKELY(t->ignore)) return;
  if (!(flags & S_ATOMIC)) yield_point(t, false);
  uptr e = a + size;
  while (a < e) {
    uptr w = a & ~7ull;
    uptr we = w + 8 < e ? w + 8 : e;
    Cell* c = cell_of(a);
    if (c) {
      u8 mask = (u8)(((1u << (we - w)) - 1) & ~((1u << (a - w)) - 1));
      if (g.multi) check_cell(t, c, mask, flags, pc, a, size, nullptr);
      else check_single(t, c, flags, pc, a, size);
    }
    a = we;
  }
}
static void shadow_free(uptr p, size_t n, uptr pc) {
  Thread* t = t_self;
  if (!t) return;
  for (uptr a = p; a < p + n; a += 8) {
    Cell* c = cell_of(a);
    u8 mask = p + n - a >= 8 ? 0xff : (u8)((1u << (p + n - a)) - 1);
    if (g.multi && !t->ignore) check_cell(t, c, mask, S_W, pc, a, 8, "free");
    memset(c, 0, sizeof *c);
    c->s[0].flags = S_FREED; c->s[0].tid = t->tid; c->s[0].pc = (u32)pc; c->s[0].mask = mask;
  }
}
static void range(uptr a, size_t n, u8 flags, uptr pc) {
  // One yield per range, then every granule.
  Thread* t = t_self;
  if (!t || !g.on || g.done || t->ignore || !n) return;
  yield_point(t, false);
  uptr e = a + n;
  while (a < e) {
    uptr w = a & ~7ull; uptr we = w + 8 < e ? w + 8 : e;
    Cell* c = cell_of(a);
    if (!c) return;
    u8 mask = (u8)(((1u << (we - w)) - 1) & ~((1u << (a - w)) - 1));
    if (g.multi) check_cell(t, c, mask, flags, pc, a, we - a, nullptr);
    else check_single(t, c, flags, pc, a, we - a);
    a = we;
  }
}

// ---------------------------------------------------------------- TSan ABI
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void* pc) {
  Thread* t = t_self;
  if (!t) return;
  if (t->depth < 128) t->stack[t->depth] = (u32)(uptr)pc;
  t->depth++;
}
EXPORT void __tsan_func_exit() { Thread* t = t_self; if (t && t->depth) t->depth--; }
#define RW(N)                                                                            \
  EXPORT void __tsan_read##N(void* a) { access((uptr)a, N, 0, PC()); }                   \
  EXPORT void __tsan_write##N(void* a) { access((uptr)a, N, S_W, PC()); }                \
  EXPORT void __tsan_read##N##_pc(void* a, void* pc) { access((uptr)a, N, 0, (uptr)pc); } \
  EXPORT void __tsan_write##N##_pc(void* a, void* pc) { access((uptr)a, N, S_W, (uptr)pc); } \
  EXPORT void __tsan_read_write##N(void* a) { access((uptr)a, N, S_W, PC()); }           \
  EXPORT void __tsan_volatile_read##N(void* a) { access((uptr)a, N, 0, PC()); }          \
  EXPORT void __tsan_volatile_write##N(void* a) { access((uptr)a, N, S_W, PC()); }       \
  EXPORT void __tsan_unaligned_read##N(void* a) { access((uptr)a, N, 0, PC()); }         \
  EXPORT void __tsan_unaligned_write##N(void* a) { access((uptr)a, N, S_W, PC()); }      \
  EXPORT void __tsan_unaligned_read_write##N(void* a) { access((uptr)a, N, S_W, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uptr)p, 8, S_W, PC()); }
EXPORT void __tsan_vptr_read(void** p) { access((uptr)p, 8, 0, PC()); }
EXPORT void __tsan_read_range(void* a, uptr n) { range((uptr)a, n, 0, PC()); }
EXPORT void __tsan_write_range(void* a, uptr n) { range((uptr)a, n, S_W, PC()); }
EXPORT void __tsan_ignore_thread_begin() { if (t_self) t_self->ignore++; }
EXPORT void __tsan_ignore_thread_end() { if (t_self) t_self->ignore--; }
EXPORT void* __tsan_memcpy(void* d, const void* s, uptr n) { range((uptr)s, n, 0, PC()); range((uptr)d, n, S_W, PC()); return memcpy(d, s, n); }
EXPORT void* __tsan_memmove(void* d, const void* s, uptr n) { range((uptr)s, n, 0, PC()); range((uptr)d, n, S_W, PC()); return memmove(d, s, n); }
EXPORT void* __tsan_memset(void* d, int c, uptr n) { range((uptr)d, n, S_W, PC()); return memset(d, c, n); }

static Thread* sync_enter(const void* a, int kind) {
  Thread* t = t_self;
  if (!t || !g.on || g.done) return nullptr;
  if (t->ignore) return t;
  yield_point(t, true);
  g.syncs++;
  uptr na = norm(a);
  logev(2 + kind, na);
  g.ihash = mix(g.ihash, ((u64)t->tid << 56) ^ ((u64)kind << 48));
  return t;
}
enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static bool mo_acq(int m) { m &= 7; return m == MO_CONSUME || m == MO_ACQUIRE || m == MO_ACQ_REL || m == MO_SEQ_CST; }
static bool mo_rel(int m) { m &= 7; return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ_CST; }
static void after_load(Thread* t, const void* a, int mo) {
  if (!t || t->ignore || !g.multi) return;
  SyncVar* s = sv_get(a);
  if (!s->has) return;
  if (mo_acq(mo)) vjoin(&t->vc, &s->rel); else vjoin(&t->acq, &s->rel);
}
static void at_store(Thread* t, const void* a, int mo) {
  if (!t || t->ignore || !g.multi) return;
  SyncVar* s = sv_get(a);
  if (mo_rel(mo)) hb_release(t, s, false);
  else if (t->has_relf) { s->rel = t->relf; s->has = true; }
  else s->has = false;
}
static void at_rmw(Thread* t, const void* a, int mo) {
  if (!t || t->ignore || !g.multi) return;
  SyncVar* s = sv_get(a);
  if (s->has) { if (mo_acq(mo)) vjoin(&t->vc, &s->rel); else vjoin(&t->acq, &s->rel); }
  if (mo_rel(mo)) hb_release(t, s, true);
  else if (t->has_relf) { if (s->has) vjoin(&s->rel, &t->relf); else s->rel = t->relf; s->has = true; }
}
#define ATOMIC(BITS, TY)                                                                         \
  EXPORT TY __tsan_atomic##BITS##_load(const volatile TY* a, int mo) {                            \
    Thread* t = sync_enter((void*)a, 0);                                                          \
    access((uptr)a, BITS / 8, S_ATOMIC, PC());                                                    \
    TY v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                  \
    after_load(t, (void*)a, mo);                                                                  \
    return v;                                                                                     \
  }                                                                                               \
  EXPORT void __tsan_atomic##BITS##_store(volatile TY* a, TY v, int mo) {                         \
    Thread* t = sync_enter((void*)a, 1);                                                          \
    access((uptr)a, BITS / 8, S_ATOMIC | S_W, PC());                                              \
    at_store(t, (void*)a, mo);                                                                    \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                               \
  EXPORT TY __tsan_atomic##BITS##_exchange(volatile TY* a, TY v, int mo) {                        \
    Thread* t = sync_enter((void*)a, 2);                                                          \
    access((uptr)a, BITS / 8, S_ATOMIC | S_W, PC());                                              \
    at_rmw(t, (void*)a, mo);                                                                      \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                           \
  }                                                                                               \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int fmo) { \
    Thread* t = sync_enter((void*)a, 3);                                                          \
    access((uptr)a, BITS / 8, S_ATOMIC | S_W, PC());                                              \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
    if (ok) at_rmw(t, (void*)a, mo); else after_load(t, (void*)a, fmo);                           \
    return ok;                                                                                    \
  }                                                                                               \
  EXPORT int __tsan_atomic##BITS##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int fmo) { \
    Thread* t = sync_enter((void*)a, 3);                                                          \
    access((uptr)a, BITS / 8, S_ATOMIC | S_W, PC());                                              \
    if (t && g.multi && g.f_spurious && !t->ignore && decide(&R->F, g.tF, &g.fp, 2, true, g.f_spurious)) { \
      sim_probe("fault:spurious-cas");                                                            \
      *c = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                  \
      after_load(t, (void*)a, fmo);                                                               \
      return 0;                                                                                   \
    }                                                                                             \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
    if (ok) at_rmw(t, (void*)a, mo); else after_load(t, (void*)a, fmo);                           \
    return ok;                                                                                    \
  }                                                                                               \
  EXPORT TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int fmo) { \
    Thread* t = sync_enter((void*)a, 3);                                                          \
    access((uptr)a, BITS / 8, S_ATOMIC | S_W, PC());                                              \
    TY e = c;                                                                                     \
    bool ok = __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);    \
    if (ok) at_rmw(t, (void*)a, mo); else after_load(t, (void*)a, fmo);                           \
    return e;                                                                                     \
  }
#define ARMW(BITS, TY, NAME, BUILTIN)                                        \
  EXPORT TY __tsan_atomic##BITS##_fetch_##NAME(volatile TY* a, TY v, int mo) { \
    Thread* t = sync_enter((void*)a, 4);                                     \
    access((uptr)a, BITS / 8, S_ATOMIC | S_W, PC());                         \
    at_rmw(t, (void*)a, mo);                                                 \
    return BUILTIN(a, v, __ATOMIC_SEQ_CST);                                  \
  }
#define ALL(BITS, TY)                          \
  ATOMIC(BITS, TY)                             \
  ARMW(BITS, TY, add, __atomic_fetch_add)      \
  ARMW(BITS, TY, sub, __atomic_fetch_sub)      \
  ARMW(BITS, TY, and, __atomic_fetch_and)      \
  ARMW(BITS, TY, or, __atomic_fetch_or)        \
  ARMW(BITS, TY, xor, __atomic_fetch_xor)      \
  ARMW(BITS, TY, nand, __atomic_fetch_nand)
ALL(8, u8) ALL(16, uint16_t) ALL(32, u32) ALL(64, u64)
EXPORT void __tsan_atomic_thread_fence(int mo) {
  Thread* t = sync_enter(nullptr, 5);
  if (!t || t->ignore || !g.multi) return;
  if (mo_acq(mo)) vjoin(&t->vc, &t->acq);
  if (mo_rel(mo)) { t->relf = t->vc; t->has_relf = true; t->vc.c[t->tid]++; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- annotations
EXPORT void sim_acquire(const void* a) { Thread* t = t_self; if (t && g.on && g.multi) hb_acquire(t, sv_get(a)); }
EXPORT void sim_release(const void* a, int join) { Thread* t = t_self; if (t && g.on && g.multi) hb_release(t, sv_get(a), join); }
EXPORT void sim_ignore_begin() { if (t_self) t_self->ignore++; }
EXPORT void sim_ignore_end() { if (t_self) t_self->ignore--; }
EXPORT void AnnotateIgnoreReadsBegin(const char*, int) {}
EXPORT void AnnotateIgnoreReadsEnd(const char*, int) {}
EXPORT void AnnotateIgnoreWritesBegin(const char*, int) {}
EXPORT void AnnotateIgnoreWritesEnd(const char*, int) {}
EXPORT void AnnotateBenignRaceSized(const char*, int, const volatile void*, size_t, const char*) {}
EXPORT void AnnotateRWLockCreate(const char*, int, const volatile void*) {}
EXPORT void AnnotateRWLockDestroy(const char*, int, const volatile void*) {}
EXPORT void AnnotateRWLockAcquired(const char*, int, const volatile void*, long) {}
EXPORT void AnnotateRWLockReleased(const char*, int, const volatile void*, long) {}
EXPORT void AnnotateThreadName(const char*, int, const char*) {}

// Checks that a synchronisation object is not in freed memory, and records the
// use so that freeing it without ordering is a race.
static void touch(Thread* t, const void* p, uptr pc) {
  if (t->ignore) return;
  Cell* c = cell_of((uptr)p);
  if (!c) return;
  if (g.multi) check_cell(t, c, 1, S_ATOMIC | S_W, pc, (uptr)p, 1, nullptr);
  else check_single(t, c, S_W, pc, (uptr)p, 1);
}
EXPORT void sim_sync(const void* a, int kind) {
  Thread* t = sync_enter(a, kind);
  if (t) touch(t, a, PC());
}
// ---------------------------------------------------------------- mutexes
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static bool lock_core(Thread* t, pthread_mutex_t* m, bool try_only, u64 deadline, int* rc) {
  SyncVar* s = sv_get(m);
  for (;;) {
    if (s->owner < 0) { s->owner = t->tid; s->count = 1; if (!t->ignore) hb_acquire(t, s); return true; }
    if (s->owner == t->tid) {
      if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return true; }
      if (try_only) { *rc = EBUSY; return false; }
      if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) { *rc = EDEADLK; return false; }
      if (!deadline) violation("deadlock", "T%d locks a mutex it already holds", t->tid);
    }
    if (try_only) { *rc = EBUSY; return false; }
    block(t, m, W_MUTEX, deadline);
    if (t->timed_out && s->owner >= 0) { *rc = ETIMEDOUT; return false; }
  }
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; }
  return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  Thread* t = sync_enter(m, 6);
  if (!t) return 0;
  touch(t, m, PC());
  int rc = 0;
  return lock_core(t, m, false, 0, &rc) ? 0 : rc;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  Thread* t = sync_enter(m, 6);
  if (!t) return 0;
  touch(t, m, PC());
  int rc = 0;
  return lock_core(t, m, true, 0, &rc) ? 0 : rc;
}
static u64 ts_ns(const timespec* ts) { return (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
// Absolute deadline on either clock -> simulated time (both clocks share it).
static u64 abs_deadline(const timespec* ts) {
  u64 d = ts_ns(ts);
  return d > EPOCH_NS ? d - EPOCH_NS : 1;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
  Thread* t = sync_enter(m, 6);
  if (!t) return 0;
  touch(t, m, PC());
  int rc = 0; u64 d = abs_deadline(ts);
  SyncVar* s = sv_get(m);
  if (d <= g.now && s->owner >= 0) return ETIMEDOUT;
  return lock_core(t, m, false, d, &rc) ? 0 : rc;
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts) { return pthread_mutex_timedlock(m, ts); }
static void unlock_core(Thread* t, pthread_mutex_t* m) {
  SyncVar* s = sv_get(m);
  if (s->owner != t->tid) violation("bad-unlock", "T%d unlocks a mutex it does not hold", t->tid);
  if (--s->count > 0) return;
  s->owner = -1;
  if (!t->ignore) hb_release(t, s, false);
  wake_all(m, W_MUTEX);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  Thread* t = sync_enter(m, 7);
  if (!t) return 0;
  touch(t, m, PC());
  unlock_core(t, m);
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
  Thread* t = t_self;
  if (!t || !g.on) return 0;
  SyncVar* s = sv_get(m);
  if (s->owner >= 0) violation("mutex-destroyed-locked", "T%d destroys a mutex held by T%d", t->tid, s->owner);
  s->has = false;
  return 0;
}
// ---------------------------------------------------------------- condvars
static int cond_wait_core(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline, uptr pc) {
  Thread* t = sync_enter(c, 8);
  if (!t) return 0;
  touch(t, c, pc);
  SyncVar* s = sv_get(m);
  if (s->owner != t->tid) violation("bad-cond-wait", "T%d waits on a condition without its mutex", t->tid);
  if (deadline && deadline <= g.now) {
    unlock_core(t, m);
    voluntary_switch(t);
    int rc = 0; lock_core(t, m, false, 0, &rc);
    return ETIMEDOUT;
  }
  unlock_core(t, m);
  if (g.f_spurious && decide(&R->F, g.tF, &g.fp, 2, true, g.f_spurious)) {
    sim_probe("fault:spurious-wakeup");
    voluntary_switch(t);
    int rc = 0; lock_core(t, m, false, 0, &rc);
    return 0;
  }
  t->signaled = false;
  block(t, c, W_COND, deadline);
  bool to = t->timed_out;
  int rc = 0;
  lock_core(t, m, false, 0, &rc);
  return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  if (!t_self || !g.on) return 0;
  for (int i = 0; i < g.nthr; ++i)
    if (T[i].state == BLOCKED && T[i].wait_obj == c && T[i].wait_kind == W_COND)
      violation("cond-destroyed-waited", "T%d destroys a condition T%d waits on", t_self->tid, i);
  return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_core(c, m, 0, PC()); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return cond_wait_core(c, m, abs_deadline(ts), PC()); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) { return cond_wait_core(c, m, abs_deadline(ts), PC()); }
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  Thread* t = sync_enter(c, 9);
  if (!t) return 0;
  touch(t, c, PC());
  Thread* w[MAXT]; int n = 0;
  for (int i = 0; i < g.nthr; ++i) if (T[i].state == BLOCKED && T[i].wait_obj == c && T[i].wait_kind == W_COND) w[n++] = &T[i];
  if (n) wake(w[n > 1 ? decide(&R->B, g.tB, &g.bp, n, false, 0) : 0]);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  Thread* t = sync_enter(c, 9);
  if (!t) return 0;
  touch(t, c, PC());
  wake_all(c, W_COND);
  return 0;
}
// ---------------------------------------------------------------- rwlocks
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_lock(pthread_rwlock_t* l, bool w, bool try_only, uptr pc) {
  Thread* t = sync_enter(l, 10);
  if (!t) return 0;
  touch(t, l, pc);
  SyncVar* s = sv_get(l);
  for (;;) {
    if (w ? (s->owner < 0 && s->count == 0) : s->owner < 0) break;
    if (try_only) return EBUSY;
    block(t, l, W_RW, 0);
  }
  hb_acquire(t, s);
  if (w) { s->owner = t->tid; vjoin(&t->vc, &s->rd); } else s->count++;
  return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_lock(l, false, false, PC()); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_lock(l, true, false, PC()); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true, PC()); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true, PC()); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  Thread* t = sync_enter(l, 11);
  if (!t) return 0;
  touch(t, l, PC());
  SyncVar* s = sv_get(l);
  if (s->owner == t->tid) { s->owner = -1; hb_release(t, s, false); }
  else if (s->count > 0) { s->count--; vjoin(&s->rd, &t->vc); t->vc.c[t->tid]++; }
  else violation("bad-unlock", "T%d unlocks an rwlock it does not hold", t->tid);
  wake_all(l, W_RW);
  return 0;
}
// ---------------------------------------------------------------- once, guards
EXPORT int pthread_once(pthread_once_t* o, void (*f)()) {
  Thread* t = sync_enter(o, 12);
  volatile int* st = (volatile int*)o;
  if (!t) { if (*st != 2) { *st = 2; f(); } return 0; }
  SyncVar* s = sv_get(o);
  while (*st == 1) {
    if (s->owner == t->tid) violation("deadlock", "T%d re-enters a once initialiser", t->tid);
    block(t, o, W_ONCE, 0);
  }
  if (*st == 2) { hb_acquire(t, s); return 0; }
  *st = 1; s->owner = t->tid;
  f();
  *st = 2; s->owner = -1;
  hb_release(t, s, false);
  wake_all(o, W_ONCE);
  return 0;
}
EXPORT int __cxa_guard_acquire(u64* gd) {
  volatile u8* b = (volatile u8*)gd;
  Thread* t = sync_enter(gd, 13);
  if (!t) { if (b[0]) return 0; b[1] = 1; return 1; }
  SyncVar* s = sv_get(gd);
  for (;;) {
    if (b[0]) { hb_acquire(t, s); return 0; }
    if (!b[1]) { b[1] = 1; s->owner = t->tid; return 1; }
    if (s->owner == t->tid) violation("deadlock", "T%d recursively enters a static initialiser", t->tid);
    sim_probe("static-init-contended");
    block(t, gd, W_GUARD, 0);
  }
}
EXPORT void __cxa_guard_release(u64* gd) {
  volatile u8* b = (volatile u8*)gd;
  Thread* t = sync_enter(gd, 14);
  b[0] = 1; b[1] = 0;
  if (!t) return;
  SyncVar* s = sv_get(gd);
  s->owner = -1;
  hb_release(t, s, false);
  wake_all(gd, W_GUARD);
}
EXPORT void __cxa_guard_abort(u64* gd) {
  volatile u8* b = (volatile u8*)gd;
  Thread* t = sync_enter(gd, 14);
  b[1] = 0;
  if (!t) return;
  sv_get(gd)->owner = -1;
  wake_all(gd, W_GUARD);
}
// ---------------------------------------------------------------- threads
static void thread_exit(void* v) {
  uptr n = (uptr)v;
  if (n > 1) { pthread_setspecific(exit_key, (void*)(n - 1)); return; }
  Thread* t = t_self;
  if (!t || g.done) return;
  sync_enter(t, 15);
  t->state = FINISHED;
  t->ignore = 0; t->nopreempt = 0;
  wake_all(t, W_JOIN);
  tracef("thread finished");
  // `state` is FINISHED, so pick_next never returns this thread.
  Thread* nx = pick_next(t);
  g.switches++; g.cur = nx;
  t_self = nullptr;
  unpark(nx);
}
static void* trampoline(void* v) {
  Thread* t = (Thread*)v;
  park(t);
  t_self = t;
  pthread_setspecific(exit_key, (void*)4);
  t->ret = t->fn(t->arg);
  return t->ret;
}
static Thread* new_thread(Thread* parent, void* (*fn)(void*), void* arg) {
  if (g.nthr >= MAXT) { snprintf(R->key, sizeof R->key, "sim-limit"); violation("sim-limit", "too many simulated threads"); }
  Thread* t = &T[g.nthr];
  memset(t, 0, sizeof *t);
  t->tid = g.nthr++;
  t->state = RUNNABLE; t->fn = fn; t->arg = arg;
  t->pct = g.replay ? 0 : (int)(rng_next() % 1000) + 1000;
  if (parent) { t->vc = parent->vc; parent->vc.c[parent->tid]++; }
  t->vc.c[t->tid] = 1;
  return t;
}
static int start_thread(Thread* t, bool detached) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  uptr base = (heap_p + 4095) & ~4095ull;
  heap_p = base + STACK_SIZE + 4096;
  pthread_attr_setstack(&a, (void*)base, STACK_SIZE);
  if (detached) pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  int rc = real_pthread_create(&t->pt, &a, trampoline, t);
  pthread_attr_destroy(&a);
  return rc;
}
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  Thread* self = sync_enter(nullptr, 16);
  if (!self) return real_pthread_create ? real_pthread_create(out, attr, fn, arg) : EAGAIN;
  if (g.f_create && decide(&R->F, g.tF, &g.fp, 2, true, g.f_create)) {
    sim_probe("fault:pthread_create-EAGAIN");
    tracef("FAULT pthread_create EAGAIN");
    return EAGAIN;
  }
  g.multi = true;
  g.created++;
  Thread* t = new_thread(self, fn, arg);
  int ds = PTHREAD_CREATE_JOINABLE;
  if (attr) pthread_attr_getdetachstate(attr, &ds);
  int rc = start_thread(t, ds == PTHREAD_CREATE_DETACHED);
  if (rc) violation("sim-limit", "the simulator could not create a thread: %d", rc);
  *out = t->pt;
  tracef("creates T%d", t->tid);
  sync_enter(nullptr, 17);
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void** ret) {
  Thread* self = sync_enter(nullptr, 18);
  if (!self) return real_pthread_join ? real_pthread_join(pt, ret) : 0;
  Thread* t = nullptr;
  for (int i = 1; i < g.nthr; ++i) if (T[i].pt == pt && !T[i].joined) { t = &T[i]; break; }
  if (!t) violation("bad-join", "T%d joins an unknown thread", self->tid);
  while (t->state != FINISHED) block(self, t, W_JOIN, 0);
  t->joined = true;
  vjoin(&self->vc, &t->vc);
  void* r;
  int rc = real_pthread_join(pt, &r);
  if (ret) *ret = r;
  return rc;
}
EXPORT int pthread_detach(pthread_t pt) {
  Thread* self = sync_enter(nullptr, 19);
  if (!self) return real_pthread_detach ? real_pthread_detach(pt) : 0;
  for (int i = 1; i < g.nthr; ++i) if (T[i].pt == pt) T[i].detached = true;
  return 0;  // never reaped: the process ends with the run
}
EXPORT int sched_yield() {
  Thread* t = sync_enter(nullptr, 20);
  if (t && g.multi && !t->ignore) voluntary_switch(t);
  return 0;
}
// ---------------------------------------------------------------- futex
static long thread_number() { return 4242 + (t_self ? (long)(t_self - T) : 0); }
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_gettid) return thread_number();
  if (n == SYS_futex && t_self && g.on) {
    Thread* t = sync_enter((void*)a, 21);
    int op = (int)b & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      touch(t, (void*)a, PC());
      if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
      u64 dl = 0;
      if (d) { u64 v = ts_ns((const timespec*)d); dl = op == FUTEX_WAIT ? g.now + v : (v > EPOCH_NS ? v - EPOCH_NS : 1); if (!dl) dl = 1; }
      if (g.f_spurious && decide(&R->F, g.tF, &g.fp, 2, true, g.f_spurious)) {
        sim_probe("fault:spurious-wakeup"); voluntary_switch(t); return 0;
      }
      block(t, (void*)a, W_FUTEX, dl);
      if (t->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long k = 0;
      while (k < c) {
        Thread* w[MAXT]; int m = 0;
        for (int i = 0; i < g.nthr; ++i) if (T[i].state == BLOCKED && T[i].wait_obj == (void*)a && T[i].wait_kind == W_FUTEX) w[m++] = &T[i];
        if (!m) break;
        wake(w[m > 1 && c < m ? decide(&R->B, g.tB, &g.bp, m, false, 0) : 0]);
        k++;
      }
      return k;
    }
  }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
// ---------------------------------------------------------------- semaphores
EXPORT int sem_init(sem_t* s, int, unsigned v) { memset(s, 0, sizeof *s); *(unsigned*)s = v; return 0; }
EXPORT int sem_destroy(sem_t*) { return 0; }
// Before the runs (one thread): only the count.
static int sem_plain(sem_t* s) {
  if (*(unsigned*)s == 0) { errno = EAGAIN; return -1; }
  --*(unsigned*)s;
  return 0;
}
EXPORT int sem_wait(sem_t* s) {
  Thread* t = sync_enter(s, 22);
  if (!t) return sem_plain(s);
  touch(t, s, PC());
  while (*(volatile unsigned*)s == 0) block(t, s, W_SEM, 0);
  --*(unsigned*)s;
  hb_acquire(t, sv_get(s));
  return 0;
}
EXPORT int sem_trywait(sem_t* s) {
  Thread* t = sync_enter(s, 22);
  if (!t) return sem_plain(s);
  if (*(volatile unsigned*)s == 0) { errno = EAGAIN; return -1; }
  --*(unsigned*)s; hb_acquire(t, sv_get(s)); return 0;
}
static int sem_tw(sem_t* s, u64 dl) {
  Thread* t = sync_enter(s, 22);
  if (!t) return sem_plain(s);
  while (*(volatile unsigned*)s == 0) {
    if (dl <= g.now) { errno = ETIMEDOUT; return -1; }
    block(t, s, W_SEM, dl);
  }
  --*(unsigned*)s; hb_acquire(t, sv_get(s)); return 0;
}
EXPORT int sem_timedwait(sem_t* s, const timespec* ts) { return sem_tw(s, abs_deadline(ts)); }
EXPORT int sem_clockwait(sem_t* s, clockid_t, const timespec* ts) { return sem_tw(s, abs_deadline(ts)); }
EXPORT int sem_post(sem_t* s) {
  Thread* t = sync_enter(s, 23);
  if (!t) { ++*(unsigned*)s; return 0; }
  hb_release(t, sv_get(s), true);
  ++*(unsigned*)s;
  wake_all(s, W_SEM);
  return 0;
}
// ---------------------------------------------------------------- time
EXPORT int clock_gettime(clockid_t c, timespec* ts) {
  (void)c;  // before the runs (static initialisation) time stands still
  if (t_self && g.on) g.now += 1;
  u64 v = EPOCH_NS + g.now;
  ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(timeval* tv, void*) {
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t* o) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
static int do_sleep(u64 dl) {
  Thread* t = sync_enter(nullptr, 24);
  if (dl <= g.now) { if (g.multi) voluntary_switch(t); return 0; }
  block(t, t, W_SLEEP, dl);
  return 0;
}
EXPORT int nanosleep(const timespec* d, timespec*) {
  if (!t_self || !g.on) return (int)raw6(SYS_nanosleep, (long)d, 0, 0, 0, 0, 0);
  return do_sleep(g.now + ts_ns(d));
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const timespec* d, timespec* r) {
  if (!t_self || !g.on) return (int)raw6(SYS_clock_nanosleep, c, flags, (long)d, (long)r, 0, 0);
  return do_sleep(flags & TIMER_ABSTIME ? abs_deadline(d) : g.now + ts_ns(d));
}
EXPORT int usleep(useconds_t u) { timespec d = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&d, nullptr); }
EXPORT unsigned sleep(unsigned s) { timespec d = {(time_t)s, 0}; nanosleep(&d, nullptr); return 0; }
EXPORT pid_t getpid() { return 4242; }
// Thread ids must not depend on the process table: small numbers are cached by
// CPython, so they would change what the program allocates.
EXPORT pid_t gettid() { return (pid_t)thread_number(); }
EXPORT int get_nprocs() { return g.hwconc >= 0 ? g.hwconc : 4; }
EXPORT int get_nprocs_conf() { return get_nprocs(); }
EXPORT ssize_t getrandom(void* b, size_t n, unsigned) {
  static u64 boot = 11;  // before a run: a fixed stream that does not repeat (absl seeds eight pools from it)
  for (size_t i = 0; i < n; ++i) {
    if (t_self && g.on) { ((u8*)b)[i] = (u8)decide(&R->F, g.tF, &g.fp, 256, false, 0); continue; }
    boot = boot * 6364136223846793005ull + 1442695040888963407ull;
    ((u8*)b)[i] = (u8)(boot >> 56);
  }
  return n;
}
EXPORT int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }

// ---------------------------------------------------------------- harness API
EXPORT uint64_t sim_choose(uint64_t n) {
  u64 v = n <= 1 ? 0 : decide(&R->W, g.tW, &g.wp, n, false, 0);
  logev(40, v);
  return v;
}
EXPORT bool sim_fault(const char* kind, unsigned pm) {
  if (!pm) return false;
  bool v = decide(&R->F, g.tF, &g.fp, 2, true, pm);
  if (v) { char b[56]; snprintf(b, sizeof b, "fault:%s", kind); sim_probe(b); tracef("FAULT %s", kind); }
  return v;
}
EXPORT void sim_fail(const char* key, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char k[160]; snprintf(k, sizeof k, "oracle:%s", key);
  vviolation(k, fmt, ap);
}
EXPORT void sim_note(const char* fmt, ...) {
  char b[512];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  for (int i = 0; i < n; ++i) g.log_hash = mix(g.log_hash, (u8)b[i]);
  if (R->note_len + n + 16 < sizeof R->notes)
    R->note_len += snprintf(R->notes + R->note_len, sizeof R->notes - R->note_len, "T%d %s\n", t_self ? t_self->tid : -1, b);
  tracef("%s", b);
}
EXPORT void sim_probe_add(const char* name, uint64_t k) {
  for (u32 i = 0; i < R->nprobe; ++i) if (!strcmp(R->probe[i].name, name)) { R->probe[i].n += k; return; }
  if (R->nprobe >= NPROBE) return;
  snprintf(R->probe[R->nprobe].name, sizeof R->probe[0].name, "%s", name);
  R->probe[R->nprobe++].n = k;
}
EXPORT void sim_probe(const char* name) { sim_probe_add(name, 1); }
EXPORT void sim_yield() { Thread* t = sync_enter(nullptr, 25); (void)t; }
EXPORT int sim_tid() { return t_self ? t_self->tid : -1; }
EXPORT uint64_t sim_seq() { return ++g.steps; }
EXPORT uint64_t sim_now_ns() { return g.now; }
EXPORT void sim_advance_ns(uint64_t n) { g.now += n; }
EXPORT int sim_live_threads() { int n = 0; for (int i = 0; i < g.nthr; ++i) n += T[i].state == RUNNABLE || T[i].state == BLOCKED; return n; }
EXPORT int sim_created_threads() { return g.created; }
EXPORT int sim_quiesce() {
  Thread* t = t_self;
  bool others = false;
  for (int i = 0; i < g.nthr; ++i) others |= &T[i] != t && T[i].state == RUNNABLE;
  if (others) block(t, t, W_QUIESCE, 0);
  int n = 0;
  for (int i = 0; i < g.nthr; ++i) n += &T[i] != t && T[i].state == BLOCKED;
  return n;
}
EXPORT uint64_t sim_live_blocks() { return g.live_blocks; }
EXPORT uint64_t sim_live_bytes() { return g.live_bytes; }
EXPORT bool sim_is_freed(const void* p) {
  Cell* c = cell_of((uptr)p);
  return c && (c->s[0].flags & S_FREED);
}
EXPORT bool sim_active() { return g.on && t_self; }
EXPORT void sim_set_hwconc(int n) { g.hwconc = n; }
EXPORT void sim_set_fault_pthread_create(unsigned p) { g.f_create = p; }
EXPORT void sim_set_fault_spurious(unsigned p) { g.f_spurious = p; }
EXPORT void sim_set_fault_early_timer(unsigned p) { g.f_timer = p; }
EXPORT void sim_set_max_steps(uint64_t n) { g.max_steps = n; }
EXPORT void sim_state(uint64_t h) {
  for (u32 i = 0; i < R->nstate; ++i) if (R->state[i] == h) return;
  if (R->nstate < NSTATE) R->state[R->nstate++] = h;
}
EXPORT void sim_arm_signal(uint64_t n, void (*fn)(void)) { g.sig_fn = fn; g.sig_gates = n; }
EXPORT void sim_signal_now(void (*fn)(void)) { Thread* t = t_self; t->in_handler++; fn(); t->in_handler--; }
EXPORT void sim_block_signals(bool on) { if (t_self) t_self->sig_blocked = on; }
EXPORT void sim_signal_may_block(bool on) { g.sig_may_block = on; }
EXPORT void sim_nopreempt_begin() { if (t_self) t_self->nopreempt++; }
EXPORT void sim_nopreempt_end() { if (t_self) t_self->nopreempt--; }

// ---------------------------------------------------------------- crashes
static char altstack[64 << 10];
static void on_signal(int sig, siginfo_t* si, void* uc) {
  uptr pc = (uptr)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  if (!g.on || g.done) raw6(SYS_exit_group, 71, 0, 0, 0, 0, 0);
  char b[700]; b[0] = 0;
  if (t_self) pc_stack(b, sizeof b, t_self, pc);
  const char* k = sig == SIGABRT ? "crash:abort" : sig == SIGSEGV ? "crash:segv" : sig == SIGFPE ? "crash:fpe" : sig == SIGILL ? "crash:trap" : "crash";
  violation(k, "signal %d (%s);%s", sig, strsignal(sig), b);
}
static void install_signals() {
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; ++i) sigaction(sigs[i], &sa, nullptr);
}

// ---------------------------------------------------------------- one run
static void* t0_main(void*) {
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  sim_scenario();
  finish(1);
}
static Tape empty_tape;
// In a fresh child: never returns.
[[noreturn]] static void run_child(u64 seed, bool replay, Tape* W, Tape* P, Tape* B, Tape* F, bool verbose, int trace_fd) {
  g.rng = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
  rng_next(); rng_next();
  g.replay = replay; g.tW = W; g.tP = P; g.tB = B; g.tF = F;
  g.verbose = verbose; g.trace_fd = trace_fd;
  g.now = 1000; g.max_steps = 4000000; g.hwconc = 4;
  g.log_hash = 0xcbf29ce484222325ull; g.ihash = 0x100000001b3ull;
  fill_pattern = 0xA5;
  if (replay) { load_target(); }
  else {
    u64 s = rng_next() % 10;
    static const u32 ms[] = {1, 2, 4, 8, 16, 64, 256};
    static const u32 mp[] = {0, 0, 20, 200, 2000};
    if (s < 6) { g.strategy = 0; g.mean_sync = ms[rng_next() % 7]; g.mean_plain = mp[rng_next() % 5]; }
    else if (s < 9) { g.strategy = 1; g.pct_left = 1 + rng_next() % 4; static const u64 sc[] = {30, 300, 3000, 30000}; g.pct_scale = sc[rng_next() % 4]; g.pct_next = 1 + rng_next() % g.pct_scale; g.pct_low = 0; }
    else { g.strategy = 0; g.mean_sync = 0; g.mean_plain = 0; }
    resample_plain(); resample_sync();
  }
  // The heap's position within the arena varies (absl's hash tables salt their
  // iteration order with addresses); it is part of the tape.
  u64 off = decide(&R->W, g.tW, &g.wp, 4096, false, 0);
  // Runs allocate from their own region, so that the zygote's own needs (which
  // differ between search and replay) cannot shift addresses.
  heap_p = HEAP_BASE + (4ull << 30) + off * 4096 + (off % 7) * 16;
  g.nthr = 0;
  Thread* t = new_thread(nullptr, t0_main, nullptr);
  g.cur = t; g.on = true;
  g.on = false;  // thread creation itself is outside the run
  int rc = start_thread(t, false);
  if (rc) raw6(SYS_exit_group, 72, 0, 0, 0, 0, 0);
  g.on = true;
  unpark(t);
  int never = 0;
  for (;;) raw6(SYS_futex, (long)&never, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}

struct Job { u64 seed; bool replay; Tape *W, *P, *B, *F; bool verbose; int fd; };
static void reset_result() {
  R->status = 0; R->key[0] = 0; R->msg[0] = 0; R->nprobe = 0; R->nstate = 0; R->overflow = 0; R->note_len = 0; R->notes[0] = 0;
  R->steps = R->syncs = R->switches = R->preempts = R->sim_ns = R->log_hash = R->ihash = R->threads = 0;
  R->W.len = R->P.len = R->B.len = R->F.len = 0;
}
// Forks and waits. Returns 0 when a result was recorded, else an error code.
static int one_run(const Job& j) {
  reset_result();
  pid_t pid = fork();
  if (pid < 0) return 100;
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    // CPU-time backstop; a simulated hang is reported long before by steps.
    rlimit rl = {120, 120}; setrlimit(RLIMIT_CPU, &rl);
    rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
    if (!j.verbose) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); dup2(n, 1); } }
    run_child(j.seed, j.replay, j.W, j.P, j.B, j.F, j.verbose, j.fd);
  }
  int st = 0;
  while (raw6(SYS_wait4, pid, (long)&st, 0, 0, 0, 0) < 0) {}
  if (R->status != 0) return 0;
  if (WIFSIGNALED(st)) return 1000 + WTERMSIG(st);
  return 2000 + WEXITSTATUS(st);
}

// ---------------------------------------------------------------- driver
static u64 seed_of(u64 base, u64 i) {
  u64 x = base * 0xd1342543de82ef95ull + i * 0x9e3779b97f4a7c15ull + 0x7f4a7c15;
  x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
  return x;
}
struct Agg {  // per worker, shared
  u64 runs, steps, syncs, switches, preempts, sim_ns, threads, det_checked, det_failed, errors, violations, overflow;
  int last_error;
  u32 nprobe; Probe probe[NPROBE];
  u32 nih; u64 ih[1 << 18];
  u32 nst; u64 st[1 << 14];
  volatile int stop;
};
static void save_tape(const char* path, u64 seed, Result* r) {
  FILE* f = fopen(path, "w");
  if (!f) return;
  fprintf(f, "simtape 1\nharness %s\nseed %llu\nkey %s\nloghash %016llx\n", sim_harness_name, (unsigned long long)seed, r->key, (unsigned long long)r->log_hash);
  Tape* ts[] = {&r->W, &r->P, &r->B, &r->F};
  const char* nm = "WPBF";
  for (int k = 0; k < 4; ++k) {
    u32 n = ts[k]->len;
    if (k != 1) while (n && ts[k]->v[n - 1] == 0) --n;
    fprintf(f, "%c %u", nm[k], n);
    for (u32 i = 0; i < n; ++i) fprintf(f, " %u", ts[k]->v[i]);
    fprintf(f, "\n");
  }
  fprintf(f, "msg %s\n", r->msg);
  fclose(f);
}
struct Tapes { Tape W, P, B, F; };
static bool load_tape(const char* path, Tapes* t, u64* seed, char* key, size_t kcap, u64* hash) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char w[64]; *seed = 0; key[0] = 0; *hash = 0;
  static char line[512];
  if (!fgets(line, sizeof line, f)) return false;
  while (fscanf(f, "%60s", w) == 1) {
    if (!strcmp(w, "harness")) { if (fscanf(f, "%500s", line) != 1) break; }
    else if (!strcmp(w, "seed")) { unsigned long long s; if (fscanf(f, "%llu", &s) == 1) *seed = s; }
    else if (!strcmp(w, "key")) { fgetc(f); if (fgets(line, sizeof line, f)) { line[strcspn(line, "\n")] = 0; snprintf(key, kcap, "%s", line); } }
    else if (!strcmp(w, "loghash")) { unsigned long long s; if (fscanf(f, "%llx", &s) == 1) *hash = s; }
    else if (!strcmp(w, "msg")) break;
    else if (w[1] == 0 && strchr("WPBF", w[0])) {
      Tape* t1 = w[0] == 'W' ? &t->W : w[0] == 'P' ? &t->P : w[0] == 'B' ? &t->B : &t->F;
      u32 n; if (fscanf(f, "%u", &n) != 1 || n > TAPE_CAP) return false;
      for (u32 i = 0; i < n; ++i) if (fscanf(f, "%u", &t1->v[i]) != 1) return false;
      t1->len = n;
    }
  }
  fclose(f);
  return true;
}
static void* shared(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(73); }
  return p;
}
static void merge_probe(u32* n, Probe* to, const Probe* p) {
  for (u32 i = 0; i < *n; ++i) if (!strcmp(to[i].name, p->name)) { to[i].n += p->n; return; }
  if (*n < NPROBE) to[(*n)++] = *p;
}
static void worker(int id, int nw, u64 base, u64 max_runs, u64 end_ns, Agg* a, volatile u64* nviol, u64 maxviol, const char* outdir) {
  R = (Result*)shared(sizeof(Result));
  for (u64 i = id; i < max_runs; i += nw) {
    if (real_ns() >= end_ns) break;
    if (__atomic_load_n(nviol, __ATOMIC_RELAXED) >= maxviol) break;
    Job j = {seed_of(base, i), false, &empty_tape, &empty_tape, &empty_tape, &empty_tape, false, -1};
    int rc = one_run(j);
    a->runs++;
    if (rc) { a->errors++; a->last_error = rc; continue; }
    a->steps += R->steps; a->syncs += R->syncs; a->switches += R->switches; a->preempts += R->preempts; a->sim_ns += R->sim_ns; a->threads += R->threads;
    a->overflow += R->overflow;
    for (u32 k = 0; k < R->nprobe; ++k) merge_probe(&a->nprobe, a->probe, &R->probe[k]);
    if (a->nih < (1 << 18)) a->ih[a->nih++] = R->ihash;
    for (u32 k = 0; k < R->nstate; ++k) if (a->nst < (1 << 14)) a->st[a->nst++] = R->state[k];
    if (R->status == 2) {
      a->violations++;
      u64 v = __atomic_fetch_add(nviol, 1, __ATOMIC_RELAXED);
      char p[512]; snprintf(p, sizeof p, "%s/viol_%llu.tape", outdir, (unsigned long long)v);
      save_tape(p, j.seed, R);
    } else if (i / nw % 37 == 5) {  // determinism self-check
      u64 h = R->log_hash, s = R->steps;
      one_run(j);
      a->det_checked++;
      if (R->log_hash != h || R->steps != s) a->det_failed++;
    }
  }
}
static int cmp64(const void* a, const void* b) { u64 x = *(u64*)a, y = *(u64*)b; return x < y ? -1 : x > y; }
static u64 uniq(u64* v, u64 n) { qsort(v, n, 8, cmp64); u64 k = 0; for (u64 i = 0; i < n; ++i) if (!i || v[i] != v[i - 1]) ++k; return k; }
static void jstr(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) { if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); } else if ((u8)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); }
  fputc('"', f);
}
static int cmd_search(u64 base, u64 runs, double secs, int nw, u64 maxviol, const char* outdir) {
  Agg** ag = (Agg**)malloc(sizeof(Agg*) * nw);
  volatile u64* nviol = (volatile u64*)shared(4096);
  u64 t0 = real_ns(), end = t0 + (u64)(secs * 1e9);
  pid_t* pids = (pid_t*)malloc(sizeof(pid_t) * nw);
  for (int i = 0; i < nw; ++i) ag[i] = (Agg*)shared(sizeof(Agg));
  fflush(stdout);
  for (int i = 0; i < nw; ++i) {
    pids[i] = fork();
    if (pids[i] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(i, nw, base, runs, end, ag[i], nviol, maxviol, outdir); _exit(0); }
  }
  int bad = 0;
  for (int i = 0; i < nw; ++i) { int st; waitpid(pids[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  Agg* m = ag[0];
  u64 tot = 0, tst = 0;
  for (int i = 0; i < nw; ++i) { tot += ag[i]->nih; tst += ag[i]->nst; }
  u64* ih = (u64*)malloc(8 * (tot + 1)); u64* st = (u64*)malloc(8 * (tst + 1)); tot = tst = 0;
  for (int i = 0; i < nw; ++i) {
    Agg* a = ag[i];
    memcpy(ih + tot, a->ih, 8ull * a->nih); tot += a->nih;
    memcpy(st + tst, a->st, 8ull * a->nst); tst += a->nst;
    if (!i) continue;
    m->runs += a->runs; m->steps += a->steps; m->syncs += a->syncs; m->switches += a->switches; m->preempts += a->preempts; m->sim_ns += a->sim_ns; m->threads += a->threads;
    m->det_checked += a->det_checked; m->det_failed += a->det_failed; m->errors += a->errors; m->violations += a->violations; m->overflow += a->overflow;
    if (a->last_error) m->last_error = a->last_error;
    for (u32 k = 0; k < a->nprobe; ++k) merge_probe(&m->nprobe, m->probe, &a->probe[k]);
  }
  u64 di = uniq(ih, tot), ds = uniq(st, tst);
  printf("{\"harness\": \"%s\", \"runs\": %llu, \"steps\": %llu, \"sync_ops\": %llu, \"switches\": %llu, \"preemptions\": %llu, \"threads\": %llu, \"sim_ns\": %llu, \"wall_s\": %.3f, "
         "\"distinct_interleavings\": %llu, \"distinct_states\": %llu, \"det_checked\": %llu, \"det_failed\": %llu, \"errors\": %llu, \"last_error\": %d, \"bad_workers\": %d, \"overflow\": %llu, \"violations\": %llu, \"probes\": {",
         sim_harness_name, (unsigned long long)m->runs, (unsigned long long)m->steps, (unsigned long long)m->syncs, (unsigned long long)m->switches, (unsigned long long)m->preempts, (unsigned long long)m->threads,
         (unsigned long long)m->sim_ns, (real_ns() - t0) / 1e9, (unsigned long long)di, (unsigned long long)ds, (unsigned long long)m->det_checked, (unsigned long long)m->det_failed,
         (unsigned long long)m->errors, m->last_error, bad, (unsigned long long)m->overflow, (unsigned long long)*nviol);
  for (u32 k = 0; k < m->nprobe; ++k) { if (k) printf(", "); jstr(stdout, m->probe[k].name); printf(": %llu", (unsigned long long)m->probe[k].n); }
  printf("}}\n");
  fflush(stdout);
  return 0;
}
static Tapes *cand, *best;
static bool same_class(const char* a, const char* b) { return !strcmp(a, b); }
static u64 min_runs, min_end; static char min_key[160];
// Whether the candidate still fails the same way. On success the recorded
// (normalised) tapes become the best.
static bool try_cand() {
  if (real_ns() > min_end) return false;
  min_runs++;
  Job j = {1, true, &cand->W, &cand->P, &cand->B, &cand->F, false, -1};
  if (one_run(j) || R->status != 2 || !same_class(R->key, min_key)) return false;
  best->W = R->W; best->P = R->P; best->B = R->B; best->F = R->F;
  for (int k = 0; k < 4; ++k) {
    Tape* t = k == 0 ? &best->W : k == 1 ? &best->P : k == 2 ? &best->B : &best->F;
    if (k != 1) while (t->len && t->v[t->len - 1] == 0) t->len--;
  }
  return true;
}
static void del(Tape* t, u32 i, u32 n) { memmove(&t->v[i], &t->v[i + n], 4ull * (t->len - i - n)); t->len -= n; }
static int cmd_minimise(const char* in, const char* out, double secs) {
  cand = (Tapes*)calloc(1, sizeof(Tapes)); best = (Tapes*)calloc(1, sizeof(Tapes));
  u64 seed, hash;
  if (!load_tape(in, best, &seed, min_key, sizeof min_key, &hash)) { fprintf(stderr, "cannot read %s\n", in); return 2; }
  R = (Result*)shared(sizeof(Result));
  min_end = real_ns() + (u64)(secs * 1e9);
  *cand = *best;
  if (!try_cand()) { printf("{\"reproduced\": false, \"got\": \"%s\"}\n", R->key); return 3; }
  u32 w0 = best->W.len, p0 = best->P.len / 2, b0 = best->B.len, f0 = best->F.len;
  bool progress = true;
  for (int round = 0; round < 4 && progress; ++round) {
    progress = false;
    // Preemptions: drop chunks, first without and then with merging the gap of
    // the dropped ones into the next.
    for (u32 ch = (best->P.len / 2 + 1) / 2 ? (best->P.len / 2 + 1) / 2 : 1; ch >= 1; ch /= 2) {
      for (u32 i = 0; i * 2 < best->P.len;) {
        *cand = *best;
        u32 n = ch; if ((i + n) * 2 > cand->P.len) n = cand->P.len / 2 - i;
        // Keep absolute position of the next one when possible.
        u32 sum = 0; for (u32 k = 0; k < n; ++k) sum += cand->P.v[(i + k) * 2];
        del(&cand->P, i * 2, n * 2);
        Tapes* c2 = cand;
        if (try_cand()) { progress = true; continue; }
        if (i * 2 < c2->P.len) { c2->P.v[i * 2] += sum; if (try_cand()) { progress = true; continue; } }
        i += ch;
      }
      if (ch == 1) break;
    }
    Tape* tb[] = {&cand->W, &cand->F, &cand->B};
    Tape* ts[] = {&best->W, &best->F, &best->B};
    for (int k = 0; k < 3; ++k) {
      for (u32 ch = ts[k]->len ? ts[k]->len : 1; ch >= 1; ch /= 2) {
        for (u32 i = 0; i < ts[k]->len; i += ch) {
          *cand = *best; bool any = false;
          for (u32 q = i; q < i + ch && q < tb[k]->len; ++q) { any |= tb[k]->v[q] != 0; tb[k]->v[q] = 0; }
          if (any && try_cand()) progress = true;
        }
        if (ch == 1) break;
      }
      if (k == 0) {
        for (u32 i = 0; i < ts[k]->len; ++i) {
          *cand = *best;
          while (i < tb[k]->len && tb[k]->v[i] > 0) { tb[k]->v[i] /= 2; if (!try_cand()) break; progress = true; *cand = *best; }
        }
        for (u32 i = 0; i < ts[k]->len;) { *cand = *best; del(tb[k], i, 1); if (try_cand()) progress = true; else ++i; }
      }
    }
  }
  *cand = *best; min_end = ~0ull;
  bool ok = try_cand();
  *cand = *best;
  u64 h1 = R->log_hash;
  ok = ok && try_cand() && R->log_hash == h1;
  if (!ok) { printf("{\"reproduced\": false}\n"); return 3; }
  // Final run recorded in R: save the exact minimised tapes.
  R->W = best->W; R->P = best->P; R->B = best->B; R->F = best->F;
  save_tape(out, seed, R);
  printf("{\"reproduced\": true, \"runs\": %llu, \"workload\": [%u, %u], \"preemptions\": [%u, %u], \"picks\": [%u, %u], \"faults\": [%u, %u], \"key\": ", (unsigned long long)min_runs, w0, best->W.len, p0, best->P.len / 2, b0, best->B.len, f0, best->F.len);
  jstr(stdout, R->key); printf(", \"msg\": "); jstr(stdout, R->msg); printf(", \"notes\": "); jstr(stdout, R->notes); printf("}\n");
  return 0;
}
static int cmd_replay(const char* in, bool verbose) {
  best = (Tapes*)calloc(1, sizeof(Tapes));
  u64 seed, hash; char key[160];
  if (!load_tape(in, best, &seed, key, sizeof key, &hash)) { fprintf(stderr, "cannot read %s\n", in); return 2; }
  R = (Result*)shared(sizeof(Result));
  Job j = {1, true, &best->W, &best->P, &best->B, &best->F, verbose, 1};
  fflush(stdout);
  int rc = one_run(j);
  printf("{\"rc\": %d, \"status\": %d, \"key\": ", rc, R->status); jstr(stdout, R->key);
  printf(", \"expected_key\": "); jstr(stdout, key);
  printf(", \"loghash\": \"%016llx\", \"expected_loghash\": \"%016llx\", \"msg\": ", (unsigned long long)R->log_hash, (unsigned long long)hash);
  jstr(stdout, R->msg); printf(", \"notes\": "); jstr(stdout, R->notes); printf("}\n");
  return rc ? 2 : (R->status == 2 ? 1 : 0);
}
static int cmd_hashes(u64 base, u64 n) {
  R = (Result*)shared(sizeof(Result));
  for (u64 i = 0; i < n; ++i) {
    Job j = {seed_of(base, i), false, &empty_tape, &empty_tape, &empty_tape, &empty_tape, false, -1};
    int rc = one_run(j);
    printf("%llu %d %d %016llx %llu %s\n", (unsigned long long)i, rc, R->status, (unsigned long long)R->log_hash, (unsigned long long)R->steps, R->key);
  }
  return 0;
}
static int cmd_one(u64 seed, bool verbose, const char* out) {
  R = (Result*)shared(sizeof(Result));
  Job j = {seed, false, &empty_tape, &empty_tape, &empty_tape, &empty_tape, verbose, 1};
  int rc = one_run(j);
  printf("rc=%d status=%d key=%s steps=%llu syncs=%llu switches=%llu threads=%llu\n%s\n%s", rc, R->status, R->key, (unsigned long long)R->steps, (unsigned long long)R->syncs, (unsigned long long)R->switches, (unsigned long long)R->threads, R->msg, R->notes);
  if (out && R->status == 2) save_tape(out, seed, R);
  return 0;
}
int main(int argc, char** argv) {
  // Fixed addresses for shared libraries too.
  int per = personality(0xffffffff);
  if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    if (personality(per | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
  real_pthread_detach = (decltype(real_pthread_detach))dlsym(RTLD_NEXT, "pthread_detach");
  pthread_key_create(&exit_key, thread_exit);
  install_signals();
  u64 base = 1, runs = ~0ull, maxviol = 8; double secs = 10; int nw = 8; const char* outdir = "/tmp"; bool verbose = false; const char* out = nullptr;
  const char* cmd = argc > 1 ? argv[1] : "search"; const char* file = nullptr;
  for (int i = 2; i < argc; ++i) {
    if (!strcmp(argv[i], "--seed")) base = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--runs")) runs = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--secs")) secs = atof(argv[++i]);
    else if (!strcmp(argv[i], "--workers")) nw = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--maxviol")) maxviol = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--outdir")) outdir = argv[++i];
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "-v")) verbose = true;
    else file = argv[i];
  }
  sim_init();
  if (!strcmp(cmd, "search")) return cmd_search(base, runs, secs, nw, maxviol, outdir);
  if (!strcmp(cmd, "minimise")) return cmd_minimise(file, out, secs);
  if (!strcmp(cmd, "replay")) return cmd_replay(file, verbose);
  if (!strcmp(cmd, "hashes")) return cmd_hashes(base, runs);
  if (!strcmp(cmd, "one")) return cmd_one(base, verbose, out);
  fprintf(stderr, "unknown command %s\n", cmd);
  return 2;
}
