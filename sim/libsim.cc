// libsim: the deterministic simulator, preloaded into the Python process that
// hosts the (instrumented) wicked extension.
//
// Real threads exist but exactly one runs at a time; which one runs is decided
// here at every instrumented memory access and every synchronisation call.
// The allocator, thread launches, clocks, processor count and stdout are
// simulated as well.  See /verif/DESIGN.md.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/sysinfo.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define TLS static __thread __attribute__((tls_model("initial-exec")))
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef int64_t i64;

// ---------------------------------------------------------------- raw calls
static long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0,
                   long e = 0, long f = 0) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static void futex_wait_raw(volatile u32 *p, u32 v) {
  rawsys(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0);
}
static void futex_wake_raw(volatile u32 *p) {
  rawsys(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}

// ------------------------------------------------------- private bump memory
struct Arena {
  char *base, *cur, *end;
  void init(size_t n) {
    base = cur = (char *)mmap(0, n, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    end = base + n;
  }
  void *get(size_t n) {
    n = (n + 15) & ~15ul;
    if (cur + n > end)
      return nullptr;
    char *p = cur;
    cur += n;
    return p;
  }
  void *get_top(size_t n) {
    n = (n + 15) & ~15ul;
    if (end - n < cur)
      return nullptr;
    end -= n;
    return end;
  }
};
static Arena meta; // simulator data
static Arena heap; // operator new during a window (reused only if asked for)
static char *heap_end;

// --------------------------------------------------------------- shared memory
struct Dev {
  u32 tid, tstep;
  u32 kind; // 'P' preempt, 'F' forced choice, 'W' wakeup choice
  u32 target;
};
struct Report {
  u32 kind; // 1 race 2 use after free 3 double free
  u32 t1, t2;
  u32 w1, w2; // write flags (bit0) atomic (bit1)
  u64 pc1, pc2;
  u64 addr;
  u64 count;
};
enum { MAXDEV = 200000, MAXREP = 64, NCTR = 64 };
struct Shared {
  u32 status; // 0 none 1 window open 2 window closed 3 deadlock 4 step cap 5 internal
  u32 ndev;
  u32 nrep;
  u32 devoverflow;
  u64 hash;   // hash of every event
  u64 shash;  // hash of the schedule (context switches)
  u64 steps;
  u64 switches;
  u64 now_ns;
  u64 ctr[NCTR];
  char msg[4096];
  Report rep[MAXREP];
  Dev dev[MAXDEV];
};
static Shared *sh;
static Shared dummy_sh;

enum Ctr {
  C_THREADS, C_TFAIL, C_ALLOC, C_AFAIL, C_CLOCK, C_JUMP, C_OUT, C_OUTFAIL, C_STALL,
  C_LOCKWAIT, C_TIMEOUT, C_ACCESS, C_SYNC, C_CONFLICT, C_LIVE_BLOCKS, C_LIVE_BYTES,
  C_MAXTHREADS, C_YIELD, C_NPROC, C_FREED, C_PREEMPT, C_ALLOC_MAIN, C_LEAKED_SITE,
  C_HEAPUSED, C_OUTBYTES, C_DEADLINE, C_CREATE_ATTEMPT, C_EAGAINOUT, C_FORCED,
};

// --------------------------------------------------------------------- config
enum { POL_SEQ = 0, POL_GAP = 1, POL_PCT = 2, POL_SYNC = 3, POL_CONFLICT = 4, POL_REPLAY = 5, POL_RR = 6 };
static struct {
  u64 seed = 1;
  u64 policy = POL_SEQ;
  u64 gap = 100;     // mean number of steps between preemptions
  u64 prob = 8;      // 1/prob preemption at sync or conflicting accesses
  u64 pct_depth = 3; // number of priority change points
  u64 pct_range = 20000;
  u64 maxslice = 200000;
  u64 step_cap = 200000000;
  u64 step_ns = 1;
  u64 tick_ns = 1000;
  u64 nproc = 8;
  u64 race = 1;
  u64 uaf = 1;
  u64 timeouts = 1; // random early timeouts allowed
  u64 rndwake = 1;
  u64 fill = 0;   // what fresh memory contains: 0 a fixed byte, else seeded
  u64 layout = 0; // where blocks go: 0 upwards, else seeded gaps and both ends of the heap
  u64 env = 0;    // variables of the process that the library asks for have seeded contents
  u64 reuse = 0;  // released blocks are handed out again at once, as the usual allocators do
} cfg;

struct Fault {
  u32 kind; // 1 alloc 2 thread 3 clock jump 4 output 5 stall
  u32 tid;
  u64 nth, count;
  i64 arg;
  u64 fired;
};
enum { MAXFAULT = 256 };
static Fault faults[MAXFAULT];
static u32 nfaults;

enum { MAXRDEV = 200000 };
static Dev *rdev;
static u32 nrdev;

// -------------------------------------------------------------------- threads
enum State { FREE_, RUN, BLOCKED, FINISHED };
enum Why { W_NONE, W_MUTEX, W_COND, W_SEM, W_FUTEX, W_JOIN, W_ONCE, W_SLEEP, W_RW, W_DRAIN, W_GUARD };
static const char *whyname[] = {"-", "mutex", "cond", "sem", "futex", "join", "once", "sleep", "rwlock", "drain", "guard"};

struct VC {
  u32 n, cap;
  u32 *c;
};
struct TlsDtor {
  void (*fn)(void *);
  void *obj;
  TlsDtor *next;
};
enum { MAXT = 4096 };
struct Thread {
  u32 id;
  volatile u32 go;
  int state, why;
  const void *on;
  i64 deadline; // ns on the simulated monotonic clock, -1 none
  bool timedout, woken;
  u64 waitseq;
  u64 tstep, base_tstep, next_stop, slice_start;
  u64 allocs, creates;
  u64 prio;
  bool spun;   // its last wait ended by a timeout
  u64 lastrun; // when it last got the processor
  u64 stall_until; // global step
  u64 next_stall;  // own step of the next stall fault
  u64 stall_len;
  VC vc;
  VC fin;
  u32 rdev_pos, rdev_end; // replay deviations
  void *(*fn)(void *);
  int depth; // core_depth of the creator
  void *arg;
  void *ret;
  pthread_t pt;
  bool detached, joined;
  char *stack;
  size_t stacksz;
  TlsDtor *dtors;
  char *tls;
};
static Thread *T[MAXT];
static u32 nT;
static Thread *cur;
TLS Thread *self;
TLS int core_depth; // the library's own code is running
TLS int in_sim; // reentrancy guard
static volatile int on; // a window is open
static volatile int armed; // operator new uses the window heap
static u64 g_acc;       // steps of everyone except the current slice
static u64 now_extra;   // explicit clock advances
static i64 wall_off;
static u64 clock_reads, out_writes;
static i64 out_fail_errno;
static u64 rng_s;
static u64 pct_low = 1ull << 40, runseq;
static u64 waitseq;
static const i64 MONO_BASE = 1000000000000ll;            // 1000 s
static const i64 WALL_BASE = 1700000000ll * 1000000000ll; // 2023

static u64 rnd() {
  u64 z = (rng_s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static u64 below(u64 n) { return n ? rnd() % n : 0; }
static void hmix(u64 v) { sh->hash = (sh->hash ^ v) * 0x100000001B3ull + (sh->hash >> 29); }

static u64 cpu_acc;     // steps weighted with the processors at work, up to the current slice
static u64 nlive();
static u64 total_steps() { return g_acc + (cur ? cur->tstep - cur->base_tstep : 0); }
static i64 sim_now() { return MONO_BASE + (i64)now_extra + (i64)(total_steps() * cfg.step_ns); }

// --------------------------------------------------------------- real functions
#define REALS(X)                                                               \
  X(pthread_create) X(pthread_join) X(pthread_detach) X(pthread_mutex_lock)    \
  X(pthread_mutex_trylock) X(pthread_mutex_unlock) X(pthread_mutex_timedlock)  \
  X(pthread_mutex_clocklock) X(pthread_once) X(sem_wait) X(sem_trywait)        \
  X(sem_post) X(sem_timedwait) X(sem_clockwait) X(pthread_rwlock_rdlock)       \
  X(pthread_rwlock_wrlock) X(pthread_rwlock_tryrdlock)                         \
  X(pthread_rwlock_trywrlock) X(pthread_rwlock_unlock) X(clock_gettime)        \
  X(gettimeofday) X(time) X(nanosleep) X(clock_nanosleep) X(usleep) X(sleep)   \
  X(sched_yield) X(sysconf) X(get_nprocs) X(sched_getaffinity) X(fwrite)       \
  X(putc) X(fputc) X(fputs) X(puts) X(write) X(writev) X(fflush) X(putchar) X(clock)              \
  X(timespec_get) X(getrandom) X(getentropy) X(rand) X(random) X(gettid)       \
  X(sched_getcpu) X(getenv) X(secure_getenv) X(isatty)
#define X(n) static __typeof__(&n) real_##n;
REALS(X)
#undef X
static __typeof__(&pthread_cond_wait) real_pthread_cond_wait;
static __typeof__(&pthread_cond_timedwait) real_pthread_cond_timedwait;
static __typeof__(&pthread_cond_clockwait) real_pthread_cond_clockwait;
static __typeof__(&pthread_cond_signal) real_pthread_cond_signal;
static __typeof__(&pthread_cond_broadcast) real_pthread_cond_broadcast;
static unsigned (*real_rd_getval)(void *);
static int (*real_guard_acquire)(void *);
static void (*real_guard_release)(void *);
static void (*real_guard_abort)(void *);
static int (*real_thread_atexit)(void (*)(void *), void *, void *);

static void resolve() {
  if (real_pthread_create)
    return;
#define X(n) real_##n = (__typeof__(&n))dlsym(RTLD_NEXT, #n);
  REALS(X)
#undef X
#define CV(n) real_##n = (__typeof__(&n))dlvsym(RTLD_NEXT, #n, "GLIBC_2.3.2");
  CV(pthread_cond_wait) CV(pthread_cond_timedwait) CV(pthread_cond_signal) CV(pthread_cond_broadcast)
  real_pthread_cond_clockwait = (__typeof__(&pthread_cond_clockwait))dlsym(RTLD_NEXT, "pthread_cond_clockwait");
  real_rd_getval = (unsigned (*)(void *))dlsym(RTLD_NEXT, "_ZNSt13random_device9_M_getvalEv");
  real_guard_acquire = (int (*)(void *))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  real_guard_release = (void (*)(void *))dlsym(RTLD_NEXT, "__cxa_guard_release");
  real_guard_abort = (void (*)(void *))dlsym(RTLD_NEXT, "__cxa_guard_abort");
  real_thread_atexit = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_NEXT, "__cxa_thread_atexit");
}
__attribute__((constructor)) static void ctor() {
  resolve();
  if (!sh) sh = &dummy_sh;
}
static bool simulated() { return on && self; }
static u64 nfinished; // threads that have ended
static u64 nlive() { u64 n = nT - nfinished; n = n > 1 ? n - 1 : 1; return n < cfg.nproc ? n : cfg.nproc; }
// processor time of the process: the threads that could run in parallel do
static i64 sim_cpu() { return 50000000ll + (i64)((cpu_acc + (cur->tstep - cur->base_tstep) * nlive()) * cfg.step_ns); }

// -------------------------------------------------------------------- aborting
static void die(u32 status, int code, const char *fmt, ...) {
  sh->status = status;
  sh->steps = total_steps();
  va_list ap;
  va_start(ap, fmt);
  size_t l = strlen(sh->msg);
  vsnprintf(sh->msg + l, sizeof sh->msg - l, fmt, ap);
  va_end(ap);
  rawsys(SYS_exit_group, code);
  __builtin_unreachable();
}

// ----------------------------------------------------------------- vector clocks
static void vc_fit(VC &v, u32 n) {
  if (v.cap < n) {
    u32 cap = v.cap ? v.cap : 8;
    while (cap < n) cap *= 2;
    u32 *c = (u32 *)meta.get(cap * 4);
    if (!c) die(5, 93, "simulator memory exhausted");
    memcpy(c, v.c, v.n * 4);
    memset(c + v.n, 0, (cap - v.n) * 4);
    v.c = c;
    v.cap = cap;
  }
  if (v.n < n) v.n = n;
}
static void vc_join(VC &a, const VC &b) {
  vc_fit(a, b.n);
  for (u32 i = 0; i < b.n; i++)
    if (a.c[i] < b.c[i]) a.c[i] = b.c[i];
}
struct SyncObj {
  const void *a;
  VC vc;
};
enum { SYNCTAB = 1 << 18 };
static SyncObj *synctab;
static SyncObj *sync_of(const void *a) {
  u64 h = ((u64)a * 0x9E3779B97F4A7C15ull) >> 46;
  for (u32 i = 0; i < SYNCTAB; i++) {
    SyncObj *s = &synctab[(h + i) & (SYNCTAB - 1)];
    if (s->a == a) return s;
    if (!s->a) { s->a = a; return s; }
  }
  die(5, 93, "sync table full");
  return nullptr;
}
static void hb_acquire(const void *a) { vc_join(self->vc, sync_of(a)->vc); }
static void hb_release(const void *a) {
  vc_join(sync_of(a)->vc, self->vc);
  self->vc.c[self->id]++;
}

// ----------------------------------------------------------------------- shadow
// cell: epoch(32) tid(12) mask(8) write(1) atomic(1)
struct Gran {
  u64 cell[4];
  u64 pc[4];
  u32 next;
  u32 freed; // 1 = released, 2 | mask << 8 = those bytes lie outside every block
  u64 fpc;
};
enum { PTAB = 1 << 17 };
struct PEnt {
  u64 page;
  Gran *g;
};
static PEnt *ptab;
static u64 last_page = ~0ull;
static Gran *last_g;
static Gran *gran_of(u64 addr, bool create) {
  u64 page = addr >> 12;
  if (page == last_page) return &last_g[(addr >> 3) & 511];
  u64 h = (page * 0x9E3779B97F4A7C15ull) >> 47;
  for (u32 i = 0; i < PTAB; i++) {
    PEnt *e = &ptab[(h + i) & (PTAB - 1)];
    if (e->page == page) { last_page = page; last_g = e->g; return &e->g[(addr >> 3) & 511]; }
    if (!e->page) {
      if (!create) return nullptr;
      e->g = (Gran *)meta.get(512 * sizeof(Gran));
      if (!e->g) die(5, 93, "shadow memory exhausted");
      e->page = page;
      last_page = page;
      last_g = e->g;
      return &e->g[(addr >> 3) & 511];
    }
  }
  die(5, 93, "shadow table full");
  return nullptr;
}
struct Range { u64 lo, hi; };
static Range ign[512];
static u32 nign;
static u64 ext_lo, ext_hi; // the extension module
static size_t tls_mod, tls_filesz, tls_memsz; // thread-local storage of the library
static char *tls_img;
static int phdr_cb(struct dl_phdr_info *info, size_t, void *) {
  bool ext = info->dlpi_name && strstr(info->dlpi_name, "_wicked");
  u64 lo = ~0ull, hi = 0;
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_LOAD) {
      u64 a = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, b = a + info->dlpi_phdr[i].p_memsz;
      if (a < lo) lo = a;
      if (b > hi) hi = b;
    }
  if (hi <= lo) return 0;
  if (ext) {
    ext_lo = lo; ext_hi = hi;
    for (int i = 0; i < info->dlpi_phnum; i++)
      if (info->dlpi_phdr[i].p_type == PT_TLS) {
        tls_mod = info->dlpi_tls_modid;
        tls_img = (char *)info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
        tls_filesz = info->dlpi_phdr[i].p_filesz;
        tls_memsz = info->dlpi_phdr[i].p_memsz;
      }
  }
  else if (nign < 512) ign[nign++] = {lo, hi};
  return 0;
}
static u64 ign_lo[8], ign_hi[8]; // merged quick check
static u64 stdio_obj[3]; // std::cout, std::cerr, std::clog: formatting state is shared
static bool ignored(u64 a) {
  if (a >= (u64)heap.base && a < (u64)heap_end) return false;
  for (u32 i = 0; i < 3; i++)
    if (stdio_obj[i] && a >= stdio_obj[i] && a < stdio_obj[i] + 272) return false;
  for (u32 i = 0; i < nign; i++)
    if (a >= ign[i].lo && a < ign[i].hi) return true;
  return false;
}
// memory of the interpreter's own allocator: its addresses and its reuse depend
// on what the process did before, so accesses there do not steer the schedule
static u64 main_sp;
static bool foreign(u64 a) {
  if (a >= (u64)heap.base && a < (u64)heap_end) return false;
  if (a >= ext_lo && a < ext_hi) return false;
  if (a - (main_sp - (8u << 20)) < (9u << 20)) return false;
  for (u32 i = 1; i < nT; i++) if (a - (u64)T[i]->stack < T[i]->stacksz) return false;
  return true;
}
static u64 relpc(u64 pc) { return pc >= ext_lo && pc < ext_hi ? pc - ext_lo : 0; }

static void add_report(u32 kind, u32 t1, u32 t2, u32 w1, u32 w2, u64 pc1, u64 pc2, u64 addr) {
  pc1 = relpc(pc1);
  pc2 = relpc(pc2);
  for (u32 i = 0; i < sh->nrep; i++) {
    Report &r = sh->rep[i];
    if (r.kind == kind && ((r.pc1 == pc1 && r.pc2 == pc2) || (r.pc1 == pc2 && r.pc2 == pc1))) { r.count++; return; }
  }
  if (sh->nrep < MAXREP) {
    Report &r = sh->rep[sh->nrep];
    r = {kind, t1, t2, w1, w2, pc1, pc2, addr, 1};
    sh->nrep++;
  }
}
static u64 conflict_seen; // set by check_access when another thread touched it
static void check_gran(u64 addr, u32 mask, u32 w, u32 at, u64 pc) {
  // what the only thread did happens before all that later threads do, so that
  // until the first other thread exists only use after free needs a look
  bool alone = nT == 1;
  Gran *g = gran_of(addr, !alone);
  if (alone && (!g || !g->freed)) return;
  if (g->freed && (g->freed == 1 || (g->freed >> 8 & mask))) {
    add_report(g->freed == 1 ? 2 : 4, self->id, 0, w, g->freed == 1, pc, g->freed == 1 ? g->fpc : 0, addr);
    return;
  }
  if (alone) return;
  Thread *me = self;
  u64 mycell = ((u64)me->vc.c[me->id] << 32) | ((u64)(me->id & 4095) << 20) | (mask << 12) | (w << 11) | (at << 10);
  int slot = -1;
  for (int i = 0; i < 4; i++) {
    u64 c = g->cell[i];
    if (!c) { if (slot < 0) slot = i; continue; }
    if (c == mycell) return; // same access already recorded
    u32 ct = (c >> 20) & 4095, cm = (c >> 12) & 255, cw = (c >> 11) & 1, ca = (c >> 10) & 1;
    if (!(cm & mask)) continue;
    if (ct == me->id) {
      if (cm == mask && (w || !cw) && at == ca) slot = i; // replace own older record
      else if (cm == mask && cw && !w && (c >> 32) == me->vc.c[me->id]) return; // covered by own write
      continue;
    }
    conflict_seen = 1;
    if (!(w | cw)) continue;
    if (at && ca) continue;
    u32 e = c >> 32;
    u32 known = ct < me->vc.n ? me->vc.c[ct] : 0;
    if (known < e) { add_report(1, me->id, ct, w | at << 1, cw | ca << 1, pc, g->pc[i], addr); g->cell[i] = 0; slot = i; continue; }
    if (w) slot = i; // older ordered access replaced
  }
  if (slot < 0) { slot = g->next & 3; g->next++; }
  g->cell[slot] = mycell;
  g->pc[slot] = pc;
}
static void shadow_range(u64 a, u64 n, u32 freed, u64 pc) {
  u64 e = (a + n + 7) & ~7ull;
  for (a &= ~7ull; a < e; a += 8) {
    Gran *g = gran_of(a, true);
    memset(g, 0, sizeof(u64) * 8);
    g->next = 0;
    g->freed = freed;
    g->fpc = pc;
  }
}
// the bytes around a block: its header, and what is left of its last granule
static void red_zone(u64 p, u64 n, u64 room) {
  for (u64 a = p - 16; a < p; a += 8) gran_of(a, true)->freed = 2 | 255 << 8;
  for (u64 a = (p + n) & ~7ull, o = (p + n) & 7; a < p + room; a += 8, o = 0) gran_of(a, true)->freed = 2 | (255u << o & 255) << 8;
}

// --------------------------------------------------------------------- schedule
static void record(u32 kind, u32 target) {
  if (sh->ndev < MAXDEV) sh->dev[sh->ndev++] = {self->id, (u32)self->tstep, kind, target};
  else sh->devoverflow = 1;
}
static void wait_turn(Thread *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex_wait_raw(&t->go, 0);
  t->go = 0;
}
static u64 draw_gap() {
  u64 g = cfg.gap ? cfg.gap : 1;
  return 1 + below(2 * g);
}
static void plan_stop(Thread *t) {
  u64 s = t->slice_start + cfg.maxslice;
  if (cfg.policy == POL_REPLAY) {
    while (t->rdev_pos < t->rdev_end && rdev[t->rdev_pos].tstep < t->tstep) t->rdev_pos++;
    if (t->rdev_pos < t->rdev_end && rdev[t->rdev_pos].tstep < s) s = rdev[t->rdev_pos].tstep;
  } else if (cfg.policy == POL_GAP || cfg.policy == POL_RR) {
    u64 g = t->tstep + draw_gap();
    if (g < s) s = g;
  } else if (cfg.policy == POL_PCT) {
    u64 g = t->tstep + 1 + below(cfg.pct_range);
    if (g < s) s = g;
  }
  if (t->next_stall && t->next_stall < s) s = t->next_stall;
  if (s <= t->tstep) s = t->tstep + 1;
  t->next_stop = s;
}
static void enter_slice(Thread *t) {
  t->base_tstep = t->tstep;
  t->slice_start = t->tstep;
  plan_stop(t);
}
static void give(Thread *n) {
  // account for the steps of the slice that ends
  g_acc = total_steps();
  cpu_acc += (cur->tstep - cur->base_tstep) * nlive();
  cur->base_tstep = cur->tstep;
  cur = n;
  n->lastrun = ++runseq;
  enter_slice(n);
  sh->switches++;
  hmix(0x5157 ^ ((u64)n->id << 16));
  sh->shash = (sh->shash ^ (((u64)self->id << 44) ^ ((u64)n->id << 32) ^ self->tstep)) * 0x100000001B3ull + (sh->shash >> 31);
  __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
  futex_wake_raw(&n->go);
}
static bool eligible(Thread *t) { return t->state == RUN && t->stall_until <= total_steps(); }
static void expire() { // timed waits whose deadline has passed
  i64 n = sim_now();
  for (u32 i = 0; i < nT; i++) {
    Thread *t = T[i];
    if (t->state == BLOCKED && t->deadline >= 0 && t->deadline <= n) {
      t->state = RUN;
      t->timedout = true;
      t->spun = true; // a thread that polls must not starve the one it waits for
      t->prio = --pct_low;
      sh->ctr[C_TIMEOUT]++;
    }
  }
}
static void fire_timeout(Thread *t) {
  i64 n = sim_now();
  if (t->deadline > n) now_extra += t->deadline - n;
  expire();
}
static void describe() {
  size_t l = strlen(sh->msg);
  for (u32 i = 0; i < nT && l < sizeof sh->msg - 80; i++) {
    Thread *t = T[i];
    if (t->state == FINISHED || t->state == FREE_) continue;
    l += snprintf(sh->msg + l, sizeof sh->msg - l, " [thread %u %s %s steps %llu]", t->id,
                  t->state == RUN ? "runnable" : "blocked", t->state == RUN ? "" : whyname[t->why],
                  (unsigned long long)t->tstep);
  }
}
static void cap_check() {
  if (total_steps() > cfg.step_cap) {
    describe();
    die(4, 92, " no progress: step bound %llu exceeded", (unsigned long long)cfg.step_cap);
  }
}
static bool want_dev(u32 kind, u32 &target) {
  Thread *me = self;
  while (me->rdev_pos < me->rdev_end && rdev[me->rdev_pos].tstep < me->tstep) me->rdev_pos++;
  for (u32 p = me->rdev_pos; p < me->rdev_end && rdev[p].tstep == me->tstep; p++)
    if (rdev[p].kind == kind) {
      target = rdev[p].target;
      rdev[p].kind = 0; // consumed
      return true;
    }
  return false;
}
// The current thread cannot continue: choose another one.
static Thread *pick_forced() {
  cap_check();
  expire();
  for (;;) {
    static Thread *R[MAXT];
    u32 n = 0;
    for (u32 i = 0; i < nT; i++)
      if (eligible(T[i])) R[n++] = T[i];
    if (!n) { // the stalled threads come back, or time passes
      bool any = false;
      for (u32 i = 0; i < nT; i++)
        if (T[i]->state == RUN && T[i]->stall_until) { T[i]->stall_until = 0; any = true; }
      if (any) continue;
      Thread *b = nullptr;
      for (u32 i = 0; i < nT; i++)
        if (T[i]->state == BLOCKED && T[i]->deadline >= 0 && (!b || T[i]->deadline < b->deadline)) b = T[i];
      if (b) { fire_timeout(b); continue; }
      // only a drain waits: everything else is idle
      for (u32 i = 0; i < nT; i++)
        if (T[i]->state == BLOCKED && T[i]->why == W_DRAIN) { T[i]->state = RUN; return T[i]; }
      describe();
      die(3, 91, " deadlock");
    }
    Thread *def = nullptr, *c;
    for (u32 i = 0; i < n && !def; i++) if (!R[i]->spun) def = R[i];
    if (!def) {
      def = R[0];
      for (u32 i = 1; i < n; i++) if (R[i]->lastrun < def->lastrun) def = R[i];
    }
    c = def;
    sh->ctr[C_FORCED]++;
    if (cfg.policy == POL_REPLAY) {
      u32 tg;
      if (want_dev('F', tg))
        for (u32 i = 0; i < n; i++) if (R[i]->id == tg) c = R[i];
    } else if (cfg.policy == POL_PCT) {
      for (u32 i = 0; i < n; i++) if (R[i]->prio > c->prio) c = R[i];
    } else if (cfg.policy == POL_RR) {
      c = R[0];
      for (u32 i = 0; i < n; i++) if (R[i]->id > self->id) { c = R[i]; break; }
    } else if (cfg.policy != POL_SEQ) {
      c = R[below(n)];
    }
    if (c != def) record('F', c->id);
    return c;
  }
}
static void preempt_to(Thread *c) {
  sh->ctr[C_PREEMPT]++;
  record('P', c->id);
  give(c);
  wait_turn(self);
}
// A point where the current thread may be preempted.
static void slow_point(int kind) { // 0 plain, 1 sync, 2 conflicting access
  Thread *me = self;
  expire();
  if (me->next_stall && me->tstep >= me->next_stall) {
    me->next_stall = 0;
    me->stall_until = total_steps() + me->stall_len;
    sh->ctr[C_STALL]++;
    Thread *c = nullptr;
    for (u32 i = 0; i < nT; i++)
      if (T[i] != me && eligible(T[i])) { c = T[i]; break; }
    if (c) { give(c); wait_turn(me); return; }
    me->stall_until = 0;
  }
  bool slice_over = me->tstep >= me->slice_start + cfg.maxslice;
  Thread *c = nullptr;
  if (cfg.policy == POL_REPLAY) {
    u32 tg;
    if (want_dev('P', tg) && tg < nT && tg != me->id) {
      Thread *t = T[tg];
      if (t->state == BLOCKED && t->deadline >= 0) fire_timeout(t);
      if (t->state == RUN) c = t;
    }
    if (c) { preempt_to(c); return; }
  } else {
    bool go = false;
    if (cfg.policy == POL_GAP || cfg.policy == POL_RR) go = me->tstep >= me->next_stop;
    else if (cfg.policy == POL_SYNC) go = kind == 1 && below(cfg.prob) == 0;
    else if (cfg.policy == POL_CONFLICT) go = kind >= 1 && below(cfg.prob) == 0;
    else if (cfg.policy == POL_PCT) {
      if (me->tstep >= me->next_stop && cfg.pct_depth) { cfg.pct_depth--; me->prio = (1ull << 40) + cfg.pct_depth; }
      for (u32 i = 0; i < nT; i++)
        if (T[i] != me && eligible(T[i]) && T[i]->prio > (c ? c->prio : me->prio)) c = T[i];
    }
    if (go) {
      static Thread *R[MAXT];
      u32 n = 0;
      for (u32 i = 0; i < nT; i++) {
        Thread *t = T[i];
        if (t == me) continue;
        if (eligible(t)) R[n++] = t;
      }
      if (cfg.timeouts && (n == 0 || below(4) == 0))
        for (u32 i = 0; i < nT; i++)
          if (T[i]->state == BLOCKED && T[i]->deadline >= 0) R[n++] = T[i];
      if (n) {
        if (cfg.policy == POL_RR) { c = R[0]; for (u32 i = 0; i < n; i++) if (R[i]->id > me->id) { c = R[i]; break; } }
        else c = R[below(n)];
        if (c->state == BLOCKED) fire_timeout(c);
      }
    }
    if (c) { preempt_to(c); return; }
  }
  if (slice_over) {
    cap_check();
    // fairness: let the next runnable thread run (deterministic, not recorded)
    for (u32 k = 1; k < nT; k++) {
      Thread *t = T[(me->id + k) % nT];
      if (eligible(t)) { give(t); wait_turn(me); return; }
    }
    me->slice_start = me->tstep;
  }
  plan_stop(me);
}
static inline void point_sync() {
  Thread *me = self;
  me->tstep++;
  sh->ctr[C_SYNC]++;
  if (me->tstep >= me->next_stop || cfg.policy == POL_SYNC || cfg.policy == POL_CONFLICT || cfg.policy == POL_PCT) slow_point(1);
  else if ((me->tstep & 15) == 0) expire();
}
static void block(int why, const void *obj, i64 deadline = -1) {
  Thread *me = self;
  me->state = BLOCKED;
  me->why = why;
  me->on = obj;
  me->deadline = deadline;
  me->timedout = false;
  me->woken = false;
  me->waitseq = ++waitseq;
  sh->ctr[C_LOCKWAIT]++;
  me->tstep++;
  Thread *n = pick_forced();
  if (n != me) { give(n); wait_turn(me); }
  else enter_slice(me);
  me->state = RUN;
  me->why = W_NONE;
  me->deadline = -1;
}
static void unblock(Thread *t) {
  t->state = RUN;
  t->woken = true;
  t->spun = false;
}
static u32 wake_all(int why, const void *obj) {
  u32 k = 0;
  for (u32 i = 0; i < nT; i++)
    if (T[i]->state == BLOCKED && T[i]->why == why && T[i]->on == obj) { unblock(T[i]); k++; }
  return k;
}
static bool wake_one(int why, const void *obj) {
  static Thread *R[MAXT];
  u32 n = 0;
  for (u32 i = 0; i < nT; i++)
    if (T[i]->state == BLOCKED && T[i]->why == why && T[i]->on == obj) R[n++] = T[i];
  if (!n) return false;
  Thread *def = R[0];
  for (u32 i = 1; i < n; i++) if (R[i]->waitseq < def->waitseq) def = R[i];
  Thread *c = def;
  if (n > 1) {
    if (cfg.policy == POL_REPLAY) { u32 tg; if (want_dev('W', tg)) for (u32 i = 0; i < n; i++) if (R[i]->id == tg) c = R[i]; }
    else if (cfg.policy != POL_SEQ && cfg.rndwake) c = R[below(n)];
  }
  if (c != def) record('W', c->id);
  unblock(c);
  return true;
}

// ------------------------------------------------------------------ memory hooks
static inline void access_n(const void *p, u64 n, u32 w, u32 at, u64 pc) {
  Thread *me = self;
  if (!on || !me) return;
  // the binding layer is watched but is not part of the schedule: its hash
  // tables are keyed by addresses that differ from one process to the next
  bool counted = core_depth > 0 || at;
  if (counted) {
    me->tstep++;
    hmix(relpc(pc) ^ ((u64)me->id << 40) ^ n);
    sh->ctr[C_ACCESS]++;
  }
  u64 a = (u64)p;
  conflict_seen = 0;
  if (cfg.race && !ignored(a)) {
    u64 b = a, e = a + n;
    while (b < e) {
      u64 o = b & 7, k = 8 - o;
      if (k > e - b) k = e - b;
      check_gran(b & ~7ull, ((1u << k) - 1) << o, w, at, pc);
      b += k;
    }
  }
  if (!counted) return;
  if (conflict_seen && !foreign(a)) { sh->ctr[C_CONFLICT]++; if (cfg.policy == POL_CONFLICT) { slow_point(2); return; } }
  if (me->tstep >= me->next_stop) slow_point(at ? 1 : 0);
}
#define PC ((u64)__builtin_return_address(0))
EXPORT void __tsan_init() {}
// The library's own frames are told from those of the binding layer (pybind11):
// allocations are the library's when the innermost frame that belongs to either
// is the library's own; frames of the standard library and boost inherit.
static u8 *own_map; // per byte of the module: 0 neutral, 1 own, 2 binding layer
static u64 own_n;
enum { FRAMES = 1 << 16 };
TLS u32 nframes;
TLS u8 frames[FRAMES];
TLS u32 chain, chains[FRAMES]; // names the chain of calls that led here
EXPORT void __tsan_func_entry(void *from) {
  u64 o = PC - ext_lo;
  chains[nframes & (FRAMES - 1)] = chain;
  chain = (chain ^ (u32)((u64)from - ext_lo)) * 0x9E3779B1u + (chain >> 15);
  u8 k = own_map && o < own_n ? own_map[o] : 0;
  frames[nframes & (FRAMES - 1)] = core_depth;
  nframes++;
  if (k) core_depth = k == 1;
}
EXPORT void __tsan_func_exit() {
  nframes--;
  core_depth = frames[nframes & (FRAMES - 1)];
  chain = chains[nframes & (FRAMES - 1)];
}
#define RW(n)                                                                  \
  EXPORT void __tsan_read##n(void *p) { access_n(p, n, 0, 0, PC); }            \
  EXPORT void __tsan_write##n(void *p) { access_n(p, n, 1, 0, PC); }           \
  EXPORT void __tsan_unaligned_read##n(void *p) { access_n(p, n, 0, 0, PC); }  \
  EXPORT void __tsan_unaligned_write##n(void *p) { access_n(p, n, 1, 0, PC); } \
  EXPORT void __tsan_volatile_read##n(void *p) { access_n(p, n, 0, 0, PC); }   \
  EXPORT void __tsan_volatile_write##n(void *p) { access_n(p, n, 1, 0, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, unsigned long n) { if (n) access_n(p, n, 0, 0, PC); }
EXPORT void __tsan_write_range(void *p, unsigned long n) { if (n) access_n(p, n, 1, 0, PC); }
EXPORT void __tsan_vptr_read(void **p) { access_n(p, 8, 0, 0, PC); }
EXPORT void __tsan_vptr_update(void **p, void *v) { if (*p != v) access_n(p, 8, 1, 0, PC); }
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}

static void at_before(const volatile void *p, u64 n, u32 w, u64 pc) {
  if (!simulated()) return;
  sh->ctr[C_SYNC]++;
  access_n((const void *)p, n, w, 1, pc);
  if (cfg.policy == POL_SYNC || cfg.policy == POL_PCT) slow_point(1);
}
static void at_acq(const volatile void *p) { if (simulated()) hb_acquire((const void *)p); }
static void at_rel(const volatile void *p) { if (simulated()) hb_release((const void *)p); }
typedef __int128 i128;
#define SC __ATOMIC_SEQ_CST
#define ATOM(bits, T)                                                          \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *p, int) {              \
    at_before(p, bits / 8, 0, PC); T r = __atomic_load_n(p, SC); at_acq(p); return r; } \
  EXPORT void __tsan_atomic##bits##_store(volatile T *p, T v, int) {           \
    at_before(p, bits / 8, 1, PC); at_rel(p); __atomic_store_n(p, v, SC); }    \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) {           \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); return __atomic_exchange_n(p, v, SC); } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) {          \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); return __atomic_fetch_add(p, v, SC); } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) {          \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); return __atomic_fetch_sub(p, v, SC); } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) {          \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); return __atomic_fetch_and(p, v, SC); } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) {           \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); return __atomic_fetch_or(p, v, SC); } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) {          \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); return __atomic_fetch_xor(p, v, SC); } \
  EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) {         \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); return __atomic_fetch_nand(p, v, SC); } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); return __atomic_compare_exchange_n(p, c, v, false, SC, SC); } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); return __atomic_compare_exchange_n(p, c, v, false, SC, SC); } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int, int) { \
    at_before(p, bits / 8, 1, PC); at_acq(p); at_rel(p); __atomic_compare_exchange_n(p, &c, v, false, SC, SC); return c; }
ATOM(8, char) ATOM(16, short) ATOM(32, int) ATOM(64, long)
static char fence_obj;
EXPORT void __tsan_atomic_thread_fence(int) {
  if (simulated()) { point_sync(); hb_acquire(&fence_obj); hb_release(&fence_obj); }
  __atomic_thread_fence(SC);
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// libc and libstdc++ functions that touch memory on behalf of the core
static inline bool core() { return on && self && core_depth > 0; }
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (n && core()) { access_n(s, n, 0, 0, PC); access_n(d, n, 1, 0, PC); }
  return memcpy(d, s, n);
}
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (n && core()) { access_n(s, n, 0, 0, PC); access_n(d, n, 1, 0, PC); }
  return memmove(d, s, n);
}
EXPORT void *__wrap_memset(void *d, int c, size_t n) {
  if (n && core()) access_n(d, n, 1, 0, PC);
  return memset(d, c, n);
}
EXPORT int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (n && core()) { access_n(a, n, 0, 0, PC); access_n(b, n, 0, 0, PC); }
  return memcmp(a, b, n);
}
struct RbNode { int color; RbNode *parent, *left, *right; };
#define RBI _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
#define RBE _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
#define RBINC _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base
#define RBINCC _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base
#define RBDEC _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base
#define RBDECC _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
extern "C" void RBI(bool, RbNode *, RbNode *, RbNode &);
extern "C" RbNode *RBE(RbNode *, RbNode &);
extern "C" RbNode *RBINC(RbNode *);
extern "C" const RbNode *RBINCC(const RbNode *);
extern "C" RbNode *RBDEC(RbNode *);
extern "C" const RbNode *RBDECC(const RbNode *);
EXPORT void CAT(__wrap_, RBI)(bool l, RbNode *x, RbNode *p, RbNode &h) {
  if (core()) { access_n(p, 32, 1, 0, PC); access_n(&h, 32, 1, 0, PC); access_n(x, 32, 1, 0, PC); }
  RBI(l, x, p, h);
}
EXPORT RbNode *CAT(__wrap_, RBE)(RbNode *z, RbNode &h) {
  if (core()) { access_n(z, 32, 1, 0, PC); access_n(&h, 32, 1, 0, PC); if (z->parent) access_n(z->parent, 32, 1, 0, PC); }
  return RBE(z, h);
}
EXPORT RbNode *CAT(__wrap_, RBINC)(RbNode *x) {
  if (core()) { access_n(x, 32, 0, 0, PC); if (x->right) access_n(x->right, 32, 0, 0, PC); }
  return RBINC(x);
}
EXPORT const RbNode *CAT(__wrap_, RBINCC)(const RbNode *x) {
  if (core()) { access_n(x, 32, 0, 0, PC); if (x->right) access_n(x->right, 32, 0, 0, PC); }
  return RBINCC(x);
}
EXPORT RbNode *CAT(__wrap_, RBDEC)(RbNode *x) {
  if (core()) { access_n(x, 32, 0, 0, PC); if (x->left) access_n(x->left, 32, 0, 0, PC); }
  return RBDEC(x);
}
EXPORT const RbNode *CAT(__wrap_, RBDECC)(const RbNode *x) {
  if (core()) { access_n(x, 32, 0, 0, PC); if (x->left) access_n(x->left, 32, 0, 0, PC); }
  return RBDECC(x);
}

// ------------------------------------------------------------------- allocation
struct Blk { u64 size; u32 magic, flags; }; // header of a window block; flags 1 = core, 2 = freed
static const u32 BMAGIC = 0x51B10C4B;
static u64 live_core, live_core_bytes, live_all, live_all_bytes;
static bool in_heap(const void *p) { return (char *)p >= heap.base && (char *)p < heap_end; }
static bool fault_now(u32 kind, u32 tid, u64 nth, i64 *arg = nullptr) {
  for (u32 i = 0; i < nfaults; i++) {
    Fault &f = faults[i];
    if (f.kind == kind && (f.tid == tid || f.tid == 0xffffffff) && nth >= f.nth && nth < f.nth + f.count) {
      f.fired++;
      if (arg) *arg = f.arg;
      return true;
    }
  }
  return false;
}
static u64 alloc_global, create_global;
enum { SITES = 1 << 22 };
static u32 site[SITES]; // of the allocations counted: the chain of calls
static u64 lay_s;
static inline u64 lay_rnd() { lay_s = lay_s * 6364136223846793005ull + 1442695040888963407ull; return lay_s >> 33; }
enum { BINS = 512 };
static void *bins[BINS];
static struct { char *first, *last; } old[BINS]; // released blocks in order of release; Blk::size links them
static const size_t PLENTY = 96u << 20;          // window memory that is used up before any of them is handed out again
static void fill_mem(char *p, size_t n, u64 salt) {
  if (!cfg.fill) { memset(p, 0xCD, n); return; }
  u64 x = (cfg.fill + salt) * 0x9E3779B97F4A7C15ull;
  switch (cfg.fill & 3) {
  case 0: memset(p, 0, n); break;
  case 1: memset(p, 0xFF, n); break;
  case 2: for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = x >> 56; } break;
  case 3: for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = (x >> 60) == 0; } break;
  }
}
static void *new_impl(size_t n, size_t al, bool nothrow, u64 pc) {
  // once armed, objects made before the window also live in the window heap, so
  // that the order of their addresses does not depend on the process history
  if (!(armed && self) || in_sim) {
    void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    if (p && !in_sim) memset(p, 0, n); // plain runs are repeatable too, and differ from the others where memory is used uninitialised
    return p;
  }
  Thread *me = self;
  bool c = on && core_depth > 0;
  if (c) {
    me->tstep++;
    sh->ctr[C_ALLOC]++;
    u64 k = me->allocs++, gk = alloc_global++;
    if (gk < SITES) site[gk] = chain ^ (pc - ext_lo < own_n && own_map && own_map[pc - ext_lo] == 1 ? (u32)pc - (u32)ext_lo : 0);
    hmix(0xA110C ^ n ^ ((u64)me->id << 40));
    if (nfaults && (fault_now(1, me->id, k) || fault_now(6, 0xffffffff, gk))) {
      sh->ctr[C_AFAIL]++;
      hmix(0xFA11);
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    if (me->tstep >= me->next_stop) slow_point(0);
  }
  if (n > (1ull << 32)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (al < 16) al = 16;
  size_t bin = (n + 15) / 16 + (n == 0);
  char *p;
  if (cfg.reuse && al == 16 && bin < BINS && bins[bin]) {
    p = (char *)bins[bin];
    memcpy(&bins[bin], p, sizeof(void *));
    shadow_range((u64)p, bin * 16, 0, 0);
  } else if (!cfg.reuse && al == 16 && bin < BINS && old[bin].first && (size_t)(heap.cur - heap.base) + (size_t)(heap_end - heap.end) > PLENTY) {
    p = old[bin].first;
    old[bin].first = (char *)((Blk *)p - 1)->size;
    shadow_range((u64)p, bin * 16, 0, 0);
  } else {
    size_t want = sizeof(Blk) + bin * 16 + al + 16;
    char *raw;
    if (cfg.layout) {
      if (!lay_s) lay_s = cfg.layout * 0x9E3779B97F4A7C15ull | 1;
      u64 r = lay_rnd();
      size_t pad = (r & 6) ? (r >> 8 & 15) * 16 : (r >> 8 & 1023) * 16;
      raw = (char *)((cfg.layout & 3) == 1 || ((cfg.layout & 3) && (r & 1)) ? heap.get_top(want + pad) : heap.get(want + pad));
    } else raw = (char *)heap.get(want);
    if (!raw) die(5, 93, "window heap exhausted");
    p = (char *)(((u64)raw + sizeof(Blk) + al - 1) & ~(u64)(al - 1));
  }
  Blk *b = (Blk *)p - 1;
  b->size = n;
  b->magic = BMAGIC;
  b->flags = c ? 1 : 0;
  if (cfg.race) red_zone((u64)p, n, al == 16 ? bin * 16 + 16 : ((n + 7) & ~7ull) + 8);
  fill_mem(p, n, alloc_global);
  if (c) { live_core++; live_core_bytes += n; }
  live_all++;
  live_all_bytes += n;
  return p;
}
static void del_impl(void *p, u64 pc) {
  if (!p) return;
  if (in_heap(p)) {
    Blk *b = (Blk *)p - 1;
    if (b->magic != BMAGIC) { if (simulated()) add_report(3, self->id, 0, 1, 1, pc, 0, (u64)p); return; }
    if (b->flags & 2) { if (simulated()) add_report(3, self->id, 0, 1, 1, pc, 0, (u64)p); return; }
    if (b->flags & 1) { live_core--; live_core_bytes -= b->size; }
    live_all--;
    live_all_bytes -= b->size;
    b->flags |= 2;
    if (simulated() && b->size) {
      Thread *me = self;
      sh->ctr[C_FREED]++;
      if (core_depth > 0) access_n(p, b->size, 1, 0, pc);
      if (cfg.uaf) { memset(p, 0xDD, b->size); shadow_range((u64)p, b->size, 1, pc); }
      (void)me;
    }
    size_t bin = (b->size + 15) / 16 + (b->size == 0);
    if (cfg.reuse && bin < BINS && ((u64)p & 15) == 0) { // blocks with a larger alignment serve as well
      memcpy(p, &bins[bin], sizeof(void *));
      bins[bin] = p;
    } else if (!cfg.reuse && bin < BINS && ((u64)p & 15) == 0) {
      b->size = 0;
      if (old[bin].first) ((Blk *)old[bin].last - 1)->size = (u64)p;
      else old[bin].first = (char *)p;
      old[bin].last = (char *)p;
    }
    return;
  }
  if (on && self) { // allocated before the window: keep, never reuse
    if (core_depth > 0) access_n(p, 1, 1, 0, pc);
    return;
  }
  free(p);
}
#define NEW __attribute__((visibility("default"))) void *operator new
#define NEWA __attribute__((visibility("default"))) void *operator new[]
NEW(size_t n) { return new_impl(n, 16, false, PC); }
NEWA(size_t n) { return new_impl(n, 16, false, PC); }
NEW(size_t n, const std::nothrow_t &) noexcept { return new_impl(n, 16, true, PC); }
NEWA(size_t n, const std::nothrow_t &) noexcept { return new_impl(n, 16, true, PC); }
NEW(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false, PC); }
NEWA(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false, PC); }
NEW(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_impl(n, (size_t)a, true, PC); }
NEWA(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_impl(n, (size_t)a, true, PC); }
#define DEL __attribute__((visibility("default"))) void operator delete
#define DELA __attribute__((visibility("default"))) void operator delete[]
DEL(void *p) noexcept { del_impl(p, PC); }
DELA(void *p) noexcept { del_impl(p, PC); }
DEL(void *p, size_t) noexcept { del_impl(p, PC); }
DELA(void *p, size_t) noexcept { del_impl(p, PC); }
DEL(void *p, const std::nothrow_t &) noexcept { del_impl(p, PC); }
DELA(void *p, const std::nothrow_t &) noexcept { del_impl(p, PC); }
DEL(void *p, std::align_val_t) noexcept { del_impl(p, PC); }
DELA(void *p, std::align_val_t) noexcept { del_impl(p, PC); }
DEL(void *p, size_t, std::align_val_t) noexcept { del_impl(p, PC); }
DELA(void *p, size_t, std::align_val_t) noexcept { del_impl(p, PC); }
DEL(void *p, std::align_val_t, const std::nothrow_t &) noexcept { del_impl(p, PC); }
DELA(void *p, std::align_val_t, const std::nothrow_t &) noexcept { del_impl(p, PC); }

// --------------------------------------------------------------------- threads
static Thread *new_thread() {
  if (nT >= MAXT) die(5, 93, "too many threads");
  Thread *t = (Thread *)meta.get(sizeof(Thread));
  if (!t) die(5, 93, "simulator memory exhausted");
  memset(t, 0, sizeof *t);
  t->id = nT;
  t->state = RUN;
  t->deadline = -1;
  vc_fit(t->vc, nT + 1);
  t->prio = (1ull << 41) + (rnd() % 1000000);
  for (u32 i = 0; i < nfaults; i++)
    if (faults[i].kind == 5 && faults[i].tid == t->id) { t->next_stall = faults[i].nth + 1; t->stall_len = faults[i].arg; }
  if (cfg.policy == POL_REPLAY) {
    u32 a = 0;
    while (a < nrdev && rdev[a].tid < t->id) a++;
    t->rdev_pos = a;
    while (a < nrdev && rdev[a].tid == t->id) a++;
    t->rdev_end = a;
  }
  T[nT++] = t;
  u32 live = 0;
  for (u32 i = 0; i < nT; i++) live += T[i]->state != FINISHED;
  if (live > sh->ctr[C_MAXTHREADS]) sh->ctr[C_MAXTHREADS] = live;
  return t;
}
static void run_dtors(Thread *t) {
  while (t->dtors) { TlsDtor *d = t->dtors; t->dtors = d->next; d->fn(d->obj); }
}
static void finish_thread() {
  Thread *me = self;
  run_dtors(me);
  core_depth = 0;
  me->tstep++;
  vc_join(me->fin, me->vc);
  me->state = FINISHED;
  nfinished++;
  wake_all(W_JOIN, me);
  Thread *n = pick_forced();
  give(n);
  self = nullptr;
}
struct Finisher { ~Finisher() { finish_thread(); } };
static void *trampoline(void *a) {
  Thread *t = (Thread *)a;
  self = t;
  wait_turn(t);
  core_depth = t->depth;
  Finisher f;
  t->ret = t->fn(t->arg);
  return t->ret;
}
static char *stack_pool[MAXT];
static size_t stack_pool_sz[MAXT];
static u32 nstack;
static const size_t STK = 2u << 20;
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  resolve();
  if (!simulated()) return real_pthread_create(pt, attr, fn, arg);
  Thread *me = self;
  sh->ctr[C_CREATE_ATTEMPT]++;
  u64 k = me->creates++, gk = create_global++;
  hmix(0xC3EA7E ^ ((u64)me->id << 40));
  if (fault_now(2, me->id, k) || fault_now(7, 0xffffffff, gk)) { sh->ctr[C_TFAIL]++; hmix(0xFA12); return EAGAIN; }
  hb_release(&fence_obj);
  Thread *t = new_thread();
  t->fn = fn;
  t->depth = core_depth;
  t->arg = arg;
  vc_join(t->vc, me->vc);
  t->vc.c[t->id] = 1;
  me->vc.c[me->id]++;
  size_t want = 0;
  int det = 0;
  if (attr) { pthread_attr_getstacksize(attr, &want); pthread_attr_getdetachstate(attr, &det); }
  t->stacksz = want > STK ? STK * 5 : STK;
  t->stack = nullptr;
  if (nstack && stack_pool_sz[nstack - 1] == t->stacksz) t->stack = stack_pool[--nstack];
  else t->stack = (char *)mmap(0, t->stacksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
  if (t->stack == MAP_FAILED) die(5, 93, "no stack");
  if (cfg.fill) fill_mem(t->stack + t->stacksz - 160 * 1024, 128 * 1024, t->id);
  pthread_attr_t a2;
  pthread_attr_init(&a2);
  pthread_attr_setstack(&a2, t->stack, t->stacksz);
  if (det == PTHREAD_CREATE_DETACHED) t->detached = true;
  int r = real_pthread_create(&t->pt, &a2, trampoline, t);
  pthread_attr_destroy(&a2);
  if (r) die(5, 93, "real pthread_create failed: %d", r);
  *pt = t->pt;
  sh->ctr[C_THREADS]++;
  point_sync();
  return 0;
}
static Thread *by_pt(pthread_t p) {
  for (u32 i = 0; i < nT; i++) if (T[i]->pt == p && !T[i]->joined && T[i]->id) return T[i];
  return nullptr;
}
static void clear_stack_shadow(Thread *t) {
  u64 lo = (u64)t->stack >> 12, hi = ((u64)t->stack + t->stacksz) >> 12;
  for (u64 p = lo; p < hi; p++) {
    u64 h = (p * 0x9E3779B97F4A7C15ull) >> 47;
    for (u32 i = 0; i < PTAB; i++) {
      PEnt *e = &ptab[(h + i) & (PTAB - 1)];
      if (e->page == p) { memset(e->g, 0, 512 * sizeof(Gran)); break; }
      if (!e->page) break;
    }
  }
}
EXPORT int pthread_join(pthread_t p, void **ret) {
  resolve();
  Thread *t = simulated() ? by_pt(p) : nullptr;
  if (!t) return real_pthread_join(p, ret);
  point_sync();
  while (t->state != FINISHED) block(W_JOIN, t);
  vc_join(self->vc, t->fin);
  t->joined = true;
  int r = real_pthread_join(p, ret);
  clear_stack_shadow(t);
  if (nstack < MAXT) { stack_pool[nstack] = t->stack; stack_pool_sz[nstack++] = t->stacksz; }
  point_sync();
  return r;
}
EXPORT int pthread_detach(pthread_t p) {
  resolve();
  if (simulated()) { Thread *t = by_pt(p); if (t) t->detached = true; }
  else return real_pthread_detach(p);
  return 0; // kept joinable: its stack is never reused
}
struct TlsIndex { size_t mod, off; };
// the C library takes the thread-local storage of a new thread from memory of
// finished ones: here every simulated thread has its own, never used before
EXPORT void *__tls_get_addr(TlsIndex *x) {
  static void *(*real)(TlsIndex *);
  Thread *t = self;
  if (tls_mod && x->mod == tls_mod && t && t->id) {
    if (!t->tls) {
      t->tls = (char *)(((u64)meta.get(tls_memsz + 128) + 63) & ~63ull);
      memcpy(t->tls, tls_img, tls_filesz);
    }
    return t->tls + x->off;
  }
  if (!real) real = (void *(*)(TlsIndex *))dlsym(RTLD_NEXT, "__tls_get_addr");
  return real(x);
}
EXPORT int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) {
  resolve();
  if (simulated() && self->id) {
    TlsDtor *d = (TlsDtor *)meta.get(sizeof(TlsDtor));
    *d = {fn, obj, self->dtors};
    self->dtors = d;
    return 0;
  }
  return real_thread_atexit(fn, obj, dso);
}

// ----------------------------------------------------------------------- mutexes
static i64 to_mono(const struct timespec *ts, int clk) {
  i64 v = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (clk == CLOCK_REALTIME || v > WALL_BASE / 2) v = v - WALL_BASE - wall_off + MONO_BASE;
  return v < 0 ? 0 : v;
}
static int lock_impl(pthread_mutex_t *m, i64 deadline) {
  point_sync();
  for (;;) {
    int r = real_pthread_mutex_trylock(m);
    if (r != EBUSY) { if (!r) hb_acquire(m); return r; }
    block(W_MUTEX, m, deadline);
    if (self->timedout && !self->woken) { return ETIMEDOUT; }
  }
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) { resolve(); return simulated() ? lock_impl(m, -1) : real_pthread_mutex_lock(m); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  resolve();
  if (!simulated()) return real_pthread_mutex_trylock(m);
  point_sync();
  int r = real_pthread_mutex_trylock(m);
  if (!r) hb_acquire(m);
  return r;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  resolve();
  return simulated() ? lock_impl(m, to_mono(ts, CLOCK_REALTIME)) : real_pthread_mutex_timedlock(m, ts);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
  resolve();
  return simulated() ? lock_impl(m, to_mono(ts, c)) : real_pthread_mutex_clocklock(m, c, ts);
}
static int unlock_impl(pthread_mutex_t *m) {
  hb_release(m);
  int r = real_pthread_mutex_unlock(m);
  wake_all(W_MUTEX, m);
  return r;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  resolve();
  if (!simulated()) return real_pthread_mutex_unlock(m);
  int r = unlock_impl(m);
  point_sync();
  return r;
}
static int cond_impl(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline) {
  point_sync();
  unlock_impl(m);
  block(W_COND, c, deadline);
  bool to = self->timedout && !self->woken;
  for (;;) {
    int r = real_pthread_mutex_trylock(m);
    if (r != EBUSY) { if (!r) hb_acquire(m); break; }
    block(W_MUTEX, m);
  }
  hb_acquire(c);
  return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { resolve(); return simulated() ? cond_impl(c, m, -1) : real_pthread_cond_wait(c, m); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  resolve();
  return simulated() ? cond_impl(c, m, to_mono(ts, CLOCK_MONOTONIC)) : real_pthread_cond_timedwait(c, m, ts);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  resolve();
  return simulated() ? cond_impl(c, m, to_mono(ts, k)) : real_pthread_cond_clockwait(c, m, k, ts);
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
  resolve();
  if (!simulated()) return real_pthread_cond_signal(c);
  hb_release(c);
  wake_one(W_COND, c);
  point_sync();
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
  resolve();
  if (!simulated()) return real_pthread_cond_broadcast(c);
  hb_release(c);
  wake_all(W_COND, c);
  point_sync();
  return 0;
}
static int rw_impl(pthread_rwlock_t *l, bool w) {
  point_sync();
  for (;;) {
    int r = w ? real_pthread_rwlock_trywrlock(l) : real_pthread_rwlock_tryrdlock(l);
    if (r != EBUSY) { if (!r) hb_acquire(l); return r; }
    block(W_RW, l);
  }
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) { resolve(); return simulated() ? rw_impl(l, false) : real_pthread_rwlock_rdlock(l); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) { resolve(); return simulated() ? rw_impl(l, true) : real_pthread_rwlock_wrlock(l); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  resolve();
  int r = real_pthread_rwlock_tryrdlock(l);
  if (simulated()) { if (!r) hb_acquire(l); point_sync(); }
  return r;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  resolve();
  int r = real_pthread_rwlock_trywrlock(l);
  if (simulated()) { if (!r) hb_acquire(l); point_sync(); }
  return r;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  resolve();
  if (!simulated()) return real_pthread_rwlock_unlock(l);
  hb_release(l);
  int r = real_pthread_rwlock_unlock(l);
  wake_all(W_RW, l);
  point_sync();
  return r;
}
static int sem_impl(sem_t *s, i64 deadline) {
  point_sync();
  for (;;) {
    if (real_sem_trywait(s) == 0) { hb_acquire(s); return 0; }
    if (errno != EAGAIN) return -1;
    block(W_SEM, s, deadline);
    if (self->timedout && !self->woken) { errno = ETIMEDOUT; return -1; }
  }
}
EXPORT int sem_wait(sem_t *s) { resolve(); return simulated() ? sem_impl(s, -1) : real_sem_wait(s); }
EXPORT int sem_trywait(sem_t *s) {
  resolve();
  if (!simulated()) return real_sem_trywait(s);
  point_sync();
  int r = real_sem_trywait(s);
  if (!r) hb_acquire(s);
  return r;
}
EXPORT int sem_timedwait(sem_t *s, const struct timespec *ts) { resolve(); return simulated() ? sem_impl(s, to_mono(ts, CLOCK_REALTIME)) : real_sem_timedwait(s, ts); }
EXPORT int sem_clockwait(sem_t *s, clockid_t c, const struct timespec *ts) { resolve(); return simulated() ? sem_impl(s, to_mono(ts, c)) : real_sem_clockwait(s, c, ts); }
EXPORT int sem_post(sem_t *s) {
  resolve();
  if (!simulated()) return real_sem_post(s);
  hb_release(s);
  int r = real_sem_post(s);
  wake_one(W_SEM, s);
  point_sync();
  return r;
}
EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  resolve();
  if (!simulated()) return real_pthread_once(o, fn);
  point_sync();
  volatile int *v = (volatile int *)o;
  for (;;) {
    if (*v == 2) { hb_acquire(o); return 0; }
    if (*v == 0) break;
    block(W_ONCE, o);
  }
  *v = 1;
  struct Reset {
    volatile int *v;
    const void *o;
    bool ok = false;
    ~Reset() { hb_release(o); *v = ok ? 2 : 0; wake_all(W_ONCE, o); }
  } r{v, o};
  fn();
  r.ok = true;
  return 0;
}
EXPORT int __cxa_guard_acquire(void *g) {
  resolve();
  if (!simulated()) return real_guard_acquire(g);
  volatile u8 *b = (volatile u8 *)g;
  point_sync();
  for (;;) {
    if (b[0]) { hb_acquire(g); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    block(W_GUARD, g);
  }
}
EXPORT void __cxa_guard_release(void *g) {
  resolve();
  if (!simulated()) { real_guard_release(g); return; }
  volatile u8 *b = (volatile u8 *)g;
  hb_release(g);
  b[1] = 0;
  b[0] = 1;
  wake_all(W_GUARD, g);
  point_sync();
}
EXPORT void __cxa_guard_abort(void *g) {
  resolve();
  if (!simulated()) { real_guard_abort(g); return; }
  volatile u8 *b = (volatile u8 *)g;
  hb_release(g);
  b[1] = 0;
  wake_all(W_GUARD, g);
  point_sync();
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && simulated()) {
    int op = (int)b & FUTEX_CMD_MASK;
    volatile u32 *p = (volatile u32 *)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point_sync();
      if (*p != (u32)c) { errno = EAGAIN; return -1; }
      i64 dl = -1;
      const struct timespec *ts = (const struct timespec *)d;
      if (ts) {
        if (op == FUTEX_WAIT) dl = sim_now() + ts->tv_sec * 1000000000ll + ts->tv_nsec;
        else dl = to_mono(ts, (b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC);
      }
      block(W_FUTEX, (void *)p, dl);
      if (self->timedout && !self->woken) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long k = 0;
      while (k < c && wake_one(W_FUTEX, (void *)p)) k++;
      point_sync();
      return k;
    }
  }
  long r = rawsys(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ------------------------------------------------------------------------ clocks
static i64 read_clock() {
  now_extra += cfg.tick_ns;
  u64 k = clock_reads++;
  sh->ctr[C_CLOCK]++;
  for (u32 i = 0; i < nfaults; i++)
    if (faults[i].kind == 3 && faults[i].nth == k) { wall_off += faults[i].arg; faults[i].fired++; sh->ctr[C_JUMP]++; hmix(0x1A3B ^ k); }
  return sim_now();
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) __THROW {
  resolve();
  if (!simulated()) return real_clock_gettime(c, ts);
  i64 v = read_clock();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v = v - MONO_BASE + WALL_BASE + wall_off;
  else if (c == CLOCK_PROCESS_CPUTIME_ID) v = sim_cpu();
  else if (c == CLOCK_THREAD_CPUTIME_ID) v = (i64)(self->tstep * cfg.step_ns);
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  hmix(0xC10C ^ (u64)v);
  if (self->tstep >= self->next_stop) slow_point(0);
  return 0;
}
EXPORT clock_t clock() __THROW {
  resolve();
  if (!simulated()) return real_clock();
  read_clock();
  return (clock_t)(sim_cpu() / 1000);
}
EXPORT int timespec_get(struct timespec *ts, int base) __THROW {
  resolve();
  if (!simulated() || base != TIME_UTC) return real_timespec_get(ts, base);
  return clock_gettime(CLOCK_REALTIME, ts) ? 0 : base;
}
// randomness and identities that differ from one process to the next
static u64 rand_s = 12345;
static u64 rand_next() {
  u64 z = (rand_s += 0x9E3779B97F4A7C15ull) ^ (cfg.seed << 17);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void rand_fill(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = (u8)(rand_next() >> 24); }
EXPORT ssize_t getrandom(void *p, size_t n, unsigned fl) { resolve(); if (!simulated()) return real_getrandom(p, n, fl); rand_fill(p, n); return n; }
EXPORT int getentropy(void *p, size_t n) { resolve(); if (!simulated()) return real_getentropy(p, n); rand_fill(p, n); return 0; }
EXPORT int rand() __THROW { resolve(); if (!simulated()) return real_rand(); return (int)(rand_next() >> 33); }
EXPORT long random() __THROW { resolve(); if (!simulated()) return real_random(); return (long)(rand_next() >> 33); }
EXPORT pid_t gettid() __THROW { resolve(); if (!simulated()) return real_gettid(); return 100000 + self->id; }
EXPORT int sched_getcpu() __THROW { resolve(); if (!simulated()) return real_sched_getcpu(); return self->id % (cfg.nproc ? cfg.nproc : 1); }
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void *d) {
  resolve();
  if (!simulated()) return real_rd_getval(d);
  return (unsigned)(rand_next() >> 32);
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) __THROW {
  resolve();
  if (!simulated()) return real_gettimeofday(tv, tz);
  i64 v = read_clock() - MONO_BASE + WALL_BASE + wall_off;
  tv->tv_sec = v / 1000000000ll;
  tv->tv_usec = v % 1000000000ll / 1000;
  return 0;
}
EXPORT time_t time(time_t *t) __THROW {
  resolve();
  if (!simulated()) return real_time(t);
  time_t v = (read_clock() - MONO_BASE + WALL_BASE + wall_off) / 1000000000ll;
  if (t) *t = v;
  return v;
}
static void sim_sleep(i64 ns) {
  if (ns <= 0) { point_sync(); return; }
  block(W_SLEEP, nullptr, sim_now() + ns);
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) { resolve(); if (!simulated()) return real_nanosleep(a, b); sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  resolve();
  if (!simulated()) return real_clock_nanosleep(c, fl, a, b);
  if (fl & TIMER_ABSTIME) sim_sleep(to_mono(a, c) - sim_now());
  else sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec);
  return 0;
}
EXPORT int usleep(useconds_t u) { resolve(); if (!simulated()) return real_usleep(u); sim_sleep(u * 1000ll); return 0; }
EXPORT unsigned sleep(unsigned s) { resolve(); if (!simulated()) return real_sleep(s); sim_sleep(s * 1000000000ll); return 0; }
EXPORT int sched_yield() __THROW {
  resolve();
  if (!simulated()) return real_sched_yield();
  Thread *me = self;
  me->tstep++;
  sh->ctr[C_YIELD]++;
  expire();
  for (u32 k = 1; k < nT; k++) {
    Thread *t = T[(me->id + k) % nT];
    if (eligible(t)) { give(t); wait_turn(me); return 0; }
  }
  cap_check();
  // nothing else can run: time passes
  now_extra += 1000000;
  return 0;
}
EXPORT long sysconf(int n) __THROW {
  resolve();
  if (simulated() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) { sh->ctr[C_NPROC]++; return cfg.nproc; }
  return real_sysconf(n);
}
// variables of the process, as the library sees them: seeded contents for whatever name it asks for
static const char *const ENVVALS[] = {nullptr, "", "0", "1", "2", "8", "64", "-1", "true", "off", "yes", "full", "C", "/tmp"};
static u64 boot_env() {
  static u64 v = ~0ull;
  if (v == ~0ull) {
    v = 0;
    for (char **e = environ; e && *e; e++)
      if (!strncmp(*e, "SIM_BOOTENV=", 12)) v = strtoull(*e + 12, nullptr, 10);
  }
  return v;
}
static bool from_library(u64 pc) {
  if (ext_hi) return pc >= ext_lo && pc < ext_hi;
  Dl_info d;
  return dladdr((void *)pc, &d) && d.dli_fname && strstr(d.dli_fname, "_wicked");
}
static bool env_value(const char *name, u64 pc, char **out) {
  u64 s = simulated() ? cfg.env : boot_env();
  if (!s || !name || !from_library(pc)) return false;
  u64 h = s * 0x9E3779B97F4A7C15ull;
  for (const char *c = name; *c; c++) h = (h ^ (u8)*c) * 0x100000001B3ull;
  *out = (char *)ENVVALS[(h >> 33) % (sizeof ENVVALS / sizeof *ENVVALS)];
  return true;
}
EXPORT char *getenv(const char *name) __THROW { char *v; resolve(); return env_value(name, PC, &v) ? v : real_getenv(name); }
EXPORT char *secure_getenv(const char *name) __THROW { char *v; resolve(); return env_value(name, PC, &v) ? v : real_secure_getenv(name); }
EXPORT int isatty(int fd) __THROW {
  resolve();
  u64 s = simulated() ? cfg.env : boot_env();
  if (!s || !from_library(PC)) return real_isatty(fd);
  return (s * 0x9E3779B97F4A7C15ull >> (40 + (fd & 3))) & 1;
}
EXPORT int get_nprocs() __THROW { resolve(); if (simulated()) { sh->ctr[C_NPROC]++; return cfg.nproc; } return real_get_nprocs(); }

// ------------------------------------------------------------------------ output
static bool out_fault() {
  if (!simulated()) return false;
  u64 k = out_writes++;
  sh->ctr[C_OUT]++;
  i64 arg = 0;
  if (!fault_now(4, 0xffffffff, k, &arg)) return false;
  sh->ctr[C_OUTFAIL]++;
  hmix(0x0FA11 ^ k);
  errno = (int)arg;
  return true;
}
static bool std_stream(FILE *f) { return f == stdout || f == stderr; }
EXPORT size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
  resolve();
  if (on && self && std_stream(f)) {
    point_sync();
    sh->ctr[C_OUTBYTES] += s * n;
    if (out_fault()) return s * n > 1 && errno == ENOSPC ? n / 2 : 0;
  }
  return real_fwrite(p, s, n, f);
}
EXPORT int putc(int c, FILE *f) { resolve(); if (on && self && std_stream(f)) { point_sync(); sh->ctr[C_OUTBYTES]++; if (out_fault()) return EOF; } return real_putc(c, f); }
EXPORT int fputc(int c, FILE *f) { resolve(); if (on && self && std_stream(f)) { point_sync(); sh->ctr[C_OUTBYTES]++; if (out_fault()) return EOF; } return real_fputc(c, f); }
EXPORT int fflush(FILE *f) { resolve(); if (on && self && f && std_stream(f)) { point_sync(); if (out_fault()) return EOF; } return real_fflush(f); }

static bool out_call(FILE *f, u64 n) { // true: the call is to fail
  if (!(on && self && std_stream(f))) return false;
  point_sync();
  sh->ctr[C_OUTBYTES] += n;
  return out_fault();
}
EXPORT int fputs(const char *p, FILE *f) { return fwrite(p, 1, strlen(p), f) == strlen(p) ? 1 : EOF; }
EXPORT int puts(const char *p) { return fputs(p, stdout) == EOF || fputc('\n', stdout) == EOF ? EOF : 1; }
EXPORT int putchar(int c) { return fputc(c, stdout); }
EXPORT int vfprintf(FILE *f, const char *fmt, va_list ap) {
  char *b = nullptr;
  int n = vasprintf(&b, fmt, ap);
  if (n < 0) return n;
  bool ok = fwrite(b, 1, n, f) == (size_t)n;
  free(b);
  return ok ? n : -1;
}
EXPORT int vprintf(const char *fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
EXPORT int printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfprintf(stdout, fmt, ap); va_end(ap); return n; }
EXPORT int fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfprintf(f, fmt, ap); va_end(ap); return n; }
EXPORT int __printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfprintf(stdout, fmt, ap); va_end(ap); return n; }
EXPORT int __fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfprintf(f, fmt, ap); va_end(ap); return n; }
EXPORT ssize_t write(int fd, const void *p, size_t n) {
  FILE *f = fd == 1 ? stdout : fd == 2 ? stderr : nullptr;
  if (f && out_call(f, n)) return n > 1 && errno == ENOSPC ? (ssize_t)(n / 2) : -1;
  resolve(); return real_write(fd, p, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) {
  FILE *f = fd == 1 ? stdout : fd == 2 ? stderr : nullptr;
  if (f && out_call(f, 1)) return -1;
  resolve(); return real_writev(fd, v, n);
}

// ----------------------------------------------------------------- control (ctypes)
EXPORT void *sim_init() { // once per process: reserve the memory
  resolve();
  stdio_obj[0] = (u64)dlsym(RTLD_DEFAULT, "_ZSt4cout");
  stdio_obj[1] = (u64)dlsym(RTLD_DEFAULT, "_ZSt4cerr");
  stdio_obj[2] = (u64)dlsym(RTLD_DEFAULT, "_ZSt4clog");
  meta.init(48ull << 30);
  heap.init(64ull << 30);
  heap_end = heap.end;
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rdev = (Dev *)meta.get(sizeof(Dev) * MAXRDEV);
  synctab = (SyncObj *)meta.get(sizeof(SyncObj) * SYNCTAB);
  ptab = (PEnt *)meta.get(sizeof(PEnt) * PTAB);
  return sh;
}
EXPORT int sim_load_funcs(const char *path) {
  nign = 0;
  dl_iterate_phdr(phdr_cb, nullptr);
  if (!ext_hi) return -1;
  FILE *f = fopen(path, "r");
  if (!f) return -2;
  own_n = ext_hi - ext_lo;
  u8 *m = (u8 *)mmap(0, own_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  unsigned long a, n;
  int k = 0, w;
  while (fscanf(f, "%lu %lu %d", &a, &n, &w) == 3)
    if (a + n <= own_n) { memset(m + a, w, n); k++; }
  fclose(f);
  own_map = m;
  return k;
}
EXPORT void sim_reset_shared() {
  memset(sh, 0, offsetof(Shared, dev));
}
EXPORT int sim_set(const char *k, u64 v) {
#define S(n) if (!strcmp(k, #n)) { cfg.n = v; return 0; }
  S(seed) S(policy) S(gap) S(prob) S(pct_depth) S(pct_range) S(maxslice) S(step_cap) S(step_ns) S(tick_ns)
  S(nproc) S(race) S(uaf) S(timeouts) S(rndwake) S(fill) S(layout) S(reuse) S(env)
#undef S
  return -1;
}
EXPORT int sim_fault(u32 kind, u32 tid, u64 nth, u64 count, i64 arg) {
  if (nfaults >= MAXFAULT) return -1;
  faults[nfaults++] = {kind, tid, nth, count, arg, 0};
  return nfaults - 1;
}
EXPORT void sim_clear_faults() { nfaults = 0; }
EXPORT u64 sim_fault_fired(u32 i) { return i < nfaults ? faults[i].fired : 0; }
EXPORT int sim_dev(u32 tid, u32 tstep, u32 kind, u32 target) { // must be sorted by (tid, tstep)
  if (nrdev >= MAXRDEV) return -1;
  rdev[nrdev++] = {tid, tstep, kind, target};
  return 0;
}
EXPORT void sim_arm() {
  if (armed) return;
  main_sp = (u64)__builtin_frame_address(0);
  nign = 0;
  dl_iterate_phdr(phdr_cb, nullptr);
  nT = 0;
  Thread *t = new_thread();
  t->pt = pthread_self();
  t->vc.c[0] = 1;
  cur = t;
  self = t;
  sh->status = 1;
  sh->hash = 1469598103934665603ull;
  sh->shash = 1469598103934665603ull;
  armed = 1;
}
static __attribute__((noinline)) void fill_stack() {
  char a[256 * 1024];
  fill_mem(a, sizeof a, 0);
  __asm__ volatile("" : : "r"(a) : "memory");
}
EXPORT void sim_begin() {
  if (on) return;
  if (cfg.fill) fill_stack();
  sim_arm();
  Thread *t = cur;
  t->tstep = 0; // the faults and the settings are known now
  t->next_stall = 0;
  for (u32 i = 0; i < nfaults; i++)
    if (faults[i].kind == 5 && faults[i].tid == 0) { t->next_stall = faults[i].nth + 1; t->stall_len = faults[i].arg; }
  if (cfg.policy == POL_REPLAY) {
    u32 a = 0;
    t->rdev_pos = 0;
    while (a < nrdev && rdev[a].tid == 0) a++;
    t->rdev_end = a;
  }
  rng_s = cfg.seed * 0x9E3779B97F4A7C15ull + 77;
  t->prio = (1ull << 41) + (rnd() % 1000000);
  core_depth = 0;
  enter_slice(t);
  on = 1;
}
EXPORT void sim_stats() {
  sh->steps = total_steps();
  sh->now_ns = sim_now() - MONO_BASE;
  sh->ctr[C_LIVE_BLOCKS] = live_core;
  sh->ctr[C_LIVE_BYTES] = live_core_bytes;
  sh->ctr[C_HEAPUSED] = heap.cur - heap.base;
}
// Let every other thread run until it finishes or blocks; returns the number of
// threads that still exist (all of them idle).
EXPORT int sim_drain() {
  if (!simulated()) return -1;
  u32 alive = 0;
  bool others = false;
  for (u32 i = 0; i < nT; i++) if (T[i] != self && T[i]->state != FINISHED) others = true;
  if (others) block(W_DRAIN, nullptr);
  for (u32 i = 0; i < nT; i++) if (T[i] != self && T[i]->state != FINISHED) alive++;
  return alive;
}
// a line of the library's Python code counts as a step of its thread
EXPORT void sim_tick(u32 n) {
  if (!simulated()) return;
  self->tstep += n;
  point_sync();
  expire();
}
EXPORT u64 sim_now_ns() { return sim_now() - MONO_BASE; }
EXPORT u64 sim_steps() { return total_steps(); }
EXPORT u64 sim_thread_allocs(u32 t) { return t < nT ? T[t]->allocs : 0; }
EXPORT u64 sim_thread_steps(u32 t) { return t < nT ? T[t]->tstep : 0; }
EXPORT u64 sim_thread_creates(u32 t) { return t < nT ? T[t]->creates : 0; }
EXPORT u32 sim_tid() { return self ? self->id : 0; }
EXPORT u32 sim_nthreads() { return nT; }
EXPORT u64 sim_live_blocks() { return live_core; }
EXPORT u64 sim_live_bytes() { return live_core_bytes; }
EXPORT u64 sim_live_all(u32 bytes) { return bytes ? live_all_bytes : live_all; } // with those of the binding layer
EXPORT u64 sim_allocs() { return alloc_global; }
// the distinct places that asked for the allocations a..b: [first, last] of each
EXPORT u32 sim_sites(u64 a, u64 b, u32 *out, u32 max) {
  static u32 key[1 << 14], pos[1 << 14];
  u32 n = 0;
  memset(pos, 0, sizeof pos);
  if (b > SITES) b = SITES;
  for (u64 i = a; i < b; i++) {
    u32 h = (site[i] * 0x9E3779B1u) >> 18;
    while (pos[h] && key[h] != site[i]) h = (h + 1) & 16383;
    if (!pos[h]) {
      if (n >= max || n >= 8192) continue;
      key[h] = site[i];
      pos[h] = ++n;
      out[2 * (n - 1)] = i - a;
    }
    out[2 * (pos[h] - 1) + 1] = i - a;
  }
  return n;
}
EXPORT u64 sim_creates() { return create_global; }
EXPORT u64 sim_ctr(u32 i) { return sh->ctr[i]; }
EXPORT u64 sim_out_writes() { return out_writes; }
static bool paused;
EXPORT void sim_end() {
  if (!on && !paused) return;
  sim_stats();
  on = 0;
  sh->status = 2;
}
EXPORT void sim_pause() { paused = on; on = 0; } // main thread only, everything else parked
EXPORT void sim_resume() { on = 1; paused = false; }
EXPORT void sim_live_dump(int fd) { // list live core blocks (debug)
  char *p = heap.base;
  (void)p; (void)fd;
}
