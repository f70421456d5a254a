// Deterministic simulation runtime.
//
// Linked into the harness executable. The Rust code (forust, rayon, rayon-core, crossbeam, serde,
// ... everything except the precompiled std) is compiled with -Zsanitizer=thread, and THIS file
// supplies the __tsan_* entry points in place of the ThreadSanitizer runtime: every atomic
// operation and every plain memory access becomes a scheduling point. Threads are real OS threads,
// but exactly one of them runs at a time: whoever holds the baton. A seeded PRNG decides at every
// scheduling point whether the baton moves and to whom. Blocking (futex), thread creation, join,
// sleeping, yielding, clocks and entropy are all interposed, so one seed is one execution.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "sim_rt.h"

#define MAXT 400

static inline long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

// ---------------------------------------------------------------- state
enum { T_UNUSED = 0, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DEAD };

struct thr {
  int state;
  _Atomic int sem;
  uintptr_t faddr;
  uint32_t bitset;
  int64_t deadline;  // virtual ns, -1 none
  int timedout;
  int join_target;
  uint64_t prio;
  uint64_t stall_until;  // scheduling steps
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
};

static int sim_on = 0;
static int quiet = 0;
static __thread int my_id = -1;
static struct thr T[MAXT];
static int nthr = 0;
static struct sim_cfg C;
static struct sim_shared *S;
static pthread_key_t exit_key;
static int exit_key_ok = 0;

static uint64_t acount, anext = ~0ull;  // atomic / sync scheduling points
static uint64_t mcount, mnext = ~0ull;  // plain memory access scheduling points
static uint64_t since_switch;
static int64_t vclock = 1000000000000ll;
static void *volatile heap_pad;
static uint64_t rs_sched, rs_ent, rs_fault;  // PRNG streams
// Replay: recorded events, one cursor per kind (0 atomic preemption, 1 plain-access preemption,
// 2 forced choice, 3 futex wake choice, 4 spurious wake-up)
static uint64_t rcur[5];
static uint64_t nwake, nwait;
static struct sim_ev *rep_peek(uint32_t kind) {
  while (rcur[kind] < S->rep_n && S->rep[rcur[kind]].kind != kind) rcur[kind]++;
  return rcur[kind] < S->rep_n ? &S->rep[rcur[kind]] : NULL;
}
// the event of `kind` recorded for exactly moment `at`, dropping those whose moment has passed
static struct sim_ev *rep_take(uint32_t kind, uint64_t at) {
  struct sim_ev *e;
  while ((e = rep_peek(kind)) && e->at < at) rcur[kind]++;
  if (e && e->at == at) { rcur[kind]++; return e; }
  return NULL;
}

static uint64_t sm64(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t rnd(uint64_t *s, uint64_t n) { return n ? sm64(s) % n : 0; }
static uint64_t geo(uint64_t *s, uint64_t mean) {
  if (mean <= 1) return 1;
  // roughly geometric with the given mean: uniform over [1, 2*mean)
  return 1 + rnd(s, 2 * mean - 1);
}
static void hash_in(uint64_t v) {
  uint64_t h = S->trace_hash;
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 29;
  S->trace_hash = h;
}
void sim_note(uint64_t v) {
  if (sim_on) hash_in(v);
}

static void die(int code, const char *msg) {
  if (S) {
    S->outcome = code;
    if (!S->msg[0]) {
      strncpy(S->msg, msg, sizeof(S->msg) - 1);
      S->msg[sizeof(S->msg) - 1] = 0;
    }
    S->steps_a = acount;
    S->steps_m = mcount;
    S->vtime = vclock - 1000000000000ll;
  }
  raw_syscall6(SYS_exit_group, 90 + code, 0, 0, 0, 0, 0);
}

// ---------------------------------------------------------------- baton
static void park(int id) {
  while (!atomic_load(&T[id].sem)) raw_syscall6(SYS_futex, (long)&T[id].sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  atomic_store(&T[id].sem, 0);
}
static void unpark(int id) {
  atomic_store(&T[id].sem, 1);
  raw_syscall6(SYS_futex, (long)&T[id].sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void draw_next(void) {
  if (C.mode == SIM_REPLAY) {
    // next recorded preemption decides both counters
    struct sim_ev *e;
    while ((e = rep_peek(0)) && e->at <= acount) rcur[0]++;
    anext = e ? e->at : ~0ull;
    while ((e = rep_peek(1)) && e->at <= mcount) rcur[1]++;
    mnext = e ? e->at : ~0ull;
    if (C.max_mem && mnext > C.max_mem + 1) mnext = C.max_mem + 1;
    return;
  }
  anext = C.gap_atomic ? acount + geo(&rs_sched, C.gap_atomic) : ~0ull;
  mnext = C.gap_mem ? mcount + geo(&rs_sched, C.gap_mem) : ~0ull;
  if (C.max_mem && mnext > C.max_mem + 1) mnext = C.max_mem + 1;
}

static void expire(void) {
  for (int i = 0; i < nthr; i++)
    if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline >= 0 && T[i].deadline <= vclock) {
      T[i].state = T_RUN;
      T[i].timedout = 1;
      T[i].deadline = -1;
    }
}

// Pick a runnable thread other than `self` if `avoid_self`, or any. Returns -1 if none.
static int pick(int self, int avoid_self) {
  int cand[MAXT], n = 0, m = 0, un[MAXT];
  for (int i = 0; i < nthr; i++)
    if (T[i].state == T_RUN && !(avoid_self && i == self)) cand[n++] = i;
  if (!n) return -1;
  // stalled threads are only eligible if nobody else is
  for (int i = 0; i < n; i++)
    if (T[cand[i]].stall_until <= acount) un[m++] = cand[i];
  int *a = m ? un : cand;
  int k = m ? m : n;
  if (C.mode == SIM_PCT) {
    int best = a[0];
    for (int i = 1; i < k; i++)
      if (T[a[i]].prio > T[best].prio) best = a[i];
    return best;
  }
  return a[rnd(&rs_sched, k)];
}

static void record(int kind, uint64_t at, int to) {
  if (kind <= 2) S->switches++;
  hash_in(((uint64_t)kind << 60) ^ (at << 8) ^ (uint64_t)to);
  if (S->rec_n < SIM_MAXEV) {
    S->rec[S->rec_n].kind = kind;
    S->rec[S->rec_n].tid = to;
    S->rec[S->rec_n].at = at;
    S->rec_n++;
  } else
    S->rec_overflow = 1;
}

static void give(int self, int to) {
  since_switch = 0;
  if (to == self) return;
  int dead = T[self].state == T_DEAD;
  unpark(to);
  if (!dead) park(self);
}

// kind: 0 preemption at an atomic point, 1 at a plain access, 2 forced (blocked / yielded / dead)
static void reschedule(int kind) {
  int self = my_id;
  quiet = 0;
  if (acount > C.max_steps) die(SIM_OUT_HANG, "no progress: scheduling step budget exhausted");
  if (C.max_mem && mcount > C.max_mem) die(SIM_OUT_HANG, "no progress: memory access budget exhausted");
  int to = -1;
  if (kind == 2) {
    int must = T[self].state != T_RUN;  // self cannot continue
    expire();
    if (C.mode == SIM_REPLAY) {
      S->forced++;
      struct sim_ev *e = rep_take(2, S->forced);
      if (e && (int)e->tid < nthr && T[e->tid].state == T_RUN) to = e->tid;
      if (to < 0) {
        for (int d = 1; d <= nthr; d++) {
          int t = (self + d) % nthr;
          if (T[t].state == T_RUN) { to = t; break; }
        }
      }
    } else {
      S->forced++;
      if (C.mode == SIM_PCT && !must) T[self].prio = rnd(&rs_sched, 1000);  // a yield lowers the priority
      to = pick(self, !must);
      if (to < 0 && !must) to = self;
    }
    while (to < 0) {
      // nobody runnable: jump the virtual clock to the next deadline
      int64_t best = -1;
      for (int i = 0; i < nthr; i++)
        if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline >= 0 && (best < 0 || T[i].deadline < best))
          best = T[i].deadline;
      if (best < 0) die(SIM_OUT_DEADLOCK, "deadlock: every simulated thread is blocked");
      if (best > vclock) vclock = best;
      S->timer_jumps++;
      expire();
      to = pick(self, 0);
    }
    record(2, S->forced, to);
    draw_next();
    give(self, to);
    return;
  }
  // voluntary preemption
  uint64_t at = kind == 0 ? acount : mcount;
  if (C.mode == SIM_REPLAY) {
    struct sim_ev *e = rep_take(kind, at);
    if (e && (int)e->tid < nthr && T[e->tid].state == T_RUN) to = e->tid;
    if (to < 0) to = self;
  } else {
    // the stall fault: park this thread for a long stretch of scheduling points
    if (C.stall_prob && rnd(&rs_fault, 1000000) < C.stall_prob) {
      T[self].stall_until = acount + C.stall_len;
      S->fault_stall++;
    }
    if (C.mode == SIM_PCT) T[self].prio = rnd(&rs_sched, 1000);
    to = pick(self, 0);
    if (to < 0) to = self;
  }
  if (to != self) {
    S->preemptions++;
    record(kind, at, to);
  }
  draw_next();
  give(self, to);
}

static inline int active(void) { return __builtin_expect(sim_on, 0) && my_id >= 0; }

static inline void point_a(void) {
  if (!active() || quiet) return;
  vclock += 20;
  if (__builtin_expect(++acount < anext && ++since_switch < 200000, 1)) return;
  if (acount < anext) { // starvation guard: one thread has been running alone for very long
    int self = my_id;
    since_switch = 0;
    if (C.mode == SIM_REPLAY) { if (acount > C.max_steps) die(SIM_OUT_HANG, "no progress: scheduling step budget exhausted"); return; }
    (void)self;
    anext = acount;
  }
  reschedule(0);
}
static inline void point_m(void) {
  if (!active() || quiet) return;
  if (__builtin_expect(++mcount < mnext, 1)) return;
  reschedule(1);
}
void sim_point(void) { point_a(); }

// ---------------------------------------------------------------- lifecycle
static void exit_dtor(void *v) {
  uintptr_t n = (uintptr_t)v;
  if (n > 1) {  // run in the last destructor round, after every other TLS destructor
    pthread_setspecific(exit_key, (void *)(n - 1));
    return;
  }
  if (!active()) return;
  int id = my_id;
  T[id].state = T_DEAD;
  for (int i = 0; i < nthr; i++)
    if (T[i].state == T_JOIN && T[i].join_target == id) T[i].state = T_RUN;
  reschedule(2);
  my_id = -1;
}

int sim_start(const struct sim_cfg *cfg, struct sim_shared *sh) {
  C = *cfg;
  S = sh;
  memset(T, 0, sizeof T);
  rs_sched = C.seed * 0x9E3779B97F4A7C15ull + 1;
  rs_ent = C.entropy_seed * 0xD1B54A32D192ED03ull + 7;
  // heap addresses are ambient too: shift them as the seed says (randomisation by the kernel is off)
  heap_pad = malloc(16 + (C.entropy_seed * 0xA0761D6478BD642Full >> 47));
  rs_fault = C.seed * 0x2545F4914F6CDD1Dull + 99;
  if (!exit_key_ok) {
    pthread_key_create(&exit_key, exit_dtor);
    exit_key_ok = 1;
  }
  nthr = 1;
  my_id = 0;
  T[0].state = T_RUN;
  T[0].deadline = -1;
  T[0].prio = rnd(&rs_sched, 1000);
  acount = mcount = since_switch = 0;
  memset(rcur, 0, sizeof rcur);
  nwake = nwait = 0;
  vclock = 1000000000000ll + C.clock_start;
  S->trace_hash = 0xcbf29ce484222325ull;
  draw_next();
  sim_on = 1;
  return 0;
}
void sim_finish(void) {
  sim_on = 0;
  if (S) {
    S->steps_a = acount;
    S->steps_m = mcount;
    S->vtime = vclock - 1000000000000ll - C.clock_start;
    S->threads = nthr;
  }
}
// The caller promises not to block or wait for another thread until sim_quiet(0).
void sim_quiet(int on) {
  if (active()) quiet = on;
}
int sim_active(void) { return active(); }
uint64_t sim_steps(void) { return acount; }
int sim_self(void) { return my_id; }

typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void *boot(void *p) {
  int id = (int)(intptr_t)p;
  my_id = id;
  park(id);
  pthread_setspecific(exit_key, (void *)3);
  return T[id].fn(T[id].arg);
}
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  static pc_t real;
  if (!real) real = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
  if (!active()) return real(th, at, fn, arg);
  if (nthr >= MAXT) return EAGAIN;
  if (C.thread_fail && rnd(&rs_fault, 1000000) < C.thread_fail) {
    S->fault_thread++;
    return EAGAIN;
  }
  int id = nthr;
  T[id].fn = fn;
  T[id].arg = arg;
  T[id].deadline = -1;
  atomic_store(&T[id].sem, 0);
  T[id].prio = C.mode == SIM_REPLAY ? 0 : rnd(&rs_sched, 1000);
  int r = real(th, at, boot, (void *)(intptr_t)id);
  if (r) return r;
  T[id].pt = *th;
  T[id].state = T_RUN;
  nthr++;
  point_a();
  return 0;
}
typedef int (*pj_t)(pthread_t, void **);
int pthread_join(pthread_t th, void **ret) {
  static pj_t real;
  if (!real) real = (pj_t)dlsym(RTLD_NEXT, "pthread_join");
  if (active()) {
    for (int i = 0; i < nthr; i++)
      if (T[i].state != T_UNUSED && i != my_id && pthread_equal(T[i].pt, th) && T[i].fn) {
        if (T[i].state != T_DEAD) {
          T[my_id].state = T_JOIN;
          T[my_id].join_target = i;
          reschedule(2);
        }
        T[i].fn = NULL;
        break;
      }
  }
  return real(th, ret);
}

// ---------------------------------------------------------------- blocking syscalls, clock, entropy
static int64_t now_ns(int clk) { return clk == CLOCK_REALTIME ? vclock + C.wall_offset : vclock; }

static long sim_futex(uint32_t *uaddr, int op, uint32_t val, const struct timespec *ts, uint32_t val3) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point_a();
    if (__atomic_load_n(uaddr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    nwait++;
    if (C.mode == SIM_REPLAY ? rep_take(4, nwait) != NULL : (C.spurious && rnd(&rs_fault, 1000000) < C.spurious)) {
      S->fault_spurious++;
      record(4, nwait, 0);
      reschedule(2);
      return 0;  // legal spurious wake-up
    }
    struct thr *t = &T[my_id];
    t->faddr = (uintptr_t)uaddr;
    t->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
    t->timedout = 0;
    t->deadline = -1;
    if (ts) {
      int64_t d = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
      t->deadline = cmd == FUTEX_WAIT ? vclock + d : d - ((op & FUTEX_CLOCK_REALTIME) ? C.wall_offset : 0);
    }
    t->state = T_FUTEX;
    reschedule(2);
    t->faddr = 0;
    t->deadline = -1;
    if (t->timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t bs = cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu;
    int w[MAXT], n = 0;
    for (int i = 0; i < nthr; i++)
      if (T[i].state == T_FUTEX && T[i].faddr == (uintptr_t)uaddr && (T[i].bitset & bs)) w[n++] = i;
    int woken = 0;
    while (n && (uint32_t)woken < val) {
      int k = 0;
      nwake++;
      if (C.mode == SIM_REPLAY) {
        struct sim_ev *e = rep_take(3, nwake);
        for (int i = 0; e && i < n; i++)
          if (w[i] == (int)e->tid) k = i;
      } else
        k = (int)rnd(&rs_sched, n);
      if (n > 1) record(3, nwake, w[k]);
      T[w[k]].state = T_RUN;
      T[w[k]].timedout = 0;
      T[w[k]].deadline = -1;
      hash_in(0x7700 + w[k]);
      w[k] = w[--n];
      woken++;
    }
    point_a();
    return woken;
  }
  return raw_syscall6(SYS_futex, (long)uaddr, op, val, (long)ts, 0, val3);
}

static void fill(void *buf, size_t n) {
  unsigned char *p = buf;
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(sm64(&rs_ent) >> 24);
  S->entropy_bytes += n;
}

// process and thread ids: drawn from the seed, as a restarted process would get others
static long sim_pid(void) { return 300 + (long)(C.entropy_seed * 0x9E3779B97F4A7C15ull >> 40) % 30000; }
pid_t getpid(void) { return active() ? sim_pid() : raw_syscall6(SYS_getpid, 0, 0, 0, 0, 0, 0); }
pid_t gettid(void) { return active() ? sim_pid() + my_id : raw_syscall6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (active()) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_getrandom) { fill((void *)a, (size_t)b); return b; }
    if (n == SYS_getpid) return sim_pid();
    if (n == SYS_gettid) return sim_pid() + my_id;
  }
  long r = raw_syscall6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
ssize_t getrandom(void *buf, size_t n, unsigned int flags) {
  if (active()) { fill(buf, n); return n; }
  long r = raw_syscall6(SYS_getrandom, (long)buf, n, flags, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return r;
}
int getentropy(void *buf, size_t n) {
  if (active()) { fill(buf, n); return 0; }
  return raw_syscall6(SYS_getrandom, (long)buf, n, 0, 0, 0, 0) == (long)n ? 0 : -1;
}
int sched_yield(void) {
  if (!active()) return raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  acount++;
  vclock += 1000;
  reschedule(2);
  return 0;
}
static int sim_sleep(int64_t d) {
  T[my_id].state = T_SLEEP;
  T[my_id].deadline = d;
  S->sleeps++;
  reschedule(2);
  return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem) {
  if (!active()) {
    long r = raw_syscall6(SYS_clock_nanosleep, clk, flags, (long)req, (long)rem, 0, 0);
    return r < 0 ? -r : 0;
  }
  int64_t d = (int64_t)req->tv_sec * 1000000000ll + req->tv_nsec;
  if (!(flags & TIMER_ABSTIME)) d += vclock;
  return sim_sleep(d);
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (!active()) {
    long r = raw_syscall6(SYS_nanosleep, (long)req, (long)rem, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
  }
  return sim_sleep(vclock + (int64_t)req->tv_sec * 1000000000ll + req->tv_nsec);
}
int clock_gettime(clockid_t clk, struct timespec *ts) {
  if (!active()) {
    long r = raw_syscall6(SYS_clock_gettime, clk, (long)ts, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
  }
  S->clock_reads++;
  if (C.clock_jump && rnd(&rs_ent, 4) == 0) vclock += (int64_t)rnd(&rs_ent, 3600ull * 1000000000ull);
  int64_t v = now_ns(clk);
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  return 0;
}
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
  if (!active() || !C.ncpu) {
    long r = raw_syscall6(SYS_sched_getaffinity, pid, n, (long)set, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
  }
  memset(set, 0, n);
  for (int i = 0; i < C.ncpu; i++) CPU_SET_S(i, n, set);
  return 0;
}

// ---------------------------------------------------------------- __tsan_* entry points
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define MEM(n)                                                        \
  void __tsan_read##n(void *p) { (void)p; point_m(); }                \
  void __tsan_write##n(void *p) { (void)p; point_m(); }               \
  void __tsan_read_write##n(void *p) { (void)p; point_m(); }          \
  void __tsan_unaligned_read##n(void *p) { (void)p; point_m(); }      \
  void __tsan_unaligned_write##n(void *p) { (void)p; point_m(); }     \
  void __tsan_unaligned_read_write##n(void *p) { (void)p; point_m(); }\
  void __tsan_volatile_read##n(void *p) { (void)p; point_m(); }       \
  void __tsan_volatile_write##n(void *p) { (void)p; point_m(); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)
void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; point_m(); }
void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; point_m(); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { point_m(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { point_m(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { point_m(); return memset(d, c, n); }

#define AT(bits, ty)                                                                                              \
  ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void)mo; point_a(); return __atomic_load_n(a, 5); }   \
  void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { (void)mo; point_a(); __atomic_store_n(a, v, 5); }   \
  ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void)mo; point_a(); return __atomic_exchange_n(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; point_a(); return __atomic_fetch_add(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; point_a(); return __atomic_fetch_sub(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; point_a(); return __atomic_fetch_and(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; point_a(); return __atomic_fetch_or(a, v, 5); }   \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; point_a(); return __atomic_fetch_xor(a, v, 5); } \
  ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { (void)mo; point_a(); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) {               \
    (void)mo; (void)fmo; point_a(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                       \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) {                 \
    (void)mo; (void)fmo; point_a(); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }                       \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) {                    \
    (void)mo; (void)fmo; point_a(); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; point_a(); __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
