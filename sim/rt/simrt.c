// Deterministic simulation runtime.
//
// Linked into the simulator executable, it takes over everything through which the code under
// test can meet nondeterminism: thread creation, locks, condition variables, futexes, yields,
// sleeps, clocks and the entropy source.  Real OS threads carry the real code, but exactly one of
// them (the holder of the baton) runs at any time, and a seeded PRNG decides, at every
// synchronisation point and at basic-block granularity inside instrumented crates (through
// __sanitizer_cov_trace_pc), who holds it.  One seed is one execution.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <signal.h>
#include <sys/time.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

// ---------------------------------------------------------------- raw system calls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static void raw_futex_wait(volatile int *p, int v) { raw6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void raw_futex_wake(volatile int *p) { raw6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ---------------------------------------------------------------- real functions
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_mlock)(pthread_mutex_t *);
static int (*r_mtry)(pthread_mutex_t *);
static int (*r_munlock)(pthread_mutex_t *);
static int (*r_cwait)(pthread_cond_t *, pthread_mutex_t *);
static int (*r_ctimed)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
static int (*r_csig)(pthread_cond_t *);
static int (*r_cbro)(pthread_cond_t *);
static int (*r_rd)(pthread_rwlock_t *);
static int (*r_tryrd)(pthread_rwlock_t *);
static int (*r_wr)(pthread_rwlock_t *);
static int (*r_trywr)(pthread_rwlock_t *);
static int (*r_rwun)(pthread_rwlock_t *);
static int inited;
static void init_real(void) {
  if (inited) return;
  inited = 1;
#define L(v, n) v = dlsym(RTLD_NEXT, n)
#define LV(v, n) do { v = dlvsym(RTLD_NEXT, n, "GLIBC_2.3.2"); if (!v) v = dlsym(RTLD_NEXT, n); } while (0)
  L(r_create, "pthread_create"); L(r_join, "pthread_join");
  L(r_mlock, "pthread_mutex_lock"); L(r_mtry, "pthread_mutex_trylock"); L(r_munlock, "pthread_mutex_unlock");
  LV(r_cwait, "pthread_cond_wait"); LV(r_ctimed, "pthread_cond_timedwait");
  LV(r_csig, "pthread_cond_signal"); LV(r_cbro, "pthread_cond_broadcast");
  L(r_rd, "pthread_rwlock_rdlock"); L(r_tryrd, "pthread_rwlock_tryrdlock");
  L(r_wr, "pthread_rwlock_wrlock"); L(r_trywr, "pthread_rwlock_trywrlock"); L(r_rwun, "pthread_rwlock_unlock");
}
__attribute__((constructor)) static void ctor(void) { init_real(); }

// ---------------------------------------------------------------- state
enum { RUN = 0, B_MUTEX, B_COND, B_FUTEX, B_JOIN, B_SLEEP, B_RW, DONE };
enum { EV_SWITCH = 0, EV_SPUR, EV_CLOCK, EV_RNDEINTR, EV_RNDSHORT, EV_WAKE };
#define FAIR 4000000ull  // default rule: nobody keeps the baton longer than this while others can run
#define MAXT 512
typedef struct thr {
  int id, state;
  void *obj;
  uint64_t deadline;  // simulated ns, 0 = none
  int timed_out, spurious;
  volatile int go;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  uint64_t prio, starved_until, starved_dec;  // starved while both bounds lie ahead
  uint64_t run_steps;
} thr;
typedef struct { uint64_t step; uint32_t type; uint32_t arg; uint64_t val; } ev_t;

typedef struct {
  uint64_t seed_sched, seed_fault, seed_entropy;
  uint64_t q_mean, step_limit, ns_per_step;
  uint32_t policy;       // 0 run-to-block, 1 random, 2 priorities, 3 bursts, 4 starvation
  uint32_t p_sync;       // ppm: switch at a synchronisation point
  uint32_t p_spur;       // ppm per scheduling point: spurious wake-up
  uint32_t p_clock;      // ppm per scheduling point: clock jump
  uint32_t p_rnd_eintr, p_rnd_short;
  uint32_t rnd_mode;     // 0 getrandom; 1 getrandom unavailable -> /dev/urandom
  uint32_t replay;       // 1: follow the given event list only
  uint64_t rnd_fail_at;  // entropy call index from which the source fails for good (0 = never)
  uint64_t rnd_fail_len; // number of failing calls (0 = for good)
  uint32_t rnd_errno;
  int32_t fd;            // where to report fatal conditions
} sim_cfg;
typedef struct {
  uint64_t steps, sim_ns, switches, preempts, sync_points, order_hash, log_hash, threads, spur, clock_jumps;
  uint64_t rnd_calls, rnd_eintr, rnd_short, rnd_fail, rnd_fallback, fut_eintr, starve_windows, nev, timeouts, max_runnable;
} sim_stats;

static thr T[MAXT];
static int nT;
static int active;
static __thread thr *me;
static sim_cfg C;
static sim_stats S;
#define SYNC_LIMIT 40000000ull
static int64_t q_left = INT64_MAX;
static uint64_t q_base_steps;  // steps when q_left was loaded
static int64_t q_loaded;
static uint64_t clock_off;
static uint64_t last_switch_step;
static pthread_key_t exit_key;
static ev_t *EV; static uint64_t nEV, capEV;       // recorded
static ev_t *RV; static uint64_t nRV, iRV;         // to replay
static uint64_t rs, rf, re;                         // PRNG states
static int burst; static uint64_t burst_left;

static inline uint64_t sm(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline int chance(uint64_t *s, uint32_t ppm) { return ppm && (sm(s) % 1000000) < ppm; }

static inline uint64_t steps_now(void) { return q_base_steps + (uint64_t)(q_loaded - q_left); }
static inline void hmix(uint64_t *h, uint64_t v) { *h = (*h ^ v) * 0x100000001b3ull; *h ^= *h >> 29; }
static uint64_t now_ns(void) { return 1700000000000000000ull + steps_now() * C.ns_per_step + clock_off; }

static void record(uint32_t type, uint32_t arg, uint64_t val) {
  if (type != EV_SWITCH) { hmix(&S.log_hash, steps_now() * 8 + type); hmix(&S.log_hash, arg); hmix(&S.log_hash, val); }
  if (C.replay) return;
  if (nEV == capEV) {
    if (capEV >= (1u << 22)) return;
    capEV = capEV ? capEV * 2 : 4096;
    EV = realloc(EV, capEV * sizeof *EV);
  }
  EV[nEV++] = (ev_t){steps_now(), type, arg, val};
}

static void report_fatal(const char *what) {
  char buf[4096];
  int n = snprintf(buf, sizeof buf, "FATAL %s steps=%llu threads=%d blocked=", what, (unsigned long long)steps_now(), nT);
  static const char *nm[] = {"run", "mutex", "cond", "futex", "join", "sleep", "rwlock", "done"};
  for (int i = 0; i < nT && n < 3900; i++) n += snprintf(buf + n, sizeof buf - n, "%d:%s ", i, nm[T[i].state]);
  n += snprintf(buf + n, sizeof buf - n, "\n");
  raw6(SYS_write, C.fd, (long)buf, n, 0, 0, 0);
  raw6(SYS_exit_group, 77, 0, 0, 0, 0, 0);
}

static void load_quantum(void) {
  uint64_t now = steps_now();
  int64_t q;
  if (C.replay) {
    uint64_t lim = last_switch_step + FAIR;
    uint64_t next = iRV < nRV ? RV[iRV].step : UINT64_MAX;
    if (next < lim && next > now) lim = next;
    q = lim > now ? (int64_t)(lim - now) : 1;
  } else {
    uint64_t mean = C.q_mean ? C.q_mean : 1000000;
    switch (C.policy) {
      case 0: q = INT64_MAX / 4; break;
      case 3:
        if (burst_left == 0) { burst = !burst; burst_left = burst ? 50 + sm(&rs) % 400 : 1 + sm(&rs) % 8; }
        burst_left--;
        if (burst) { uint64_t m = mean / 500 + 2; q = 1 + sm(&rs) % (2 * m); } else q = 1 + sm(&rs) % (2 * mean);
        break;
      default: {
        uint64_t r = sm(&rs);
        if ((r & 15) == 0) q = 1 + (r >> 8) % 64; else q = 1 + (r >> 8) % (2 * mean);
      }
    }
    int64_t lim = last_switch_step + FAIR > now ? (int64_t)(last_switch_step + FAIR - now) : 1;
    if (q > lim) q = lim;
  }
  q_base_steps = now; q_loaded = q; q_left = q;
}

static int pick_other_rr(thr *cur) {  // next runnable after cur, round robin; -1 if none
  int s = cur ? cur->id : -1;
  for (int k = 1; k <= nT; k++) { int i = (s + k) % nT; if (i < 0) i += nT; if (T[i].state == RUN && &T[i] != cur) return i; }
  return -1;
}

// cause: 0 = sync point, 1 = quantum over, 2 = yield, 3 = blocked / finished
static void resched(int cause, int kind, int dying) {
  thr *cur = me;
  if (cause != 1) { q_left--; S.sync_points++; hmix(&S.order_hash, (uint64_t)kind * 1024 + (uint64_t)cur->id); }
  uint64_t now = steps_now();
  if (now > C.step_limit || S.sync_points > SYNC_LIMIT) report_fatal("step_limit");
  // timers
  uint64_t t = now_ns();
  for (int i = 0; i < nT; i++)
    if (T[i].state != RUN && T[i].state != DONE && T[i].deadline && T[i].deadline <= t) { T[i].state = RUN; T[i].timed_out = 1; T[i].deadline = 0; S.timeouts++; }
  // faults
  int forced = -1;
  if (C.replay) {
    while (iRV < nRV && RV[iRV].step <= now) {
      ev_t *e = &RV[iRV];
      if (e->type == EV_SWITCH) { if ((int)e->arg < nT && T[e->arg].state == RUN) forced = (int)e->arg; iRV++; break; }
      else if (e->type == EV_SPUR) {
        if ((int)e->arg < nT && (T[e->arg].state == B_COND || T[e->arg].state == B_FUTEX)) { T[e->arg].state = RUN; T[e->arg].spurious = 1; T[e->arg].deadline = 0; S.spur++; record(EV_SPUR, e->arg, 0); }
        iRV++;
      } else if (e->type == EV_CLOCK) { clock_off += e->val; S.clock_jumps++; record(EV_CLOCK, 0, e->val); iRV++; }
      else if (RV[iRV].step < now) iRV++;  // an entropy or wake event whose moment has passed
      else break;
    }
  } else {
    if (chance(&rf, C.p_spur)) {
      int c[MAXT], n = 0;
      for (int i = 0; i < nT; i++) if (T[i].state == B_COND || T[i].state == B_FUTEX) c[n++] = i;
      if (n) { int i = c[sm(&rf) % n]; T[i].state = RUN; T[i].spurious = 1; T[i].deadline = 0; S.spur++; record(EV_SPUR, i, 0); }
    }
    if (chance(&rf, C.p_clock)) {
      uint64_t j = 1ull << (10 + sm(&rf) % 32);
      clock_off += j; S.clock_jumps++; record(EV_CLOCK, 0, j);
    }
  }
  int next = -1, dflt = -1;
  for (;;) {
    int any = 0;
    for (int i = 0; i < nT; i++) any += T[i].state == RUN;
    if ((uint64_t)any > S.max_runnable) S.max_runnable = any;
    if (any) break;
    // nothing can run: jump to the next timer
    uint64_t best = UINT64_MAX; int bi = -1;
    for (int i = 0; i < nT; i++) if (T[i].state != DONE && T[i].deadline && T[i].deadline < best) { best = T[i].deadline; bi = i; }
    if (bi < 0) report_fatal("deadlock");
    clock_off += best - now_ns();
    T[bi].state = RUN; T[bi].timed_out = 1; T[bi].deadline = 0; S.timeouts++;
  }
  int canstay = cur->state == RUN && !dying;
  int fair_due = cause == 1 && now - last_switch_step >= FAIR;
  // the default choice, a pure function of the state
  if (canstay && (cause == 0 || (cause == 1 && !fair_due))) dflt = cur->id;
  else { dflt = pick_other_rr(cur); if (dflt < 0) dflt = cur->id; }
  if (C.replay) next = (forced >= 0 && (forced != cur->id || canstay)) ? forced : dflt;
  else {
    uint64_t dec = S.sync_points + S.preempts;
    int c[MAXT], n = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == RUN && (&T[i] != cur || canstay) && (T[i].starved_until <= now || T[i].starved_dec <= dec)) c[n++] = i;
    if (!n) for (int i = 0; i < nT; i++) if (T[i].state == RUN && (&T[i] != cur || canstay)) c[n++] = i;
    if (C.policy == 4 && (sm(&rs) & 63) == 0 && nT > 1) {
      int v = sm(&rs) % nT; T[v].starved_until = now + (1ull << (12 + sm(&rs) % 13)); T[v].starved_dec = dec + (1ull << (3 + sm(&rs) % 11)); S.starve_windows++;
    }
    switch (C.policy) {
      case 0: next = dflt; break;
      case 2: {
        if (cause == 1 || cause == 2) cur->prio = sm(&rs) % 1000 < 300 ? sm(&rs) >> 1 : cur->prio >> 1;
        int b = c[0];
        for (int i = 1; i < n; i++) if (T[c[i]].prio > T[b].prio) b = c[i];
        next = b;
        if (cause == 2) next = dflt;
        break;
      }
      default:
        if (cause == 0 && !chance(&rs, C.p_sync) && (cur->starved_until <= now || cur->starved_dec <= dec)) next = cur->id;
        else if (cause == 0 || cause == 1) {
          // prefer somebody else
          int k = sm(&rs) % n; next = c[k];
          if (next == cur->id && n > 1) next = c[(k + 1) % n];
        } else next = c[sm(&rs) % n];
    }
    if (next < 0) next = dflt;
    if (next != dflt) record(EV_SWITCH, next, 0);
  }
  if (cause != 1 || next != cur->id) { hmix(&S.log_hash, now); hmix(&S.log_hash, next); }
  if (next != cur->id || fair_due) last_switch_step = now;
  if (cause == 1) S.preempts++;
  load_quantum();
  if (next == cur->id) return;
  S.switches++;
  thr *nx = &T[next];
  nx->go = 1;
  raw_futex_wake(&nx->go);
  if (dying) return;
  while (!cur->go) raw_futex_wait(&cur->go, 0);
  cur->go = 0;
}

static void slow_preempt(void) {
  if (!active || !me) { q_base_steps = steps_now(); q_left = q_loaded = INT64_MAX / 2; return; }
  resched(1, 0, 0);
}
void __sanitizer_cov_trace_pc(void) { if (__builtin_expect(--q_left <= 0, 0)) slow_preempt(); }

static inline int on(void) { return active && me; }
static void block(int st, void *obj, uint64_t deadline, int kind) {
  me->state = st; me->obj = obj; me->deadline = deadline; me->timed_out = 0; me->spurious = 0;
  resched(3, kind, 0);
  me->obj = 0; me->deadline = 0;
}
static int wake(int st, void *obj, int n) {
  int c[MAXT], m = 0, w = 0;
  for (int i = 0; i < nT; i++) if (T[i].state == st && T[i].obj == obj) c[m++] = i;
  while (m && w < n) {
    int k = 0;
    if (n < m) {
      if (C.replay) {
        for (uint64_t i = iRV; i < nRV && RV[i].step <= steps_now(); i++)
          if (RV[i].type == EV_WAKE && RV[i].step == steps_now()) {
            for (int j = 0; j < m; j++) if (c[j] == (int)RV[i].arg) k = j;
            ev_t x = RV[i]; memmove(&RV[iRV + 1], &RV[iRV], (i - iRV) * sizeof *RV); RV[iRV++] = x;
            break;
          }
      } else k = (int)(sm(&rs) % m);
      if (k) record(EV_WAKE, c[k], 0);
    }
    T[c[k]].state = RUN; T[c[k]].deadline = 0; c[k] = c[--m]; w++;
  }
  return w;
}

// ---------------------------------------------------------------- threads
static void exit_dtor(void *p) {
  // run after every other thread-local destructor: re-arm until the last round
  uintptr_t v = (uintptr_t)p;
  if (!active) return;
  if (v < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(exit_key, (void *)(v + 1)); return; }
  me->state = DONE;
  wake(B_JOIN, me, MAXT);
  resched(3, 20, 1);
}
static void *tramp(void *p) {
  thr *t = p;
  while (!t->go) raw_futex_wait(&t->go, 0);
  t->go = 0;
  me = t;
  pthread_setspecific(exit_key, (void *)1);
  return t->fn(t->arg);
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  init_real();
  if (!on()) return r_create(out, attr, fn, arg);
  if (nT >= MAXT) return EAGAIN;
  thr *t = &T[nT];
  memset(t, 0, sizeof *t);
  t->id = nT; t->fn = fn; t->arg = arg; t->state = RUN;
  t->prio = sm(&rs) >> 1;
  int r = r_create(&t->pt, attr, tramp, t);
  if (r) return r;
  nT++;
  if (out) *out = t->pt;
  S.threads++;
  resched(0, 1, 0);
  return 0;
}
int pthread_join(pthread_t p, void **ret) {
  init_real();
  if (on()) {
    for (int i = nT - 1; i > 0; i--)
      if (T[i].pt == p) { while (T[i].state != DONE) block(B_JOIN, &T[i], 0, 2); T[i].pt = 0; break; }
  }
  return r_join(p, ret);
}

// ---------------------------------------------------------------- mutexes, condition variables, rwlocks
static int sim_lock(pthread_mutex_t *m) {
  int r;
  while ((r = r_mtry(m)) == EBUSY) block(B_MUTEX, m, 0, 3);
  return r;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  init_real();
  if (!on()) return r_mlock(m);
  resched(0, 4, 0);
  return sim_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  init_real();
  if (on()) resched(0, 5, 0);
  return r_mtry(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  init_real();
  int r = r_munlock(m);
  if (on()) { wake(B_MUTEX, m, MAXT); resched(0, 6, 0); }
  return r;
}
static uint64_t abs_deadline(const struct timespec *ts) {
  uint64_t d = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  return d ? d : 1;
}
static int sim_cwait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl) {
  r_munlock(m);
  wake(B_MUTEX, m, MAXT);
  block(B_COND, c, dl, 7);
  int to = me->timed_out;
  sim_lock(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  init_real();
  if (!on()) return r_cwait(c, m);
  return sim_cwait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  init_real();
  if (!on()) return r_ctimed(c, m, ts);
  return sim_cwait(c, m, abs_deadline(ts));
}
int pthread_cond_signal(pthread_cond_t *c) {
  init_real();
  if (!on()) return r_csig(c);
  wake(B_COND, c, 1);
  resched(0, 8, 0);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  init_real();
  if (!on()) return r_cbro(c);
  wake(B_COND, c, MAXT);
  resched(0, 9, 0);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  init_real();
  if (!on()) return r_rd(l);
  resched(0, 10, 0);
  int r;
  while ((r = r_tryrd(l)) == EBUSY) block(B_RW, l, 0, 11);
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  init_real();
  if (!on()) return r_wr(l);
  resched(0, 12, 0);
  int r;
  while ((r = r_trywr(l)) == EBUSY) block(B_RW, l, 0, 13);
  return r;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  init_real();
  int r = r_rwun(l);
  if (on()) { wake(B_RW, l, MAXT); resched(0, 14, 0); }
  return r;
}

// ---------------------------------------------------------------- yields, sleeps, clocks
int sched_yield(void) {
  if (!on()) return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  resched(2, 15, 0);
  return 0;
}
static int sim_sleep(uint64_t ns) { block(B_SLEEP, 0, now_ns() + ns, 16); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!on()) { long r = raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  return sim_sleep((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (!on()) { long r = raw6(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0); return r < 0 ? -r : 0; }
  uint64_t d = (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec;
  if (fl & TIMER_ABSTIME) { uint64_t n = now_ns(); d = d > n ? d - n : 0; }
  return sim_sleep(d);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!on()) { long r = raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  uint64_t n = now_ns();
  ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull;
  return 0;
}

// ---------------------------------------------------------------- entropy
static int rnd_fd = -1, rnd_fd2 = -1;
static int rnd_event(uint32_t type, uint32_t ppm) {
  if (C.replay) {
    for (uint64_t i = iRV; i < nRV && RV[i].step <= steps_now(); i++)
      if (RV[i].type == type) { memmove(&RV[iRV + 1], &RV[iRV], (i - iRV) * sizeof *RV); iRV++; record(type, 0, 0); return 1; }
    return 0;
  }
  if (chance(&rf, ppm)) { record(type, 0, 0); return 1; }
  return 0;
}
// returns bytes produced or -errno
static long entropy(void *buf, size_t n) {
  S.rnd_calls++;
  if (C.rnd_fail_at && S.rnd_calls >= C.rnd_fail_at && (!C.rnd_fail_len || S.rnd_calls < C.rnd_fail_at + C.rnd_fail_len)) {
    S.rnd_fail++; return -(long)(C.rnd_errno ? C.rnd_errno : EIO);
  }
  if (rnd_event(EV_RNDEINTR, C.p_rnd_eintr)) { S.rnd_eintr++; return -EINTR; }
  if (n > 1 && rnd_event(EV_RNDSHORT, C.p_rnd_short)) { S.rnd_short++; n = 1 + (sm(&re) % (n - 1)); }
  unsigned char *p = buf;
  for (size_t i = 0; i < n;) { uint64_t v = sm(&re); for (int k = 0; k < 8 && i < n; k++, i++) { p[i] = v; v >>= 8; } }
  return (long)n;
}
static long do_getrandom(void *buf, size_t n, unsigned fl) {
  if (!on()) return raw6(SYS_getrandom, (long)buf, n, fl, 0, 0, 0);
  resched(0, 17, 0);
  if (C.rnd_mode == 1) { S.rnd_fallback++; return -ENOSYS; }
  return entropy(buf, n);
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  long r = do_getrandom(buf, n, fl);
  if (r < 0) { errno = -r; return -1; }
  return r;
}
int getentropy(void *buf, size_t n) {
  unsigned char *p = buf;
  while (n) { long r = do_getrandom(p, n, 0); if (r == -EINTR) continue; if (r < 0) { errno = -r; return -1; } p += r; n -= r; }
  return 0;
}
static int is_rnd(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static int open_common(const char *p, int fl, mode_t m) {
  if (on() && is_rnd(p)) {
    resched(0, 18, 0);
    if (C.rnd_fail_at && C.rnd_fail_at <= 1 && !C.rnd_fail_len) { S.rnd_fail++; errno = EMFILE; return -1; }
    int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)"/dev/zero", O_RDONLY | O_CLOEXEC, 0, 0, 0);
    if (fd >= 0) { if (rnd_fd < 0) rnd_fd = fd; else rnd_fd2 = fd; }
    return fd;
  }
  long r = raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return (int)r;
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return open_common(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, int); va_end(a); return open_common(p, fl, m); }
ssize_t read(int fd, void *buf, size_t n) {
  long r;
  if (on() && fd >= 0 && (fd == rnd_fd || fd == rnd_fd2)) { resched(0, 19, 0); r = entropy(buf, n); }
  else r = raw6(SYS_read, fd, (long)buf, n, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return r;
}
int close(int fd) {
  if (fd >= 0 && fd == rnd_fd) rnd_fd = -1;
  if (fd >= 0 && fd == rnd_fd2) rnd_fd2 = -1;
  long r = raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return 0;
}

// ---------------------------------------------------------------- raw system calls made by the code
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  long r;
  if (on() && n == SYS_futex) {
    int op = (int)b & 127;
    volatile int *p = (volatile int *)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      resched(0, 21, 0);
      if (*p != (int)c) { errno = EAGAIN; return -1; }
      uint64_t dl = 0;
      if (d) { const struct timespec *ts = (const void *)d; dl = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec; if (op == FUTEX_WAIT) dl += now_ns(); if (!dl) dl = 1; }
      block(B_FUTEX, (void *)p, dl, 22);
      if (me->timed_out) { errno = ETIMEDOUT; return -1; }
      if (me->spurious && (steps_now() & 1)) { S.fut_eintr++; errno = EINTR; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int w = wake(B_FUTEX, (void *)p, (int)c < 0 || c > MAXT ? MAXT : (int)c);
      resched(0, 23, 0);
      return w;
    }
  }
  if (n == SYS_getrandom) r = do_getrandom((void *)a, (size_t)b, (unsigned)c);
  else r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ---------------------------------------------------------------- API for the harness
// A loop that reaches no instrumented code and no synchronisation makes no steps: noticed by the processor time
// it burns. Only ever ends a run that has stopped making progress, so executions do not depend on it.
static uint64_t wd_steps; static int wd_idle;
static void watchdog(int sig) {
  (void)sig;
  if (!active) return;
  uint64_t now = steps_now();
  if (now - wd_steps > 1000) { wd_steps = now; wd_idle = 0; return; }
  if (++wd_idle >= 15) report_fatal("no_progress");
}
static void arm(int secs) {
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = watchdog; sa.sa_flags = SA_RESTART;
  sigaction(SIGVTALRM, &sa, 0);
  struct itimerval it = {{secs, 0}, {secs, 0}};
  wd_steps = 0; wd_idle = 0;
  setitimer(ITIMER_VIRTUAL, &it, 0);
}
void sim_start(const sim_cfg *cfg, const ev_t *rv, uint64_t nrv) {
  init_real();
  C = *cfg;
  memset(&S, 0, sizeof S);
  memset(&T[0], 0, sizeof T[0]);
  nT = 1; T[0].state = RUN; T[0].pt = pthread_self();
  rs = C.seed_sched; rf = C.seed_fault; re = C.seed_entropy;
  T[0].prio = sm(&rs) >> 1;
  S.order_hash = S.log_hash = 0xcbf29ce484222325ull;
  clock_off = 0; last_switch_step = 0; q_base_steps = 0; q_loaded = q_left = 0;
  nEV = 0; iRV = 0; nRV = nrv;
  if (nrv) { RV = malloc(nrv * sizeof *RV); memcpy(RV, rv, nrv * sizeof *RV); }
  burst = 0; burst_left = 0;
  static int key_made; if (!key_made) { pthread_key_create(&exit_key, exit_dtor); key_made = 1; }
  me = &T[0];
  active = 1;
  load_quantum();
  arm(2);
}
void sim_stop(sim_stats *out) {
  if (!active) { *out = S; return; }
  active = 0;
  arm(0);
  S.steps = steps_now(); S.sim_ns = S.steps * C.ns_per_step + clock_off; S.nev = nEV;
  *out = S;
  q_left = INT64_MAX / 2;
}
void sim_peek(sim_stats *out) { *out = S; out->steps = steps_now(); out->sim_ns = out->steps * C.ns_per_step + clock_off; }
const ev_t *sim_events(uint64_t *n) { *n = nEV; return EV; }
int sim_active(void) { return active; }
uint64_t sim_tid(void) { return me ? (uint64_t)me->id : 0; }
void sim_set_rnd_fail(uint64_t at, uint64_t len, uint32_t err) { C.rnd_fail_at = at ? S.rnd_calls + at : 0; C.rnd_fail_len = len; C.rnd_errno = err; }
void sim_set_step_limit(uint64_t rel) { C.step_limit = rel == UINT64_MAX ? rel : steps_now() + rel; }
