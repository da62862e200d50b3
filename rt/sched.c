/*
 * Controlled scheduler: every thread of the code under test is a fiber of one
 * OS thread; a fiber gives up control only at a synchronisation access (an
 * atomic or volatile access, a lock, condition variable, sleep or pause), and
 * each such access is a scheduling choice.
 */
#define _GNU_SOURCE
#include "mc.h"
#include "mc_int.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <link.h>
#include <sys/mman.h>
#include <execinfo.h>

#define MAXF   24
#define STKSZ  (512 * 1024)
enum { F_FREE, F_RUN, F_BLOCK, F_DONE };
typedef struct {
   void  *sp;
   char  *stk;
   int    st;
   void  *on;          /* what a blocked fiber waits for */
   void *(*fn)(void *);
   void  *arg, *ret;
   int    detached;
   char  *tls;
   int    err;
   int    in_cond;
} fiber;
static fiber    fb[MAXF];
static int      nf = 1, cur;
static int      armed;
static unsigned pauses[MAXF];
static int plain_on;
static uint64_t jitter = 1, steps, run_len, horizon = 20000000, points;
static char    *tls_base;
static size_t   tls_size;
void (*mc_on_deadlock)(void);
static int round_no = 1;

/* ---- table of synchronisation variables (shared by all processes) ------- */
#define TBL (1u << 17)
typedef struct { volatile uintptr_t a; volatile uint32_t r, w; volatile int active; } svar;
static svar         *tbl;
static volatile int *tbl_n;
static int           no_reduce;

void mc_int_sched_shared(void)
{
   tbl   = mmap(NULL, sizeof(svar) * TBL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   tbl_n = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   no_reduce = mc_argi("noreduce", 0);
}
void mc_int_sched_replay(void) { round_no = 99; no_reduce = 1; }
static int used_sched;
int mc_int_syncvars(void)
{
   int k = 0;
   for (unsigned i = 0; i < TBL; i++) k += tbl[i].active;
   return k;
}
int mc_int_sched_again(int rounds)
{
   int grew = 0;
   for (unsigned i = 0; i < TBL; i++)
      if (tbl[i].a && !tbl[i].active && tbl[i].w && __builtin_popcount(tbl[i].r | tbl[i].w) > 1) { tbl[i].active = 1; grew++; }
   round_no = rounds + 1;
   long maxr = mc_argi("rounds", 3);
   return grew && rounds < maxr;
}
static inline svar *lookup(uintptr_t a)
{
   uint32_t h = (a * 0x9E3779B97F4A7C15ull) >> 47;
   for (int k = 0; k < 4096; k++, h = (h + 1) & (TBL - 1)) {
      uintptr_t x = tbl[h].a;
      if (x == a) return &tbl[h];
      if (!x) {
         if (__sync_bool_compare_and_swap(&tbl[h].a, 0, a)) return &tbl[h];
         if (tbl[h].a == a) return &tbl[h];
      }
   }
   return NULL;
}

/* ---- fiber switch -------------------------------------------------------- */
void mc_swap(void **save, void *to);
asm(".text\n.globl mc_swap\nmc_swap:\n"
    "  pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    "  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
    "  popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n  ret\n");

static int phdr_cb(struct dl_phdr_info *i, size_t sz, void *d)
{
   (void)sz; (void)d;
   if (tls_size) return 0;
   for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_size = i->dlpi_phdr[k].p_memsz; tls_base = i->dlpi_tls_data; }
   return 1; /* only the executable itself */
}
static char *tls_init_img;
void mc_int_sched_init(void)
{
   dl_iterate_phdr(phdr_cb, NULL);
   fb[0].st = F_RUN;
   if (tls_size) {
      fb[0].tls    = malloc(tls_size);
      tls_init_img = malloc(tls_size);
      memcpy(tls_init_img, tls_base, tls_size);
   }
}
void mc_int_after_fork(void) { points = 0; }

static const volatile void *last_addr;
static int same_run;
static struct { const volatile void *a; unsigned t; } cyc[256];
static unsigned cyc_t, cyc_m;
static void switch_to(int to)
{
   if (to == cur) return;
   int from = cur;
   if (tls_size) { memcpy(fb[from].tls, tls_base, tls_size); memcpy(tls_base, fb[to].tls, tls_size); }
   fb[from].err = errno;
   cur          = to;
   run_len      = 0;
   last_addr    = 0;
   cyc_m = 0; cyc_t += 64;
   mc_swap(&fb[from].sp, fb[to].sp);
   errno = fb[cur].err;
}
int  mc_cur_fiber(void) { return cur; }
uint64_t mc_steps(void) { return ++steps; }
void mc_sched_arm(int on) { plain_on = mc_argi("plain", 0); armed = on; used_sched = 1; run_len = 0; if (!on) { mc_int_count_sched(points); points = 0; } }
void mc_set_horizon(uint64_t h) { horizon = steps + h; }
int  mc_live_fibers(void)
{
   int k = 0;
   for (int i = 0; i < nf; i++) k += fb[i].st == F_RUN || fb[i].st == F_BLOCK;
   return k;
}

static void stuck(const char *what)
{
   char b[900];
   int  o = 0;
   b[0] = 0;
   for (int i = 0; i < nf; i++)
      if (fb[i].st == F_BLOCK || fb[i].st == F_RUN) o += snprintf(b + o, sizeof b - o, " thread%d:%s", i, fb[i].st == F_BLOCK ? (fb[i].in_cond ? "waits-on-condvar" : "waits-on-lock/join") : "spinning");
   if (mc_trace_on) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
   mc_violation("%s:%s", what, b);
}

static int next_rr(int from)
{
   for (int k = 1; k <= nf; k++) { int i = (from + k) % nf; if (fb[i].st == F_RUN && i != from) return i; }
   return fb[from].st == F_RUN ? from : -1;
}
static void tick(void)
{
   if (++steps > horizon) stuck("no progress within the step horizon (livelock or deadlock)");
}
static int others(int *l)
{
   int k = 0;
   for (int d = 1; d < nf; d++) { int i = (cur + d) % nf; if (fb[i].st == F_RUN) l[k++] = i; }
   return k;
}

/* the running fiber cannot (block) or does not want to (yield) go on */
static void give_up(void)
{
   int l[MAXF], k = others(l);
   tick();
   if (k == 0) {
      if (fb[cur].st == F_RUN) { mc_ev++; return; }
      if (mc_on_deadlock) mc_on_deadlock();
      stuck("deadlock");
   }
   int c = 0;
   if (armed == 1 && round_no > 1) c = k > 1 ? mc_deviate(k, "next-thread") : (mc_ev++, 0);
   else mc_ev++;
   switch_to(l[c]);
}
void mc_yield(void) { give_up(); }

static inline void point(const volatile void *addr, int w)
{
   steps++;
   pauses[cur] = 0;
   if (steps > horizon) stuck("no progress within the step horizon (livelock or deadlock)");
   mc_ev++;
   if (nf == 1) return;
   if (addr == last_addr) {
      if (++same_run > 24 && armed == 1) { /* busy-waiting on one word without a pause: be fair */
         same_run = 0;
         mc_ev--;
         give_up();
         return;
      }
   } else { last_addr = addr; same_run = 0; }
   /* busy-waiting by going round a loop that touches the same few words again
    * and again (trying a claim, say) without a pause: be fair, too */
   if (armed == 1) {
      unsigned h = (unsigned)((uintptr_t)addr >> 2) * 2654435761u >> 24;
      cyc_t++;
      if (cyc[h].a == addr && cyc_t - cyc[h].t < 64) {
         if (++cyc_m > 400) {
            cyc_m = 0;
            mc_ev--;
            give_up();
            return;
         }
      } else cyc_m = 0;
      cyc[h].a = addr; cyc[h].t = cyc_t;
   }
   if (++run_len > 200000) { /* busy-waiting without a pause: be fair */
      run_len = 0;
      int n   = next_rr(cur);
      if (n != cur && n >= 0) { switch_to(n); return; }
   }
   if (steps > horizon / 4) {
      /* still not done: from here on threads also lose the processor at
       * arbitrary (fixed) moments, as they would on a real machine, so that
       * only what stays stuck under that counts as stuck */
      jitter = jitter * 6364136223846793005ull + 1442695040888963407ull;
      if ((jitter >> 40) % 32 == 0) {
         int n = next_rr(cur);
         if (n != cur && n >= 0) { switch_to(n); return; }
      }
   }
   if (!armed) return;
   svar *s   = lookup((uintptr_t)addr);
   int   act = 1;
   if (s) {
      uint32_t bit = 1u << cur;
      if (w) { if (!(s->w & bit)) __sync_fetch_and_or(&s->w, bit); }
      else { if (!(s->r & bit)) __sync_fetch_and_or(&s->r, bit); }
      act = s->active || no_reduce;
   }
   if (!act || round_no == 1 || armed == 2) return; /* 2: only learn what is shared */
   points++;
   int l[MAXF], k = others(l);
   if (!k) return;
   mc_ev--; /* explore() counts it */
   int c = mc_deviate(k + 1, "preempt");
   if (c) {
      if (mc_trace_on) {
         void *bt[12]; int n = backtrace(bt, 12);
         fprintf(stderr, "  # preempt thread %d -> %d before %s of %p\n", cur, l[c - 1], w ? "write" : "read", (void *)addr);
         backtrace_symbols_fd(bt, n, 2);
      }
      switch_to(l[c - 1]);
   }
}

/* ---- threads ------------------------------------------------------------- */
static void fiber_main(void)
{
   fb[cur].ret = fb[cur].fn(fb[cur].arg);
   fb[cur].st  = F_DONE;
   for (int i = 0; i < nf; i++) if (fb[i].st == F_BLOCK && fb[i].on == &fb[cur]) { fb[i].st = F_RUN; fb[i].on = NULL; }
   give_up();
   abort();
}
static int spawn(void *(*fn)(void *), void *arg)
{
   int i;
   for (i = 1; i < nf; i++) if (fb[i].st == F_FREE) break;
   if (i == nf) { if (nf == MAXF) abort(); nf++; }
   fiber *f = &fb[i];
   if (!f->stk) f->stk = mmap(NULL, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (!f->tls && tls_size) f->tls = malloc(tls_size);
   if (tls_size) memcpy(f->tls, tls_init_img, tls_size);
   f->fn = fn; f->arg = arg; f->ret = NULL; f->on = NULL; f->detached = 0; f->in_cond = 0;
   uintptr_t *sp = (uintptr_t *)(((uintptr_t)f->stk + STKSZ) & ~15ul);
   *--sp = 0;
   *--sp = (uintptr_t)fiber_main;
   for (int k = 0; k < 6; k++) *--sp = 0;
   f->sp = sp;
   f->st = F_RUN;
   return i;
}
int mc_spawn(void *(*fn)(void *), void *arg) { return spawn(fn, arg); }
void mc_join(int t)
{
   while (fb[t].st != F_DONE && fb[t].st != F_FREE) { fb[cur].st = F_BLOCK; fb[cur].on = &fb[t]; give_up(); }
   fb[t].st = F_FREE;
}
int mc_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
   int det = PTHREAD_CREATE_JOINABLE;
   if (a) pthread_attr_getdetachstate(a, &det);
   int i = spawn(fn, arg);
   fb[i].detached = det == PTHREAD_CREATE_DETACHED;
   *t = (pthread_t)(i + 1);
   static char dummy; point(&dummy, 1);
   return 0;
}
int mc_pthread_join(pthread_t t, void **r)
{
   int i = (int)t - 1;
   if (i < 0 || i >= nf) return ESRCH;
   while (fb[i].st != F_DONE) {
      if (fb[i].st == F_FREE) return ESRCH;
      fb[cur].st = F_BLOCK; fb[cur].on = &fb[i]; give_up();
   }
   if (r) *r = fb[i].ret;
   fb[i].st = F_FREE;
   return 0;
}
int mc_pthread_detach(pthread_t t) { fb[(int)t - 1].detached = 1; return 0; }
pthread_t mc_pthread_self(void) { return (pthread_t)(cur + 1); }
void mc_pthread_exit(void *r)
{
   fb[cur].ret = r; fb[cur].st = F_DONE;
   for (int i = 0; i < nf; i++) if (fb[i].st == F_BLOCK && fb[i].on == &fb[cur]) { fb[i].st = F_RUN; fb[i].on = NULL; }
   give_up();
   abort();
}

/* ---- mutex / spinlock / cond / sem: state lives in the object itself ------- */
static void wake(void *on) { for (int i = 0; i < nf; i++) if (fb[i].st == F_BLOCK && fb[i].on == on && !fb[i].in_cond) { fb[i].st = F_RUN; fb[i].on = NULL; } }
typedef struct { int owner; } mm; /* 0 free, fiber+1 */
int mc_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; memset(m, 0, sizeof *m); return 0; }
int mc_pthread_mutex_destroy(pthread_mutex_t *m) { return ((mm *)m)->owner ? EBUSY : 0; }
int mc_pthread_mutex_lock(pthread_mutex_t *m)
{
   point(m, 1);
   while (((mm *)m)->owner) {
      fb[cur].st = F_BLOCK; fb[cur].on = m; fb[cur].in_cond = 0;
      give_up();
   }
   ((mm *)m)->owner = cur + 1;
   return 0;
}
int mc_pthread_mutex_trylock(pthread_mutex_t *m)
{
   point(m, 1);
   if (((mm *)m)->owner) return EBUSY;
   ((mm *)m)->owner = cur + 1;
   return 0;
}
int mc_pthread_mutex_unlock(pthread_mutex_t *m)
{
   if (((mm *)m)->owner != cur + 1) mc_violation("a mutex is released by a thread that does not hold it");
   ((mm *)m)->owner = 0;
   wake(m);
   point(m, 1);
   return 0;
}
int mc_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; memset(c, 0, sizeof *c); return 0; }
int mc_pthread_cond_destroy(pthread_cond_t *c)
{
   for (int i = 0; i < nf; i++) if (fb[i].st == F_BLOCK && fb[i].on == c && fb[i].in_cond) mc_violation("a condition variable is destroyed while a thread waits on it");
   return 0;
}
int mc_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
   if (((mm *)m)->owner != cur + 1) mc_violation("condition wait without holding the mutex");
   ((mm *)m)->owner = 0;
   wake(m);
   fb[cur].st = F_BLOCK; fb[cur].on = c; fb[cur].in_cond = 1;
   give_up();
   fb[cur].in_cond = 0;
   while (((mm *)m)->owner) { fb[cur].st = F_BLOCK; fb[cur].on = m; give_up(); }
   ((mm *)m)->owner = cur + 1;
   return 0;
}
int mc_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
   (void)c; (void)t;
   ((mm *)m)->owner = 0;
   wake(m);
   give_up();
   while (((mm *)m)->owner) { fb[cur].st = F_BLOCK; fb[cur].on = m; fb[cur].in_cond = 0; give_up(); }
   ((mm *)m)->owner = cur + 1;
   return ETIMEDOUT;
}
int mc_pthread_cond_signal(pthread_cond_t *c)
{
   int l[MAXF], k = 0;
   for (int d = 1; d <= nf; d++) { int i = (cur + d) % nf; if (fb[i].st == F_BLOCK && fb[i].on == c && fb[i].in_cond) l[k++] = i; }
   if (k) {
      int ch = 0;
      if (k > 1 && armed == 1 && round_no > 1) ch = mc_deviate(k, "signal-whom"); else mc_ev++;
      fb[l[ch]].st = F_RUN; fb[l[ch]].on = NULL;
   } else mc_ev++;
   point(c, 1);
   return 0;
}
int mc_pthread_cond_broadcast(pthread_cond_t *c)
{
   for (int i = 0; i < nf; i++) if (fb[i].st == F_BLOCK && fb[i].on == c && fb[i].in_cond) { fb[i].st = F_RUN; fb[i].on = NULL; }
   point(c, 1);
   return 0;
}
int mc_pthread_spin_init(pthread_spinlock_t *l, int sh) { (void)sh; *l = 0; return 0; }
int mc_pthread_spin_destroy(pthread_spinlock_t *l) { (void)l; return 0; }
int mc_pthread_spin_lock(pthread_spinlock_t *l)
{
   point(l, 1);
   while (*l) { fb[cur].st = F_BLOCK; fb[cur].on = (void *)l; fb[cur].in_cond = 0; give_up(); }
   *l = cur + 1;
   return 0;
}
int mc_pthread_spin_trylock(pthread_spinlock_t *l) { point(l, 1); if (*l) return EBUSY; *l = cur + 1; return 0; }
int mc_pthread_spin_unlock(pthread_spinlock_t *l)
{
   if (!*l) mc_violation("a spinlock that is not held is released");
   *l = 0; wake((void *)l); point(l, 1); return 0;
}
int mc_sem_init(sem_t *s, int sh, unsigned v) { (void)sh; memset(s, 0, sizeof *s); *(int *)s = v; return 0; }
int mc_sem_destroy(sem_t *s) { (void)s; return 0; }
int mc_sem_post(sem_t *s) { ++*(int *)s; wake(s); point(s, 1); return 0; }
int mc_sem_wait(sem_t *s) { point(s, 1); while (*(int *)s == 0) { fb[cur].st = F_BLOCK; fb[cur].on = s; fb[cur].in_cond = 0; give_up(); } --*(int *)s; return 0; }
int mc_sem_trywait(sem_t *s) { point(s, 1); if (*(int *)s == 0) { errno = EAGAIN; return -1; } --*(int *)s; return 0; }

/* ---- time ------------------------------------------------------------------ */
static uint64_t vtime = 1000000000ull;
int mc_clock_gettime(clockid_t c, struct timespec *t) { (void)c; vtime += 100; t->tv_sec = vtime / 1000000000ull; t->tv_nsec = vtime % 1000000000ull; return 0; }
int mc_clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { (void)c; (void)f; (void)r; vtime += t->tv_sec * 1000000000ull + t->tv_nsec; give_up(); return 0; }
int mc_nanosleep(const struct timespec *t, struct timespec *r) { (void)r; vtime += t->tv_sec * 1000000000ull + t->tv_nsec; give_up(); return 0; }
int mc_usleep(useconds_t u) { vtime += u * 1000ull; give_up(); return 0; }
int mc_sched_yield(void) { give_up(); return 0; }
/* one wait is a row of pauses: what counts is that others run meanwhile */
void mc_pause(void)
{
   vtime += 5;
   if (pauses[cur]++ % 32 == 0) give_up(); else { steps++; mc_ev++; }
}

/* ---- instrumentation callbacks (gcc -fsanitize=thread) ----------------------- */
/* ordinary accesses are no scheduling points (a program without data races is
 * not distinguished by them) unless a scenario asks for it (plain=1) */
static inline void plain(void *a, int n, int w)
{
   (void)n;
   if (!plain_on || !armed || nf == 1) return;
   uintptr_t x = (uintptr_t)a;
   if (fb[cur].stk && x - (uintptr_t)fb[cur].stk < STKSZ) return;
   if (tls_size && x - (uintptr_t)tls_base < tls_size) return;
   if (cur == 0 && x > (uintptr_t)&x - 4096 && x < (uintptr_t)&x + (8u << 20)) return;
   point((void *)(x & ~7ul), w);
}
#include "tsan_stubs.h"
void mc_io_point(void *a) { point(a, 1); }
