/* P16: the library's reader-writer lock, mutexes, spin locks and condition
 * variables. */
#include "pthr.h"
#include "comp.h"
static platform_batch_rwlock *L;
static int nr[4], ncl[4], nw[4];          /* who is inside, per lock index */
static int claim_span[4];                 /* threads between asking for and having given up a claim */
static uint64_t claim_ev[4];              /* changes of the above */
static char inside_[4];
#define IN(x) mc_io_point(&inside_[x]) /* time passes inside */
static void enter_r(int x) { if (nw[x]) mc_violation("a thread reads while another holds the lock exclusively"); nr[x]++; mc_count_check(1); }
static void leave_r(int x) { if (nw[x]) mc_violation("a thread got the lock exclusively while another was reading"); nr[x]--; }
static void enter_c(int x) { if (ncl[x]) mc_violation("two threads hold a claim on one lock"); if (nw[x]) mc_violation("a thread claims while another holds the lock exclusively"); ncl[x]++; mc_count_check(1); }
static void leave_c(int x) { if (ncl[x] != 1) mc_violation("two threads held a claim on one lock"); ncl[x]--; }
static void enter_w(int x)
{
   mc_count_check(1);
   if (nr[x]) mc_violation("exclusive access granted with %d readers inside", nr[x]);
   if (nw[x]) mc_violation("exclusive access granted to two threads");
   if (ncl[x]) mc_violation("exclusive access granted while another thread holds a claim");
   nw[x] = 1;
}
static void leave_w(int x) { if (nr[x] || ncl[x] || nw[x] != 1) mc_violation("another thread came in while the lock was held exclusively"); nw[x] = 0; }
static void step(int t, char op, long x, long b)
{
   (void)t; (void)b;
   switch (op) {
      case 'r': platform_batch_rwlock_get(L, x); enter_r(x); IN(x); mc_outcome('r' * 16 + t); leave_r(x); platform_batch_rwlock_unget(L, x); break;
      case 'n': /* two indexes at a time */
         platform_batch_rwlock_get(L, x); enter_r(x);
         platform_batch_rwlock_get(L, x + 1); enter_r(x + 1);
         IN(x + 1); leave_r(x + 1); platform_batch_rwlock_unget(L, x + 1);
         IN(x); leave_r(x); platform_batch_rwlock_unget(L, x); break;
      case 'w': platform_batch_rwlock_get(L, x); claim_span[x]++; claim_ev[x]++; platform_batch_rwlock_claim_loop(L, x); platform_batch_rwlock_lock(L, x); enter_w(x); IN(x); mc_outcome('w' * 16 + t); leave_w(x); platform_batch_rwlock_full_unlock(L, x); claim_span[x]--; break;
      case 'm': /* claim, look, give up */
         platform_batch_rwlock_get(L, x); claim_span[x]++; claim_ev[x]++;
         platform_batch_rwlock_claim_loop(L, x); enter_c(x); IN(x); mc_outcome('m' * 16 + t); leave_c(x); platform_batch_rwlock_unclaim(L, x); claim_span[x]--; enter_r(x); IN(x); leave_r(x); platform_batch_rwlock_unget(L, x); break;
      case 'u': /* claim, then upgrade, then back down step by step */
         platform_batch_rwlock_get(L, x); claim_span[x]++; claim_ev[x]++;
         platform_batch_rwlock_claim_loop(L, x); enter_c(x); IN(x); leave_c(x);
         platform_batch_rwlock_lock(L, x); enter_w(x); IN(x); leave_w(x); platform_batch_rwlock_unlock(L, x); enter_c(x); IN(x); leave_c(x); platform_batch_rwlock_unclaim(L, x); claim_span[x]--; enter_r(x); IN(x); leave_r(x); platform_batch_rwlock_unget(L, x); break;
      case 'c': { /* one attempt */
         platform_batch_rwlock_get(L, x);
         int others = claim_span[x]; uint64_t ev = claim_ev[x];
         claim_span[x]++; claim_ev[x]++;
         int ok = platform_batch_rwlock_try_claim(L, x);
         if (!ok && !others && claim_ev[x] == ev + 1) mc_violation("an attempt to claim failed although no other thread held or wanted a claim");
         mc_outcome(ok);
         if (ok) { enter_c(x); IN(x); leave_c(x); platform_batch_rwlock_lock(L, x); enter_w(x); IN(x); leave_w(x); platform_batch_rwlock_full_unlock(L, x); }
         else { enter_r(x); IN(x); leave_r(x); platform_batch_rwlock_unget(L, x); }
         claim_span[x]--;
         break; }
      default: mc_violation("harness: bad letter %c", op);
   }
}
static void at_rest(void)
{
   for (int x = 0; x < 2; x++) {
      mc_count_check(1);
      if (L->write_lock[x].lock || L->write_lock[x].claim) mc_violation("the lock is still held after everybody released it");
      for (int i = 0; i < MAX_THREADS; i++) if (L->read_counter[i][x]) mc_violation("a reader is still counted after everybody released the lock");
   }
}
static void s_rw(void)
{
   stack_io(0);
   stack_tasks(0, 0, 0, 0);
   L = aligned_alloc(64, sizeof *L);
   platform_batch_rwlock_init(L);
   prog_step = step;
   progs_split(mc_arg("prog", "r|w"));
   progs_go();
   at_rest();
   task_system_destroy(hid, &ts);
   io_down();
   check_released("at the end");
}
/* ---- mutex, spin lock, condition variable ------------------------------- */
static platform_mutex    mu;
static platform_spinlock sp;
static platform_condvar  cv;
static int  inside, turns, queue_n, produced, consumed;
static void crit(int *in) { if (*in) mc_violation("two threads inside a critical section"); *in = 1; turns++; mc_yield(); if (*in != 1) mc_violation("two threads inside a critical section"); *in = 0; mc_count_check(1); }
static int in_m, in_s;
static void step2(int t, char op, long n, long b)
{
   (void)b;
   switch (op) {
      case 'm': platform_mutex_lock(&mu); mc_outcome(t); crit(&in_m); platform_mutex_unlock(&mu); break;
      case 's': platform_spin_lock(&sp); mc_outcome(t); crit(&in_s); platform_spin_unlock(&sp); break;
      case 'p': platform_condvar_lock(&cv); if (inside) mc_violation("two threads inside a critical section"); queue_n++; produced++; platform_condvar_signal(&cv); platform_condvar_unlock(&cv); mc_count_check(1); break;
      case 'B': platform_condvar_lock(&cv); queue_n += n; produced += n; platform_condvar_broadcast(&cv); platform_condvar_unlock(&cv); break;
      case 'c':
         platform_condvar_lock(&cv);
         while (queue_n == 0) { inside = 0; platform_condvar_wait(&cv); }
         if (inside) mc_violation("two threads inside a critical section");
         inside = 1; mc_yield(); inside = 0;
         queue_n--; consumed++; mc_outcome(t);
         platform_condvar_unlock(&cv);
         break;
      default: mc_violation("harness: bad letter %c", op);
   }
}
static void s_prim(void)
{
   capture_logs();
   platform_mutex_init(&mu, platform_get_module_id(), hid);
   platform_spinlock_init(&sp, platform_get_module_id(), hid);
   if (!SUCCESS(platform_condvar_init(&cv, hid))) mc_violation("condvar init failed");
   prog_step = step2;
   prog_register = 0;
   progs_split(mc_arg("prog", "m|m"));
   progs_go();
   if (produced != consumed) mc_violation("%d produced, %d consumed", produced, consumed);
   platform_mutex_destroy(&mu);
   platform_spinlock_destroy(&sp);
   platform_condvar_destroy(&cv);
}
mc_scenario mc_scenarios[] = {{"rw", s_rw}, {"prim", s_prim}, {0}};
