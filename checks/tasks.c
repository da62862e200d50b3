/* P07 (task queues) and P17 (thread identities). */
#include "pthr.h"
#include "comp.h"

/* ---- P07 ---------------------------------------------------------------- */
#define MAXT 64
typedef struct { int id, type, children, owner; volatile int queued, started, done; } tk;
static tk  tks[MAXT];
static int ntk;
static char *scratch_of[MAX_THREADS];
static int  scratch_busy[MAX_THREADS], running_tids[MAX_THREADS];
static uint64_t enq_seq;
static void work(void *arg, void *scratch);
static int new_task(int owner, int type, int children)
{
   if (ntk >= MAXT) mc_violation("harness: too many tasks");
   tk *k = &tks[ntk];
   *k = (tk){.id = ntk, .type = type, .children = children, .owner = owner};
   return ntk++;
}
static void enqueue(int id, int head)
{
   tks[id].queued = 1;
   platform_status rc = task_enqueue(ts, tks[id].type, work, &tks[id], head);
   if (!SUCCESS(rc)) mc_violation("task_enqueue failed: %d", rc.r);
   tks[id].queued = 2;
}
static void work(void *arg, void *scratch)
{
   tk *k = arg;
   mc_count_check(3);
   if (k < tks || k >= tks + ntk) mc_violation("a task runs with an argument nobody queued");
   if (!k->queued) mc_violation("task %d runs before it was queued", k->id);
   if (k->started++) mc_violation("task %d is executed twice", k->id);
   threadid t = platform_get_tid();
   if (t >= MAX_THREADS) mc_violation("task %d runs on a thread without an identity", k->id);
   if (tcfg.scratch_size) {
      if (scratch != task_system_get_thread_scratch(ts, t)) mc_violation("task %d is given another thread's scratch memory", k->id);
      if (!scratch) mc_violation("task %d is given no scratch memory", k->id);
      for (int i = 0; i < 8; i++) ((char *)scratch)[i] = k->id;
   }
   if (running_tids[t]) mc_violation("two tasks run on one thread identity at the same time");
   running_tids[t] = 1;
   mc_outcome(k->id * 8 + t);
   mc_yield();
   if (tcfg.scratch_size) for (int i = 0; i < 8; i++) if (((char *)scratch)[i] != k->id) mc_violation("the scratch memory of task %d was used by another task meanwhile", k->id);
   for (int c = 0; c < k->children; c++) { int id = new_task(k->owner, c ? TASK_TYPE_NORMAL : k->type, 0); enqueue(id, c & 1); }
   running_tids[t] = 0;
   k->done = 1;
}
static void step(int t, char op, long a, long b)
{
   platform_status rc;
   switch (op) {
      case 'e': enqueue(new_task(t, a & 1 ? TASK_TYPE_MEMTABLE : TASK_TYPE_NORMAL, b), 0); break;
      case 'h': enqueue(new_task(t, a & 1 ? TASK_TYPE_MEMTABLE : TASK_TYPE_NORMAL, b), 1); break;
      case 'x': rc = task_perform_one(ts); if (!SUCCESS(rc) && !STATUS_IS_EQ(rc, STATUS_TIMEDOUT)) mc_violation("task_perform_one: %d", rc.r); break;
      case 'n': rc = task_perform_one_if_needed(ts, a); if (!SUCCESS(rc) && !STATUS_IS_EQ(rc, STATUS_TIMEDOUT)) mc_violation("task_perform_one_if_needed: %d", rc.r); break;
      case 'A': task_perform_all(ts); break;
      case 'q': {
         int before = ntk; char q[MAXT];
         for (int i = 0; i < before; i++) q[i] = tks[i].queued == 2;
         rc = task_perform_until_quiescent(ts);
         if (!SUCCESS(rc)) mc_violation("task_perform_until_quiescent: %d", rc.r);
         mc_count_check(before);
         for (int i = 0; i < before; i++) if (q[i] && !tks[i].done) mc_violation("waiting for idleness returned while task %d, queued before the call, has not finished", i);
         break; }
      case 'i': { /* idle claim: everything queued before the call must be done */
         int before = ntk; char q[MAXT];
         for (int i = 0; i < before; i++) q[i] = tks[i].queued == 2;
         int idle = task_system_is_quiescent(ts);
         mc_count_check(1);
         if (idle) for (int i = 0; i < before; i++) if (q[i] && !tks[i].done) mc_violation("the system says it is idle while task %d has not finished", i);
         break; }
      case 'w': task_wait_for_completion(ts); break;
      default: mc_violation("harness: bad letter %c", op);
   }
}
static void s_tasks(void)
{
   stack_io(0);
   int armt = mc_argi("armall", 0);
   stack_tasks(mc_argi("bgm", 0), mc_argi("bgn", 0), mc_argi("scratch", 64), mc_argi("stats", 0));
   prog_step = step;
   progs_split(mc_arg("prog", "e0|x"));
   char *pre = (char *)mc_arg("pre", "");
   prog_run(15, pre);
   /* main takes part too: last program */
   int tid[8];
   mc_set_budget(mc_argi("b", 1));
   mc_set_horizon(2000000);
   for (int i = 0; i < nprogs - 1; i++) tid[i] = mc_spawn(prog_thr, (void *)(intptr_t)i);
   mc_sched_arm(1);
   prog_run(nprogs - 1, progs[nprogs - 1]);
   for (int i = 0; i < nprogs - 1; i++) mc_join(tid[i]);
   if (!armt) mc_sched_arm(0);
   task_perform_until_quiescent(ts);
   for (int i = 0; i < ntk; i++) {
      mc_count_check(1);
      if (!tks[i].done) mc_violation("task %d was lost: the system is idle but it was never executed", i);
   }
   if (!task_system_is_quiescent(ts)) mc_violation("not idle although every task has finished");
   task_system_destroy(hid, &ts);
   mc_sched_arm(0);
   if (ts) mc_violation("destroying the task system left a handle");
   io_down();
   check_released("after the task system is destroyed");
}
/* ---- P17 ---------------------------------------------------------------- */
static int live[MAX_THREADS];      /* identity -> thread that certainly has it */
static int maybe, sure;            /* threads that may hold / certainly hold one */
static int maybe_peak_ev;
static int low_water[16];          /* per program: fewest possible holders seen while it was asking */
static int asking[16];
static void note_level(void) { for (int i = 0; i < 16; i++) if (asking[i] && maybe - 1 < low_water[i]) {} }
static int hi_water[16];
static void level_up(void) { for (int i = 0; i < 16; i++) if (asking[i] && maybe > hi_water[i]) hi_water[i] = maybe; }
static int got[16];
static void body(void *a) { (void)a; }
static void take(int t)
{
   threadid id = platform_get_tid();
   mc_count_check(2);
   if (id >= MAX_THREADS) mc_violation("a registered thread has no identity");
   if (live[id]) mc_violation("identity %lu is given to two live threads", id);
   live[id] = 1;
   mc_outcome(id);
   if (tcfg.scratch_size) {
      char *s = task_system_get_thread_scratch(ts, id);
      if (!s) mc_violation("a registered thread has no scratch memory");
      for (int i = 0; i < (int)tcfg.scratch_size; i++) if (s[i]) mc_violation("the scratch memory of a new thread is not clean");
      memset(s, 0x40 + t, tcfg.scratch_size);
   }
   /* the thread must be able to do I/O */
   static char buf[16][4096] __attribute__((aligned(4096)));
   io_async_req *r = io_get_async_req((io_handle *)iohp, 0);
   (void)buf;
   if (r) { r->ctx_idx = INVALID_TID; }
   io_cleanup((io_handle *)iohp, 1);
}
static void give(int t)
{
   threadid id = platform_get_tid();
   if (tcfg.scratch_size) {
      char *s = task_system_get_thread_scratch(ts, id);
      for (int i = 0; i < (int)tcfg.scratch_size; i++) if (s[i] != 0x40 + t) mc_violation("a thread's scratch memory was changed by another thread");
   }
   live[id] = 0;
}
static void worker(void *a)
{
   int t = (int)(intptr_t)a;
   take(t); mc_yield(); give(t);
}
static int nfill;
static void step17(int t, char op, long a, long b)
{
   (void)b;
   platform_status rc;
   switch (op) {
      case 'r': /* register; may be refused only when all identities may be taken */
         maybe++; level_up(); asking[t] = 1; hi_water[t] = maybe;
         rc = task_register_this_thread(ts, tcfg.scratch_size);
         asking[t] = 0;
         got[t] = SUCCESS(rc);
         mc_outcome(got[t]);
         if (got[t]) take(t);
         else {
            mc_count_check(1);
            if (hi_water[t] <= MAX_THREADS && !sim_faults_injected) mc_violation("a thread was refused an identity although at most %d of %d could be in use", hi_water[t] - 1, (int)MAX_THREADS);
            maybe--;
         }
         break;
      case 'd': if (got[t]) { give(t); task_deregister_this_thread(ts); maybe--; got[t] = 0; } break;
      case 'c': { /* a thread made by the library */
         platform_thread th;
         maybe++; level_up(); asking[t] = 1; hi_water[t] = maybe;
         rc = task_thread_create("w", worker, (void *)(intptr_t)(t + 20), tcfg.scratch_size, ts, hid, &th);
         asking[t] = 0;
         if (SUCCESS(rc)) platform_thread_join(th);
         else { if (hi_water[t] <= MAX_THREADS && !sim_faults_injected) mc_violation("the library could not make a thread although at most %d of %d identities could be in use", hi_water[t] - 1, (int)MAX_THREADS); }
         maybe--;
         break; }
      case 'y': mc_yield(); break;
      default: mc_violation("harness: bad letter %c", op);
   }
}
static void *filler(void *a)
{
   /* holds an identity until told to go */
   platform_status rc = task_register_this_thread(ts, tcfg.scratch_size);
   if (!SUCCESS(rc)) mc_violation("thread %d could not register: %d", (int)(intptr_t)a, rc.r);
   threadid id = platform_get_tid();
   if (live[id]) mc_violation("identity %lu is given to two live threads", id);
   live[id] = 1;
   nfill++;
   platform_set_tid(INVALID_TID);
   return (void *)(intptr_t)id;
}
static void s_threads(void)
{
   stack_io(0);
   stack_tasks(0, 0, mc_argi("scratch", 32), 0);
   live[platform_get_tid()] = 1;
   maybe = 1;
   int fill = mc_argi("fill", 0);
   threadid me = platform_get_tid(), ids[MAX_THREADS];
   for (int i = 0; i < fill; i++) { int t = mc_spawn(filler, (void *)(intptr_t)i); mc_join(t); }
   maybe += fill;
   if (nfill != fill) mc_violation("harness: fill");
   prog_step = step17;
   prog_register = 0;
   progs_split(mc_arg("prog", "r,d|r,d"));
   sim_fault_mask = mc_argi("fault", 0) ? F_ALLOC : 0;
   progs_go();
   sim_fault_mask = 0;
   /* give everything back */
   int n = 0;
   for (threadid i = 0; i < MAX_THREADS; i++) if (live[i] && i != me) { platform_set_tid(i); task_deregister_this_thread(ts); live[i] = 0; n++; }
   platform_set_tid(me);
   /* all identities are free again: exactly all of them can be taken */
   for (int i = 0; i < MAX_THREADS - 1; i++) {
      platform_set_tid(INVALID_TID);
      platform_status rc = task_register_this_thread(ts, 0);
      mc_count_check(1);
      if (!SUCCESS(rc)) mc_violation("only %d of %d identities can be used again", i + 1, (int)MAX_THREADS);
      ids[i] = platform_get_tid();
      if (ids[i] == me) mc_violation("an identity in use was handed out");
      for (int j = 0; j < i; j++) if (ids[j] == ids[i]) mc_violation("identity %lu was handed out twice", ids[i]);
   }
   platform_set_tid(INVALID_TID);
   platform_status rc = task_register_this_thread(ts, 0);
   if (SUCCESS(rc)) mc_violation("more identities handed out than there are");
   for (int i = 0; i < MAX_THREADS - 1; i++) { platform_set_tid(ids[i]); task_deregister_this_thread(ts); }
   platform_set_tid(me);
   task_system_destroy(hid, &ts);
   io_down();
   check_released("after the task system is destroyed");
}
mc_scenario mc_scenarios[] = {{"tasks", s_tasks}, {"threads", s_threads}, {0}};
