/* A stack of the library's own layers without the tree on top:
 * I/O handle, task system, extent allocator, page cache. */
#pragma once
#include "common.h"
#include "laio.h"
#include "task.h"
#include "rc_allocator.h"
#include "clockcache.h"
#include "trunk.h"

static platform_heap_id   hid;
static io_config          iocfg;
static laio_handle       *iohp; /* large: keep it off the BSS of every fork */
static task_system       *ts;
static task_system_config tcfg;
static allocator_config   acfg;
static rc_allocator       al;
static clockcache_config  cccfg;
static clockcache         cch;
#define CC ((cache *)&cch)
#define AL ((allocator *)&al)
#define PG 4096ul
#define EX (128ul * 1024)

static void stack_io(int qdepth)
{
   capture_logs();
   iohp = calloc(1, sizeof *iohp);
   io_config_init(&iocfg, PG, EX, O_RDWR | O_CREAT, 0600, qdepth ? qdepth : 64, SIM_DISK);
   platform_status rc = io_handle_init(iohp, &iocfg, hid);
   if (!SUCCESS(rc)) mc_violation("io_handle_init failed: %d", rc.r);
}
static void stack_tasks(int bgm, int bgn, uint64 scratch, int stats)
{
   uint64 nb[NUM_TASK_TYPES] = {0};
   nb[TASK_TYPE_MEMTABLE]    = bgm;
   nb[TASK_TYPE_NORMAL]      = bgn;
   platform_status rc = task_system_config_init(&tcfg, stats, nb, scratch);
   if (!SUCCESS(rc)) mc_violation("task_system_config_init failed: %d", rc.r);
   rc = task_system_create(hid, iohp, &ts, &tcfg);
   if (!SUCCESS(rc)) mc_violation("task_system_create failed: %d", rc.r);
}
static void stack_al(int extents)
{
   allocator_config_init(&acfg, &iocfg, extents * EX);
   platform_status rc = rc_allocator_init(&al, &acfg, (io_handle *)iohp, hid, platform_get_module_id());
   if (!SUCCESS(rc)) mc_violation("rc_allocator_init failed: %d", rc.r);
}
static void stack_cc(int pages, int stats)
{
   clockcache_config_init(&cccfg, &iocfg, pages * PG, "/dev/null", stats);
   platform_status rc = clockcache_init(&cch, &cccfg, (io_handle *)iohp, AL, "mc", hid, platform_get_module_id());
   if (!SUCCESS(rc)) mc_violation("clockcache_init failed: %d", rc.r);
}
static void stack_up(int extents, int pages, int qdepth, int bgm, int bgn)
{
   stack_io(qdepth);
   stack_tasks(bgm, bgn, trunk_get_scratch_size(), 0);
   stack_al(extents);
   stack_cc(pages, 0);
}
/* throw the cached pages away and start again from the device */
static void cc_restart(int pages)
{
   clockcache_deinit(&cch);
   stack_cc(pages, 0);
}
static void io_down(void)
{
   io_handle_deinit(iohp);
   free(iohp);
}
static void stack_down(void)
{
   clockcache_deinit(&cch);
   rc_allocator_deinit(&al);
   task_system_destroy(hid, &ts);
   io_down();
   check_released("after taking the stack down");
}
/* ---- threads that run little programs ------------------------------------- */
static char *progs[16];
static int   nprogs, pfinished;
static void (*prog_step)(int t, char op, long a, long b);
static int  prog_register = 1;
static void progs_split(const char *s)
{
   static char buf[1024];
   snprintf(buf, sizeof buf, "%s", s);
   for (char *q = strtok(buf, "|"); q; q = strtok(NULL, "|")) progs[nprogs++] = q;
}
static void prog_run(int t, const char *p)
{
   while (*p) {
      char c = *p++;
      long a = strtol(p, (char **)&p, 10), b = 0;
      if (*p == '.') b = strtol(p + 1, (char **)&p, 10);
      if (*p == ',') p++;
      mc_arm_watchdog(0);
      mc_count_op(1);
      mc_trace("t%d: %c%ld.%ld", t, c, a, b);
      prog_step(t, c, a, b);
   }
}
static void *prog_thr(void *x)
{
   int t = (int)(intptr_t)x;
   if (prog_register) {
      platform_status rc = task_register_this_thread(ts, tcfg.scratch_size);
      if (!SUCCESS(rc)) mc_violation("a thread could not register: %d", rc.r);
   }
   prog_run(t, progs[t]);
   if (prog_register) task_deregister_this_thread(ts);
   pfinished++;
   return NULL;
}
static void progs_go(void)
{
   int tid[16];
   mc_set_budget(mc_argi("b", 1));
   mc_set_horizon(mc_argi("horizon", 2000000));
   int first = mc_argi("perm", 1) ? mc_choose(nprogs, "first") : 0;
   for (int i = 0; i < nprogs; i++) tid[i] = mc_spawn(prog_thr, (void *)(intptr_t)((first + i) % nprogs));
   if (mc_argi("arm", 1)) mc_sched_arm(1); /* otherwise the programs say when */
   for (int i = 0; i < nprogs; i++) mc_join(tid[i]);
   mc_sched_arm(0);
   mc_arm_watchdog(0);
}
