/* P09: the extent allocator and the page allocator on top of it. */
#include "pthr.h"
#include "comp.h"
#include "mini_allocator.h"

#define MAXEX 4096
static int refs[MAXEX];     /* reference model: 0 free, otherwise the count */
static int reserved, E;
static uint64 sup[64];      /* super addresses by id */
static void remount(void)
{
   rc_allocator_unmount(&al);
   platform_status rc = rc_allocator_mount(&al, &acfg, (io_handle *)iohp, hid, platform_get_module_id());
   if (!SUCCESS(rc)) mc_violation("mount failed: %d", rc.r);
}
static int in_use_model(void) { int n = 0; for (int i = 0; i < E; i++) n += refs[i] != 0; return n; }
static void verify(void)
{
   int n = in_use_model();
   mc_count_check(E + 1);
   if (allocator_in_use(AL) != n) mc_violation("the allocator says %lu extents are in use but %d are", allocator_in_use(AL), n);
   for (int i = reserved; i < E; i++) if (allocator_get_refcount(AL, i * EX) != refs[i]) mc_violation("extent %d has reference count %d but it is referenced %d times", i, allocator_get_refcount(AL, i * EX), refs[i]);
}
static void m_alloc(page_type t)
{
   uint64 a = 12345;
   platform_status rc = allocator_alloc(AL, &a, t);
   mc_count_check(1);
   if (!SUCCESS(rc)) {
      if (in_use_model() != E) mc_violation("allocation failed although %d of %d extents are in use", in_use_model(), E);
      return;
   }
   if (a % EX || a / EX >= E) mc_violation("allocated extent at address %lu is not an extent of the device", a);
   if (refs[a / EX]) mc_violation("extent %lu was handed out although it is still in use", a / EX);
   refs[a / EX] = 2;
}
static int nth_live(int k) { for (int i = reserved; i < E; i++) if (refs[i] && k-- == 0) return i; return -1; }
static void setup(void)
{
   E = mc_argi("ext", 6);
   stack_io(0);
   stack_tasks(0, 0, 0, 0);
   stack_al(E);
   reserved = 1 + (ROUNDUP(E, 4096) + EX - 1) / EX;
   for (int i = 0; i < reserved; i++) refs[i] = 2;
   /* the tree always records its root here first, which writes the page */
   platform_status rc = allocator_alloc_super_addr(AL, 1000, &sup[63]);
   if (!SUCCESS(rc)) mc_violation("the first root was refused");
}
static void finish(void)
{
   mc_arm_watchdog(0);
   verify();
   remount();
   verify();
   for (int i = reserved; i < E; i++) while (refs[i]) { uint8 r = allocator_dec_ref(AL, i * EX, PAGE_TYPE_BRANCH); refs[i]--; if (r != refs[i]) mc_violation("dropping a reference of extent %d leaves %d, expected %d", i, r, refs[i]); }
   verify();
   /* everything can be taken again, each exactly once */
   for (int i = 0; i < E - reserved; i++) m_alloc(PAGE_TYPE_TRUNK);
   if (in_use_model() != E) mc_violation("only %d of %d free extents could be allocated", in_use_model() - reserved, E - reserved);
   m_alloc(PAGE_TYPE_TRUNK);
   verify();
   rc_allocator_deinit(&al);
   task_system_destroy(hid, &ts);
   io_down();
   check_released("at the end");
}
static void s_seq(void)
{
   setup();
   int d = mc_argi("d", 5);
   for (int q = 0; q < d; q++) {
      int live = in_use_model() - reserved;
      int c    = mc_choose(8, "op"), i, r;
      mc_arm_watchdog(0);
      mc_count_op(1);
      switch (c) {
         case 0: m_alloc(PAGE_TYPE_BRANCH); break;
         case 1: m_alloc(PAGE_TYPE_LOG); m_alloc(PAGE_TYPE_TRUNK); break;
         case 2: case 3: /* new reference to the oldest / newest */
            if (!live) mc_prune();
            i = nth_live(c == 2 ? 0 : live - 1);
            r = allocator_inc_ref(AL, i * EX);
            if (r != ++refs[i]) mc_violation("taking a reference of extent %d gives %d, expected %d", i, r, refs[i]);
            break;
         case 4: case 5: /* drop one */
            if (!live) mc_prune();
            i = nth_live(c == 4 ? 0 : live - 1);
            r = allocator_dec_ref(AL, i * EX, PAGE_TYPE_BRANCH);
            if (r != --refs[i]) mc_violation("dropping a reference of extent %d leaves %d, expected %d", i, r, refs[i]);
            break;
         case 6: remount(); break;
         case 7: /* drop all of the middle one */
            if (!live) mc_prune();
            i = nth_live(live / 2);
            while (refs[i]) { r = allocator_dec_ref(AL, i * EX, PAGE_TYPE_BRANCH); if (r != --refs[i]) mc_violation("dropping a reference of extent %d leaves %d, expected %d", i, r, refs[i]); }
            break;
      }
      verify();
   }
   int h = 0;
   for (int i = 0; i < E; i++) h = h * 31 + refs[i];
   mc_outcome(h);
   finish();
}
/* root identifiers -> their fixed pages */
static void s_super(void)
{
   setup();
   int d = mc_argi("d", 5), pre = mc_argi("pre", 0);
   for (int i = 1; i <= pre; i++) { uint64 a; platform_status rc = allocator_alloc_super_addr(AL, 100 + i, &a); if (!SUCCESS(rc)) mc_violation("root %d refused", i); sup[30 + i] = a; }
   for (int q = 0; q < d; q++) {
      int id = 1 + mc_choose(3, "id"), c = mc_choose(3, "op"), n = 0;
      uint64 a = 0;
      platform_status rc;
      mc_count_op(1);
      for (int i = 0; i < 64; i++) n += sup[i] != 0;
      switch (c) {
         case 0:
            if (sup[id]) mc_prune();
            rc = allocator_alloc_super_addr(AL, id, &a);
            if (!SUCCESS(rc)) { if (n < RC_ALLOCATOR_MAX_ROOT_IDS) mc_violation("a root was refused with %d in use", n); break; }
            if (n >= RC_ALLOCATOR_MAX_ROOT_IDS) mc_violation("more roots than fit");
            if (a % PG || a == 0 || a >= EX) mc_violation("root page at %lu is not in the first extent", a);
            for (int i = 0; i < 64; i++) if (sup[i] == a) mc_violation("one page given to two roots");
            sup[id] = a;
            break;
         case 1:
            if (!sup[id]) mc_prune();
            allocator_remove_super_addr(AL, id);
            sup[id] = 0;
            break;
         case 2: remount(); break;
      }
      for (int i = 1; i <= 3; i++) {
         rc = allocator_get_super_addr(AL, i, &a);
         mc_count_check(1);
         if (SUCCESS(rc) != (sup[i] != 0)) mc_violation("root %d is %s", i, sup[i] ? "lost" : "found although it was removed");
         if (sup[i] && a != sup[i]) mc_violation("root %d moved from %lu to %lu", i, sup[i], a);
      }
   }
   for (int i = 1; i <= 3; i++) mc_outcome(sup[i]);
   finish();
}
/* concurrent */
static uint64 own[16][8];
static int    owned_by[MAXEX];
static int    sharedx = -1;
static int    asking;
static int    stamp[MAXEX];              /* changes whenever the extent is taken or given back */
static void step(int t, char op, long k, long b)
{
   (void)b;
   platform_status rc;
   uint64 a;
   int r;
   switch (op) {
      case 'a':
      {
         /* An extent that is free from the call to its return must be found,
          * unless it is about to go to another thread that is asking too. */
         int s0[64];
         for (int i = 0; i < E; i++) s0[i] = allocator_get_refcount(AL, i * EX) ? -1 : stamp[i];
         asking++;
         rc = allocator_alloc(AL, &a, PAGE_TYPE_BRANCH);
         asking--;
         mc_count_check(1);
         if (!SUCCESS(rc)) {
            own[t][k] = 0;
            mc_outcome(7777 + t);
            int nfree = 0;
            for (int i = reserved; i < E; i++) nfree += s0[i] >= 0 && s0[i] == stamp[i] && !allocator_get_refcount(AL, i * EX);
            if (nfree > asking) mc_violation("allocation failed although %d extents were free all the time and %d other threads were asking", nfree, asking);
            break;
         }
         stamp[a / EX]++;
      }
         if (a % EX || a / EX >= E || a / EX < reserved) mc_violation("allocated extent at address %lu is not a free extent of the device", a);
         if (owned_by[a / EX]) mc_violation("extent %lu was handed out to two threads", a / EX);
         owned_by[a / EX] = t + 1;
         own[t][k] = a;
         mc_outcome(a / EX * 16 + t);
         break;
      case 'f': /* drop both references, as the tree does */
         if (!(a = own[t][k])) break;
         if ((r = allocator_dec_ref(AL, a, PAGE_TYPE_BRANCH)) != AL_NO_REFS) mc_violation("the last reference leaves count %d", r);
         if (owned_by[a / EX] != t + 1) mc_violation("an extent in use was handed out again");
         owned_by[a / EX] = 0;
         stamp[a / EX]++;
         if ((r = allocator_dec_ref(AL, a, PAGE_TYPE_BRANCH)) != AL_FREE) mc_violation("releasing an extent leaves count %d", r);
         stamp[a / EX]++;
         own[t][k] = 0;
         break;
      case 'g': if (own[t][k]) { if (allocator_get_refcount(AL, own[t][k]) != 2) mc_violation("an extent this thread owns has count %d", allocator_get_refcount(AL, own[t][k])); } break;
      case 'I': allocator_inc_ref(AL, sharedx * EX); refs[sharedx]++; break;
      case 'D': refs[sharedx]--; allocator_dec_ref(AL, sharedx * EX, PAGE_TYPE_BRANCH); break;
      case 'S': sup[10 + t] = 0; rc = allocator_alloc_super_addr(AL, 1 + t, &a); if (!SUCCESS(rc)) mc_violation("a root was refused"); for (int i = 0; i < 64; i++) if (sup[i] == a) mc_violation("one page given to two roots"); sup[10 + t] = a; break;
      case 'G': if (sup[10 + t]) { rc = allocator_get_super_addr(AL, 1 + t, &a); if (!SUCCESS(rc) || a != sup[10 + t]) mc_violation("a root was lost"); } break;
      case 'X': if (sup[10 + t]) { sup[10 + t] = 0; allocator_remove_super_addr(AL, 1 + t); } break;
      default: mc_violation("harness: bad letter %c", op);
   }
}
static void s_conc(void)
{
   setup();
   int fill = mc_argi("fill", 0);
   uint64 a;
   for (int i = 0; i < fill; i++) m_alloc(PAGE_TYPE_BRANCH);
   allocator_alloc(AL, &a, PAGE_TYPE_BRANCH);
   sharedx = a / EX; refs[sharedx] = 2;
   for (int i = 0; i < 4; i++) { allocator_inc_ref(AL, a); refs[sharedx]++; }
   for (int i = 0; i < E; i++) owned_by[i] = refs[i] ? 99 : 0;
   prog_step = step;
   progs_split(mc_arg("prog", "a,f|a,f"));
   progs_go();
   for (int t = 0; t < 16; t++) for (int k = 0; k < 8; k++) if (own[t][k]) refs[own[t][k] / EX] = 2;
   finish();
}
/* ---- pages out of extents ------------------------------------------------- */
static data_config dcf;
static mini_allocator mini;
static char *pg;            /* page number -> owner + 1 */
static uint64 lastpg[16];
static int keyed, nb;
static key mk(int i) { static char b[64][32]; static int n; char *p = b[n++ % 64]; int l = sprintf(p, "k%06d", i); return key_create(l, p); }
static uint64 *pages; static int npages, *pkey, *pbatch;
static uint64 mini_take(int t, int batch, int k)
{
   uint64 next = 1;
   uint64 a = mini_alloc(&mini, batch, keyed ? mk(k) : NULL_KEY, &next);
   mc_count_check(1);
   if (a % PG || a / EX >= E || a / EX < reserved) mc_violation("page at %lu is outside the free space of the device", a);
   if (pg[a / PG]) mc_violation("page %lu was handed out twice", a / PG);
   if (allocator_get_refcount(AL, a / EX * EX) < 2) mc_violation("page %lu belongs to an extent that is not allocated", a / PG);
   pg[a / PG] = t + 1;
   if (npages < 20000) { pages[npages] = a; pkey[npages] = k; pbatch[npages++] = batch; }
   /* the page is really usable */
   page_handle *p = cache_alloc(CC, a, PAGE_TYPE_BRANCH);
   memset(p->data, t + 1, PG);
   cache_unlock(CC, p); cache_unclaim(CC, p); cache_unget(CC, p);
   return a;
}
static uint64 base_use;
static void mini_setup(void)
{
   E = mc_argi("ext", 64);
   stack_up(E, mc_argi("pages", 1024), 0, 0, 0);
   reserved = 1 + (ROUNDUP(E, 4096) + EX - 1) / EX;
   default_data_config_init(64, &dcf);
   pg = calloc(1, E * (EX / PG));
   pages = malloc(20000 * sizeof *pages); pkey = malloc(20000 * 4); pbatch = malloc(20000 * 4);
   keyed = mc_argi("keyed", keyed);
   nb    = mc_argi("nb", 2);
   base_use = allocator_in_use(AL);
   uint64 mh;
   allocator_alloc(AL, &mh, PAGE_TYPE_BRANCH);
   mini_init(&mini, CC, &dcf, mh, 0, nb, PAGE_TYPE_BRANCH, keyed);
   for (int i = 0; i < EX / PG; i++) pg[mh / PG + i] = 77; /* bookkeeping pages */
}
static void pages_intact(const char *when)
{
   for (int i = 0; i < npages; i += mc_argi("stride", 7)) {
      if (!pg[pages[i] / PG]) continue;
      page_handle *p = cache_get(CC, pages[i], TRUE, PAGE_TYPE_BRANCH);
      mc_count_check(1);
      if (p->data[5] != pg[pages[i] / PG]) mc_violation("%s: the contents of page %lu changed", when, pages[i] / PG);
      cache_unget(CC, p);
   }
}
static void stepm(int t, char op, long a, long b)
{
   switch (op) {
      case 'a': for (int i = 0; i < (b ? b : 1); i++) mini_take(t, a, 0); break;
      case 'i': mini_unkeyed_inc_ref(CC, mini.meta_head); break;
      case 'd': mini_unkeyed_dec_ref(CC, mini.meta_head, PAGE_TYPE_BRANCH, FALSE); break;
      case 'p': mini_unkeyed_prefetch(CC, PAGE_TYPE_BRANCH, mini.meta_head); break;
      default: mc_violation("harness: bad letter %c", op);
   }
}
static void mini_end(void)
{
   mc_arm_watchdog(0);
   mc_count_check(1);
   if (allocator_in_use(AL) != base_use) mc_violation("after the last reference is gone %ld extents stay allocated", (long)(allocator_in_use(AL) - base_use));
   allocator_assert_noleaks(AL);
   stack_down();
}
static void s_mini(void)
{
   mini_setup();
   for (int i = 0; i < mc_argi("warm", 30); i++) mini_take(9, i % nb, 0);
   prog_step = stepm;
   progs_split(mc_arg("prog", "a0.2|a0.2"));
   progs_go();
   pages_intact("before release");
   mini_release(&mini, NULL_KEY);
   pages_intact("after release");
   uint64 in = allocator_in_use(AL);
   if (mc_argi("share", 0)) {
      mini_unkeyed_inc_ref(CC, mini.meta_head);
      nprogs = 0;
      progs_split(mc_arg("prog2", "d|i,d|d"));
      progs_go();
   } else {
      uint8 r = mini_unkeyed_inc_ref(CC, mini.meta_head);
      r = mini_unkeyed_dec_ref(CC, mini.meta_head, PAGE_TYPE_BRANCH, FALSE);
      if (!r || allocator_in_use(AL) != in) mc_violation("dropping one of two references released the storage");
      r = mini_unkeyed_dec_ref(CC, mini.meta_head, PAGE_TYPE_BRANCH, FALSE);
      if (r) mc_violation("dropping the last reference leaves %d", r);
   }
   mini_end();
}
/* keyed: every order of taking and dropping key ranges */
typedef struct { int lo, hi, live; } rng;
static rng R[16]; static int nR;
static int NK;
/* an extent must be there if a live range needs a key stored in it */
static void keyed_check(const char *when)
{
   for (int i = 0; i < npages; i++) {
      int need = 0;
      for (int r = 0; r < nR; r++) if (R[r].live && pkey[i] >= R[r].lo && pkey[i] < R[r].hi) need = 1;
      mc_count_check(1);
      int c = allocator_get_refcount(AL, pages[i] / EX * EX);
      if (need && c < 2) mc_violation("%s: the extent of key %d was released although a live range needs it", when, pkey[i]);
   }
}
static key rk(int i, int hi) { return hi && i >= NK ? POSITIVE_INFINITY_KEY : i <= 0 && !hi ? NEGATIVE_INFINITY_KEY : mk(i); }
static void range_ref(int lo, int hi)
{
   mini_keyed_inc_ref(CC, &dcf, PAGE_TYPE_BRANCH, mini.meta_head, rk(lo, 0), rk(hi, 1));
   R[nR++] = (rng){lo, hi, 1};
}
static void range_drop(int r)
{
   R[r].live = 0;
   int left = 0;
   for (int i = 0; i < nR; i++) left += R[i].live;
   mc_trace("drop %d..%d, %d left", R[r].lo, R[r].hi, left);
   int gone = mini_keyed_dec_ref(CC, &dcf, PAGE_TYPE_BRANCH, mini.meta_head, rk(R[r].lo, 0), rk(R[r].hi, 1));
   mc_count_check(1);
   if (gone && left) mc_violation("everything was released although %d ranges are still referenced", left);
   if (!gone && !left) mc_violation("nothing was released although the last range was dropped");
}
static void keyed_build(void)
{
   /* as a tree is packed: leaves in batch 0, index pages above */
   NK = mc_argi("nk", 160);
   mini_take(9, nb - 1, 0);
   for (int i = 0; i < NK; i++) {
      mini_take(9, 0, i);
      if (i % 24 == 0 && nb > 2) mini_take(9, 1, i);
   }
   mini_release(&mini, mk(NK - 1));
   R[nR++] = (rng){0, NK, 1};
}
static void s_keyed(void)
{
   keyed = 1;
   mini_setup();
   keyed_build();
   int cuts[] = {0, 5, 40, 64, 65, 100, NK};
   int m = mc_argi("ranges", 2), nc = sizeof cuts / sizeof *cuts;
   for (int q = 0; q < m; q++) {
      int a = mc_choose(nc - 1, "lo"), b = a + 1 + mc_choose(nc - 1 - a, "hi");
      mc_arm_watchdog(0);
      range_ref(cuts[a], cuts[b]);
   }
   uint64 n0 = allocator_in_use(AL);
   for (int left = nR; left; left--) {
      int k = mc_choose(left, "drop"), r = 0;
      for (r = 0; r < nR; r++) if (R[r].live && k-- == 0) break;
      mc_count_op(1);
      mc_arm_watchdog(0);
      range_drop(r);
      if (left > 1) { keyed_check("after dropping a range"); mc_outcome(allocator_in_use(AL)); }
      if (allocator_in_use(AL) > n0) mc_violation("dropping a range allocated storage");
      n0 = allocator_in_use(AL);
   }
   mini_end();
}
static int blocks;
static void stepk(int t, char op, long a, long b)
{
   switch (op) {
      case 'd': mini_keyed_dec_ref(CC, &dcf, PAGE_TYPE_BRANCH, mini.meta_head, rk(R[a].lo, 0), rk(R[a].hi, 1)); break;
      case 'r': { /* a reader that protects itself while it still knows the range is there */
         mini_block_dec_ref(CC, mini.meta_head);
         blocks++;
         for (int i = 0; i < npages; i += 13) if (pkey[i] >= a && pkey[i] < b) {
            mc_count_check(1);
            if (allocator_get_refcount(AL, pages[i] / EX * EX) < 2) mc_violation("the extent of key %d was released while a reader blocks that", pkey[i]);
         }
         blocks--;
         mini_unblock_dec_ref(CC, mini.meta_head);
         break; }
      case 'i': range_ref(a, b); break;
      default: mc_violation("harness: bad letter %c", op);
   }
}
static void s_keyedc(void)
{
   keyed = 1;
   mini_setup();
   keyed_build();
   range_ref(0, 70);
   range_ref(40, NK);
   prog_step = stepk;
   progs_split(mc_arg("prog", "d0|d1"));
   progs_go();
   int left = 0, all = nR;
   for (int i = 0; i < nprogs; i++) for (char *p = progs[i]; *p; p++) if (*p == 'd') R[p[1] - '0'].live = 0;
   for (int r = 0; r < all; r++) left += R[r].live;
   if (left) keyed_check("after concurrent drops");
   for (int r = 0; r < nR; r++) if (R[r].live) range_drop(r);
   mini_end();
}
mc_scenario mc_scenarios[] = {{"seq", s_seq}, {"super", s_super}, {"conc", s_conc}, {"mini", s_mini}, {"keyed", s_keyed}, {"keyedc", s_keyedc}, {0}};
