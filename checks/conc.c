/* Concurrent clients, background workers and iterators on one database. */
#include "common.h"
#include "hist.h"
#include "clockcache.h"
#include "guard.h"

static int vlen, nthr, ver = 1000;
static trunk_handle *T(void) { return (trunk_handle *)splinterdb_get_trunk_handle(db); }
static void run_tasks(void) { while (SUCCESS(task_perform_one(T()->ts))) {} }

static dbcfg C;
static void setup(void)
{
   capture_logs();
   static const char *scale[] = {"trunk_key_compare(spl, start_key, end_key) < 0", "num_leaves + trunk_num_pivot_keys(", NULL};
   mc_prune_assert = scale;
   C = dc_default();
   C.cache_pages = mc_argi("cache", 512);
   C.memtable_kb = 1024;
   C.fanout      = mc_argi("fanout", 3);
   C.disk_mb     = 96;
   C.bg_mt       = mc_argi("bgm", 0);
   C.bg_norm     = mc_argi("bgn", 0);
   C.reclaim     = (uint64)-1;
   C.use_log     = mc_argi("log", 0);
   C.use_stats   = mc_argi("stats", 0);
   C.qscale      = mc_argi("defer", 1) ? UINT64_MAX : 0;
   mc_defer      = C.bg_norm ? 0 : mc_argi("defer", 5);
   app_collide   = mc_argi("hash", 3);
   vlen          = mc_argi("vlen", 300);
   cfg_apply(&C);
   key_fn = key_plain;
   nkeys  = mc_argi("n", 60);
   kn.kv_node     = mc_argi("kvn", C.fanout * mc_argi("batch", 12) * vlen);
   kn.kv_leaf     = mc_argi("kvl", kn.kv_node / 2);
   kn.tuples_node = mc_argi("tn", 2000);
   kn.fidx        = 1;
   db_create();
}
static void base(void)
{
   int kind = mc_argi("base", 1), batch = mc_argi("batch", 12), c = 0;
   if (kind == 0) return;
   for (int r = 0; r < kind; r++)
      for (int k = 0; k < nkeys; k++) {
         int i = (k * 37 + r * 11) % nkeys;
         if (i % 4 == 3) continue;
         if (r == 1 && i % 3 == 0) continue;
         if (c && c % batch == 0) { force_rotate(); if (mc_argi("drain", 1)) run_tasks(); }
         c++;
         if (r >= 1 && i % 8 == 1) op_del(i); else op_put(i, r + 1, vlen);
      }
   if (mc_argi("fullmt", 0)) { /* the buffer is one entry short of a page split */
      force_rotate();
      int m = mc_argi("fullmt", 0);
      for (int q = 0; q < m; q++) op_put((q * 5 + 1) % nkeys, 50, vlen);
   }
}

/* the buffer generation an insertion certainly went to */
static uint64 sure_gen = UINT64_MAX, gen0[16];
static void ins_begin(int t) { gen0[t % 16] = T()->mt_ctxt->generation; }
static void ins_end(int t) { if (T()->mt_ctxt->generation == gen0[t % 16]) sure_gen = gen0[t % 16]; mt_dirty = 1; }
/* the next insertion into the current buffer finds it full (only a buffer
 * that holds something can be full) */
static void rotate_next(void) { if (T()->mt_ctxt->generation == sure_gen) force_rotate(); }
/* one thread's program: op letters with arguments */
static void do_put(int t, int k)
{
   char v[400], b[64];
   int  n = mk_value(v, k, ++ver, mc_argi("wlen", 30));
   hop *o = h_begin(H_PUT, k, t);
   memcpy(o->v, v, n); o->vl = n;
   ins_begin(t);
   int rc = splinterdb_insert(db, mkkey(k, b), slice_create(n, v));
   ins_end(t);
   h_end(o);
   if (rc) mc_violation("insert failed: %d", rc);
}
static void do_del(int t, int k)
{
   char b[64];
   hop *o = h_begin(H_DEL, k, t);
   ins_begin(t);
   int  rc = splinterdb_delete(db, mkkey(k, b));
   ins_end(t);
   h_end(o);
   if (rc) mc_violation("delete failed: %d", rc);
}
static void do_upd(int t, int k)
{
   char b[64], v[32];
   int  n = sprintf(v, "+%d", ++ver);
   hop *o = h_begin(H_UPD, k, t);
   memcpy(o->v, v, n); o->vl = n;
   ins_begin(t);
   int rc = splinterdb_update(db, mkkey(k, b), slice_create(n, v));
   ins_end(t);
   h_end(o);
   if (rc) mc_violation("update failed: %d", rc);
}
static void obs(hop *o, int found, slice v)
{
   o->found = found;
   if (found) {
      if (slice_length(v) > 400) mc_violation("value of key %d has length %lu, longer than anything written", o->key, slice_length(v));
      o->vl = slice_length(v);
      memcpy(o->v, slice_data(v), o->vl);
   }
}
static void do_get(int t, int k)
{
   char b[64];
   splinterdb_lookup_result r;
   splinterdb_lookup_result_init(db, &r, 0, NULL);
   hop *o = touched[k] ? h_begin(H_GET, k, t) : NULL;
   int  rc = splinterdb_lookup(db, mkkey(k, b), &r);
   if (o) h_end(o);
   if (rc) mc_violation("lookup failed: %d", rc);
   int   f = splinterdb_lookup_found(&r);
   slice v = NULL_SLICE;
   if (f && splinterdb_lookup_result_value(&r, &v)) mc_violation("lookup value failed");
   mc_count_check(1);
   if (o) obs(o, f, v);
   else {
      if (f != model[k].present) mc_violation("lookup of key %d, which nobody writes, says %s but it is %s", k, f ? "found" : "not found", model[k].present ? "present" : "absent");
      if (f && (slice_length(v) != model[k].len || memcmp(slice_data(v), model[k].v, model[k].len))) bad_value("lookup under concurrency", k, v);
   }
   splinterdb_lookup_result_deinit(&r);
}
static int key_index(slice k)
{
   if (slice_length(k) != 7 || ((char *)slice_data(k))[0] != 'k') mc_violation("iterator returns a key nobody wrote: %.*s", (int)slice_length(k), (char *)slice_data(k));
   int i = 0;
   for (int q = 1; q < 7; q++) i = i * 10 + ((char *)slice_data(k))[q] - '0';
   if (i < 0 || i >= nkeys) mc_violation("iterator returns a key nobody wrote: %.*s", 7, (char *)slice_data(k));
   return i;
}
/* scan from key st: n steps forwards (or backwards): each touched key in the
 * range passed is an observation; every other key must be exact */
static void do_scan(int t, int st, int n, int back)
{
   char b[64];
   splinterdb_iterator *it;
   uint64_t s0 = mc_steps();
   int rc = splinterdb_iterator_init(db, &it, st < 0 ? NULL_SLICE : mkkey(st, b));
   if (rc) mc_violation("iterator init failed: %d", rc);
   if (st < 0) st = 0;
   int pos = back ? st + 1 : st; /* forwards: next key to account for; backwards: last key accounted for */
   int first = 1;
   for (int q = 0; q <= n; q++) {
      int   v = splinterdb_iterator_valid(it), i = back ? -1 : nkeys;
      slice k = NULL_SLICE, val = NULL_SLICE;
      if (v) { splinterdb_iterator_get_current(it, &k, &val); i = key_index(k); }
      else if (!back && q == 0 && 0) break;
      if (back && first) {
         /* the first position is at or after the start key */
         if (!v) { pos = nkeys; }
         else { pos = i + 1; if (i < st) mc_violation("iterator starts at key %d, before the start key %d", i, st); }
         first = 0;
         if (!v) goto step;
      }
      if (v && !back && i < pos) mc_violation("iterator goes to key %d although it already passed key %d", i, pos - 1);
      if (v && back && i >= pos) mc_violation("iterator goes back to key %d although it already passed key %d", i, pos);
      /* keys passed over */
      int lo = back ? i + 1 : pos, hi = back ? pos : i;
      for (int x = lo; x < hi; x++) {
         mc_count_check(1);
         if (touched[x]) { hop *o = h_begin(H_GET, x, t); o->s = s0; h_end(o); o->found = 0; }
         else if (model[x].present) mc_violation("iterator skips key %d, which is present and not being written", x);
      }
      if (!v) break;
      mc_count_check(1);
      if (touched[i]) { hop *o = h_begin(H_GET, i, t); o->s = s0; h_end(o); obs(o, 1, val); }
      else if (!model[i].present) mc_violation("iterator returns key %d, which is absent", i);
      else if (slice_length(val) != model[i].len || memcmp(slice_data(val), model[i].v, model[i].len)) bad_value("iterator under concurrency", i, val);
      pos = back ? i : i + 1;
step:
      if (q == n) break;
      if (back) { if (!splinterdb_iterator_can_prev(it)) break; splinterdb_iterator_prev(it); }
      else { if (!splinterdb_iterator_can_next(it)) break; splinterdb_iterator_next(it); }
   }
   rc = splinterdb_iterator_status(it);
   if (rc) mc_violation("iterator status: %d", rc);
   splinterdb_iterator_deinit(it);
}
static char *progs[8];
static int   finished;
static void run_prog(int t, const char *p)
{
   while (*p) {
      char c = *p++;
      long k = strtol(p, (char **)&p, 10), n = 1000;
      if (*p == '.') n = strtol(p + 1, (char **)&p, 10);
      if (*p == ',') p++;
      mc_arm_watchdog(0);
      mc_count_op(1);
      mc_trace("t%d: %c%ld", t, c, k);
      switch (c) {
         case 'p': do_put(t, k); break;
         case 'd': do_del(t, k); break;
         case 'u': do_upd(t, k); break;
         case 'g': do_get(t, k); break;
         case 'S': do_scan(t, k, n, 0); break;
         case 'B': do_scan(t, k, n, 1); break;
         case 'R': rotate_next(); break;
         case 'T': for (int q = 0; q < (k ? k : 1); q++) task_perform_one(T()->ts); break;
         case 'A': for (int q = 0; q < 200 && SUCCESS(task_perform_one(T()->ts)); q++) {} break;
         case 'Q': task_perform_until_quiescent(T()->ts); break;
         case 'F': for (int q = 0; q < n && q < 40; q++) do_put(t, (k + q) % nkeys); break;
         default: mc_violation("harness: bad program letter %c", c);
      }
   }
}
static void *thr(void *a)
{
   int t = (int)(intptr_t)a;
   splinterdb_register_thread(db);
   run_prog(t, progs[t]);
   splinterdb_deregister_thread(db);
   finished++;
   return NULL;
}
static void mark_touched(const char *p)
{
   while (*p) {
      char c = *p++;
      long k = strtol(p, (char **)&p, 10), n = 1;
      if (*p == '.') n = strtol(p + 1, (char **)&p, 10);
      if (*p == ',') p++;
      if (c == 'p' || c == 'd' || c == 'u') touched[k] = 1;
      if (c == 'F') for (int q = 0; q < n; q++) touched[(k + q) % nkeys] = 1;
   }
}
static void s_db(void)
{
   setup();
   base();
   static char prog[512], pre[256];
   snprintf(pre, sizeof pre, "%s", mc_arg("pre", ""));
   snprintf(prog, sizeof prog, "%s", mc_arg("prog", "p5,g6|p6,g5"));
   for (char *q = pre; *q; q++) if (*q == '|') *q = ',';
   for (char *q = strtok(prog, "|"); q; q = strtok(NULL, "|")) progs[nthr++] = q;
   for (int i = 0; i < nthr; i++) mark_touched(progs[i]);
   mark_touched(pre);
   sure_gen = mt_dirty ? T()->mt_ctxt->generation : UINT64_MAX;
   run_prog(9, pre);
   sure_gen = mt_dirty ? T()->mt_ctxt->generation : UINT64_MAX;
   /* every thread may be the one that starts */
   int first = mc_argi("perm", 1) ? mc_choose(nthr, "first") : 0;
   int armc = mc_argi("armclose", 0);
   int tid[8];
   int guarded = mc_argi("guard", 0);
   if (guarded) guard_on(T()->cc);
   mc_set_budget(mc_argi("b", 1));
   mc_set_horizon(mc_argi("horizon", 4000000));
   for (int i = 0; i < nthr; i++) tid[i] = mc_spawn(thr, (void *)(intptr_t)((first + i) % nthr));
   cover_mark();
   mc_sched_arm(1);
   for (int i = 0; i < nthr; i++) mc_join(tid[i]);
   if (!armc) mc_sched_arm(0);
   cover_stats();
   mc_arm_watchdog(0);
   if (mc_argi("quiesce", 1) && !armc) task_perform_until_quiescent(T()->ts);
   for (int k = 0; k < nkeys; k++) if (touched[k]) do_get(99, k);
   if (armc) {
      mc_set_budget(mc_get_budget());
      db_close();
      if (guarded) guard_forget();
      mc_sched_arm(0);
      db_open();
      for (int k = 0; k < nkeys; k++) do_get(99, k);
   } else {
      for (int k = 0; k < nkeys; k++) if (!touched[k]) do_get(99, k);
      do_scan(99, -1, nkeys + 1, 0);
   }
   hist_check("concurrent history");
   mc_outcome(memtable_generation(T()->mt_ctxt));
   if (mc_argi("leak", 0) && !armc) { destroy_and_check(); return; }
   db_close();
}
mc_scenario mc_scenarios[] = {{"db", s_db}, {0}};
