/* Single-client histories: lookups, iteration, reopen, space accounting. */
#include "common.h"
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "clockcache.h"
#include "guard.h"

static int vlen = 1300, base_kind, deferq, check_mask, ver = 100;
enum { CK_LOOKUP = 1, CK_SCAN = 2, CK_SPACE = 4, CK_REOPEN = 8, CK_BACK = 16 };

static trunk_handle *T(void) { return (trunk_handle *)splinterdb_get_trunk_handle(db); }

/* scan backwards from the end */
static void check_scan_back(void)
{
   splinterdb_iterator *it;
   char  b[4096];
   int   last = m_prev(nkeys);
   mc_arm_watchdog(0);
   int rc = splinterdb_iterator_init(db, &it, last < 0 ? NULL_SLICE : mkkey(last, b));
   if (rc) mc_violation("iterator init failed: %d", rc);
   for (int i = last; i >= 0; i = m_prev(i)) {
      if (!splinterdb_iterator_valid(it)) mc_violation("backward scan: iterator is not valid where the reference has key %d", i);
      check_cur(it, i, "backward scan");
      if (!splinterdb_iterator_can_prev(it)) mc_violation("backward scan: can_prev is false on a valid position (key %d)", i);
      splinterdb_iterator_prev(it);
   }
   if (last >= 0 && splinterdb_iterator_valid(it)) mc_violation("backward scan: still valid before the first key");
   rc = splinterdb_iterator_status(it);
   if (rc) mc_violation("iterator status %d", rc);
   splinterdb_iterator_deinit(it);
}

static void run_tasks(void)
{
   int dbg = mc_argi("steptasks", 0);
   if (!dbg) { while (SUCCESS(task_perform_one(T()->ts))) {} return; }
   for (int q = 0; ; q++) {
      task *tk = T()->ts->group[TASK_TYPE_MEMTABLE].tq.head ? T()->ts->group[TASK_TYPE_MEMTABLE].tq.head : T()->ts->group[TASK_TYPE_NORMAL].tq.head;
      if (!tk) break;
      char **s = backtrace_symbols((void *[]){tk->func}, 1);
      mc_trace("task %d: %s", q, s ? s[0] : "");
      if (q == dbg - 1) { trunk_print(Platform_error_log_handle, T()); }
      if (!SUCCESS(task_perform_one(T()->ts))) break;
      if (q == dbg - 1) { trunk_print(Platform_error_log_handle, T()); }
      check_lookups(0, nkeys);
   }
}
static void step_hook(int after)
{
   static int n;
   int dbg = mc_argi("stepops", 0);
   if (!after) {
      n++;
      task *tk = T()->ts->group[TASK_TYPE_MEMTABLE].tq.head ? T()->ts->group[TASK_TYPE_MEMTABLE].tq.head : T()->ts->group[TASK_TYPE_NORMAL].tq.head;
      if (!tk) return;
      char **s = backtrace_symbols((void *[]){tk->func}, 1);
      mc_trace("fg task %d: %s", n, s ? s[0] : "");
   } else for (int i = 0; i < nkeys; i++) {
      splinterdb_lookup_result r; char b[64];
      splinterdb_lookup_result_init(db, &r, 0, NULL);
      splinterdb_lookup(db, mkkey(i, b), &r);
      int f = splinterdb_lookup_found(&r);
      if (f != model[i].present) mc_trace("key %d found %d model %d", i, f, model[i].present);
      splinterdb_lookup_result_deinit(&r);
   }
   if (n == dbg) trunk_print(Platform_error_log_handle, T());
}

static int guarded;
static void dbclose(void) { db_close(); if (guarded) guard_forget(); }
static void reopen(void) { reopened = 1; mc_trace("close+open"); dbclose(); db_open(); if (guarded) guard_on(T()->cc); mt_dirty = 0; }

static dbcfg C;
static void setup(void)
{
   capture_logs();
   /* consequences of the scaled-down leaf size only: leaf pivots are chosen at
    * the granularity of b-tree pages, so two chosen pivots can be equal; and one
    * flush can bring a multiple of a leaf's capacity */
   static const char *scale[] = {"trunk_key_compare(spl, start_key, end_key) < 0", "num_leaves + trunk_num_pivot_keys(", NULL};
   if (!mc_argi("noprune", 0)) mc_prune_assert = scale;
   C             = dc_default();
   C.cache_pages = mc_argi("cache", 1024);
   C.memtable_kb = mc_argi("mt", 1024);
   C.fanout      = mc_argi("fanout", 3);
   C.max_branches = mc_argi("maxbr", 24);
   C.disk_mb     = mc_argi("disk", 96);
   C.use_stats   = mc_argi("stats", 0);
   C.use_log     = mc_argi("log", 0);
   C.reclaim     = mc_argi("reclaim", 0) ? mc_argi("reclaim", 0) : (uint64)-1;
   C.filter_rem  = mc_argi("frem", 0);
   C.shmem_mb    = mc_argi("shmem", 0);
   C.queue_depth = mc_argi("qdepth", 0);
   deferq        = mc_argi("defer", 0);
   C.qscale      = deferq ? UINT64_MAX : 0;
   if (mc_argi("stepops", 0)) mc_step_hook = step_hook;
   mc_defer      = deferq == 1 ? 5 : deferq;
   app_collide   = mc_argi("hash", 3);
   vlen          = mc_argi("vlen", 1300);
   check_mask    = mc_argi("ck", CK_LOOKUP | CK_SCAN);
   cfg_apply(&C);
   key_fn         = key_plain;
   nkeys          = mc_argi("n", 240);
   /* as in a real configuration: a node holds fanout memtables */
   kn.kv_node     = mc_argi("kvn", C.fanout * mc_argi("batch", 12) * vlen);
   kn.kv_leaf     = mc_argi("kvl", kn.kv_node / 2);
   kn.tuples_node = mc_argi("tn", 2000);
   kn.fidx        = mc_argi("fidx", 1);
   db_create();
   guarded = mc_argi("guard", 0);
   if (guarded) guard_on(T()->cc);
}
/* base states: what the explored operations start from */
static void build_base(int kind)
{
   base_kind = kind;
   int v = 1;
   if (kind == 0) return;
   /* 1: a few leaves; 2: a tall tree with old versions, tombstones and
    * unresolved updates at several levels */
   int rounds = kind == 1 ? 1 : 2, batch = mc_argi("batch", 12);
   for (int r = 0; r < rounds; r++) {
      int c = 0;
      for (int k = 0; k < nkeys; k++) {
         int i = (k * 37 + r * 11) % nkeys;
         if (i % 4 == 3) continue;
         if (r == 1 && i % 3 == 0) continue;
         if (c && c % batch == 0) force_rotate();
         c++;
         if (r == 1 && i % 8 == 1) op_del(i);
         else if (r == 1 && i % 8 == 5) op_upd(i, v);
         else op_put(i, v, vlen);
      }
      force_rotate();
      v++;
   }
   if (kind == 3) { /* all of the middle deleted: empty leaves */
      for (int i = nkeys / 4; i < nkeys * 3 / 4; i++) { if (i % 12 == 0) force_rotate(); op_del(i); }
      force_rotate();
   }
   if (kind == 4) { /* everything deleted */
      for (int i = 0; i < nkeys; i++) { if (i % 12 == 0) force_rotate(); op_del(i); }
      force_rotate();
   }
   if (kind == 5) { /* last part deleted */
      for (int i = nkeys / 2; i < nkeys; i++) { if (i % 12 == 0) force_rotate(); op_del(i); }
      force_rotate();
   }
   if (kind == 7 || kind == 8) { /* leaves that became empty by compaction */
      for (int r = 0; r < 6; r++) {
         int lo = kind == 7 ? nkeys / 2 : 0, hi = kind == 7 ? nkeys : nkeys / 2;
         for (int i = lo; i < hi; i++) { if (i % 12 == 0) force_rotate(); op_del(i); }
         for (int i = lo; i < hi && r < 5; i += 3) { if (i % 12 == 0) force_rotate(); op_put(i, v, vlen); }
         v++;
      }
      for (int r = 0; r < 8; r++) {
         for (int i = kind == 7 ? nkeys / 2 : 0; i < (kind == 7 ? nkeys : nkeys / 2); i++) { if (i % 12 == 0) force_rotate(); op_del(i); }
      }
      force_rotate();
      op_put(kind == 7 ? 0 : nkeys - 1, v, 30);
   }
   if (kind == 6) { /* first part deleted */
      for (int i = 0; i < nkeys / 2; i++) { if (i % 12 == 0) force_rotate(); op_del(i); }
      force_rotate();
   }
}

/* ---- space accounting ------------------------------------------------------ */
static uint64 in_use(void) { return allocator_in_use(T()->al); }
static void outcome_state(void)
{
   trunk_handle *t = T();
   mc_outcome(in_use());
   mc_outcome(t->root_addr);
   mc_outcome(t->next_node_id);
   mc_outcome(memtable_generation(t->mt_ctxt));
   for (int i = 0; i < nkeys; i++) { mc_outcome(model[i].present); if (model[i].present) mc_outcome_buf(model[i].v, model[i].len); }
}
static void final_checks(void)
{
   cover_stats();
   if (check_mask & CK_LOOKUP) check_lookups(0, nkeys);
   if (check_mask & CK_SCAN) check_scan_fwd(-1, nkeys + 1);
   if (check_mask & CK_BACK) check_scan_back();
   if (check_mask & CK_REOPEN) {
      reopen();
      check_lookups(0, nkeys);
      check_scan_fwd(-1, nkeys + 1);
   }
   outcome_state();
}

/* ---- fine-grained operation sequences --------------------------------------
 * every sequence of d operations over a few focus keys */
static void s_ops(void)
{
   setup();
   build_base(mc_argi("base", 0));
   int d = mc_argi("d", 4), nf = mc_argi("nf", 2), alpha = mc_argi("alpha", 0x1f), lens = mc_argi("lens", 1);
   int focus[8], nfoc = nf;
   const char *fs = mc_arg("focus", "10,11,87,43");
   for (int i = 0; i < nf; i++) { focus[i] = strtol(fs, (char **)&fs, 10); if (*fs == ',') fs++; if (focus[i] >= nkeys) focus[i] = nkeys - 1 - i; }
   int kinds[8], nk = 0;
   for (int b = 0; b < 7; b++) if (alpha >> b & 1) kinds[nk++] = b;
   int  nopt = 0, opt[64][3];
   for (int k = 0; k < nk; k++) {
      if (kinds[k] <= 2) for (int f = 0; f < nfoc; f++) for (int l = 0; l < (kinds[k] == 0 ? lens : 1); l++) { opt[nopt][0] = kinds[k]; opt[nopt][1] = focus[f]; opt[nopt++][2] = l; }
      else { opt[nopt][0] = kinds[k]; opt[nopt++][1] = 0; }
   }
   for (int step = 0; step < d; step++) {
      int c = mc_choose(nopt, "op");
      mc_count_op(1);
      ver++;
      switch (opt[c][0]) {
         case 0: op_put(opt[c][1], ver, opt[c][2] ? 8 : vlen > 40 && base_kind == 0 ? 40 : vlen); break;
         case 1: op_del(opt[c][1]); break;
         case 2: op_upd(opt[c][1], ver); break;
         case 3: mc_trace("rotate"); force_rotate(); break;
         case 4: mc_trace("run one task"); task_perform_one(T()->ts); break;
         case 5: reopen(); break;
         case 6: /* a filler batch that pushes data down the tree */
            mc_trace("filler batch");
            for (int q = 0; q < 12; q++) op_put((q * 13 + step * 5 + 2) % nkeys, ver, vlen);
            force_rotate();
            break;
      }
      for (int f = 0; f < nfoc; f++) check_lookup(focus[f]);
   }
   final_checks();
   dbclose();
}

/* ---- batches ------------------------------------------------------------------ */
static void macro(int m, int step)
{
   int n = mc_argi("batch", 12);
   ver++;
   mc_trace("macro %d", m);
   switch (m) {
      case 0: for (int q = 0; q < n; q++) op_put((q * nkeys / n + step * 3) % nkeys, ver, vlen); force_rotate(); break;
      case 1: for (int q = 0; q < n; q++) op_put((10 + q) % nkeys, ver, vlen); force_rotate(); break;
      case 2: for (int q = 0; q < n; q++) op_put((nkeys - 1 - q * 2 + 4 * nkeys) % nkeys, ver, (q & 1) ? vlen : vlen / 3); force_rotate(); break;
      case 3: for (int q = 0; q < 2 * n; q++) op_del((nkeys / 2 - n + q + 4 * nkeys + step) % nkeys); force_rotate(); break;
      case 4: for (int q = 0; q < n; q++) op_upd((q * nkeys / n + step * 7 + 1) % nkeys, ver); force_rotate(); break;
      case 5: run_tasks(); break;
      case 6: task_perform_one(T()->ts); break;
      case 7: reopen(); break;
      case 8: for (int q = 0; q < n; q++) op_del((q * nkeys / n + step * 3) % nkeys); force_rotate(); break;
   }
}
static void s_macro(void)
{
   setup();
   build_base(mc_argi("base", 1));
   int d = mc_argi("d", 4);
   const char *al = mc_arg("al", "01234");
   int na = strlen(al);
   uint64 live0 = in_use();
   for (int step = 0; step < d; step++) {
      int c = mc_choose(na, "macro");
      mc_count_op(1);
      macro(al[c] - '0', step);
   }
   mc_outcome(live0);
   final_checks();
   dbclose();
}

/* ---- iteration -------------------------------------------------------------------
 * all start keys x all step patterns, no fork needed: iteration does not write */
static void check_pos(splinterdb_iterator *it, int pos, int nlive, const int *live, const char *what, int start, unsigned pat, int step)
{
   int v = splinterdb_iterator_valid(it), inr = pos >= 0 && pos < nlive;
   if (splinterdb_iterator_status(it)) mc_violation("%s: status %d", what, splinterdb_iterator_status(it));
   if (v != inr) mc_violation("%s from start %d, steps %x/%d: iterator is %s but the reference position is %s", what, start, pat, step, v ? "valid" : "not valid", inr ? "on a key" : pos < 0 ? "before the first key" : "past the last key");
   int cn = splinterdb_iterator_can_next(it), cp = splinterdb_iterator_can_prev(it);
   if (v) {
      check_cur(it, live[pos], what);
      if (!cn) mc_violation("%s from start %d, steps %x/%d: can_next is false on a key", what, start, pat, step);
      if (!cp) mc_violation("%s from start %d, steps %x/%d: can_prev is false on a key", what, start, pat, step);
   } else if (nlive) {
      if (pos < 0 && (!cn || cp)) mc_violation("%s from start %d, steps %x/%d: before the first key can_next=%d can_prev=%d", what, start, pat, step, cn, cp);
      if (pos >= nlive && (cn || !cp)) mc_violation("%s from start %d, steps %x/%d: past the last key can_next=%d can_prev=%d", what, start, pat, step, cn, cp);
   } else if (cn && cp) mc_violation("%s: empty database but iterator can step both ways", what);
}
static void s_iter(void)
{
   setup();
   build_base(mc_argi("base", 2));
   int   extra = mc_argi("extra", 0);
   for (int q = 0; q < extra; q++) { if (q % 3 == 2) op_del((q * 29 + 5) % nkeys); else if (q % 3 == 1) op_upd((q * 31 + 3) % nkeys, 900 + q); else op_put((q * 23 + 7) % nkeys, 900 + q, vlen / 2); }
   int L = mc_argi("L", 7), stride = mc_argi("stride", 1);
   int live[MAXKEYS], nlive = 0, pos_of[MAXKEYS + 2];
   for (int i = 0; i <= nkeys; i++) { pos_of[i] = nlive; if (i < nkeys && model[i].present) live[nlive++] = i; }
   if (mc_argi("reopen", 0)) reopen();
   int shard = mc_choose(16, "shard");
   check_scan_fwd(-1, nkeys + 1);
   check_scan_back();
   /* start -1: none; otherwise 2*i: key i, 2*i+1: between key i and i+1 */
   for (int s = -1 + shard; s < 2 * nkeys; s += 16 * stride) {
      char  b[64];
      slice st = NULL_SLICE;
      int   p0 = 0;
      if (s >= 0) {
         int n = key_fn(s / 2, b);
         if (s & 1) b[n++] = '!';
         st = slice_create(n, b);
         p0 = pos_of[s / 2 + (s & 1)];
      }
      for (unsigned pat = 0; pat < (1u << L); pat++) {
         /* skip patterns that only differ after the walk got stuck */
         splinterdb_iterator *it;
         mc_arm_watchdog(0);
         int rc = splinterdb_iterator_init(db, &it, st);
         if (rc) mc_violation("iterator init failed: %d", rc);
         int pos = p0;
         uint64 sig = mc_hash(&s, sizeof s, 3);
         check_pos(it, pos, nlive, live, "start", s, pat, 0);
         for (int k = 0; k < L; k++) {
            int fwd = !(pat >> k & 1);
            if (fwd && splinterdb_iterator_can_next(it)) { splinterdb_iterator_next(it); if (pos < nlive) pos++; }
            else if (!fwd && splinterdb_iterator_can_prev(it)) { splinterdb_iterator_prev(it); if (pos >= 0) pos--; }
            if (nlive) check_pos(it, pos, nlive, live, "step", s, pat, k + 1);
            sig = mc_hash(&pos, sizeof pos, sig);
         }
         splinterdb_iterator_deinit(it);
         mc_case(sig);
         mc_count_op(L + 1);
      }
   }
   dbclose();
}
/* long runs: n steps one way, then back, from every start */
static void s_iterlong(void)
{
   setup();
   build_base(mc_argi("base", 2));
   int live[MAXKEYS], nlive = 0, pos_of[MAXKEYS + 2];
   for (int i = 0; i <= nkeys; i++) { pos_of[i] = nlive; if (i < nkeys && model[i].present) live[nlive++] = i; }
   int shard = mc_choose(8, "shard");
   for (int s = shard; s < nkeys; s += 8)
      for (int dir = 0; dir < 2; dir++)
         for (int turn = 1; turn < nlive + 2; turn += 1 + turn / 4) {
            char b[64];
            int  n = key_fn(s, b), pos = pos_of[s];
            splinterdb_iterator *it;
            mc_arm_watchdog(0);
            if (splinterdb_iterator_init(db, &it, slice_create(n, b))) mc_violation("iterator init failed");
            for (int leg = 0; leg < 2; leg++) {
               int d = dir ^ leg;
               int cnt = leg ? nlive + 2 : turn;
               for (int k = 0; k < cnt; k++) {
                  if (!d && splinterdb_iterator_can_next(it)) { splinterdb_iterator_next(it); if (pos < nlive) pos++; }
                  else if (d && splinterdb_iterator_can_prev(it)) { splinterdb_iterator_prev(it); if (pos >= 0) pos--; }
                  else break;
                  if (nlive) check_pos(it, pos, nlive, live, "long", s, dir, k);
               }
            }
            splinterdb_iterator_deinit(it);
            mc_case(mc_hash(&turn, 4, s * 2 + dir));
         }
   dbclose();
}

/* ---- space and resources ----------------------------------------------------- */
static void s_space(void)
{
   setup();
   int n = mc_choose(2, "mode");
   build_base(mc_argi("base", 1));
   int d = mc_argi("d", 3);
   const char *al = mc_arg("al", "01248");
   int na = strlen(al);
   for (int step = 0; step < d; step++) {
      int c = mc_choose(na, "macro");
      mc_count_op(1);
      macro(al[c] - '0', step);
      if (step == 0 && mc_argi("it", 1)) { check_scan_fwd(-1, 20); check_scan_back(); check_lookups(0, nkeys); }
   }
   cover_stats();
   outcome_state();
   /* (the internal destroy is only meant for a table that was not reopened) */
   if (n == 0 || reopened) { dbclose(); check_released("after close"); return; }
   if (mc_argi("drain", 0)) run_tasks();
   destroy_and_check();
}
/* a periodic workload must not need more and more space or memory */
static void s_cycle(void)
{
   setup();
   build_base(mc_argi("base", 1));
   int d = mc_argi("d", 2), R = mc_argi("R", 24);
   const char *al = mc_arg("al", "0123478");
   int na = strlen(al), seq[8];
   for (int step = 0; step < d; step++) { seq[step] = mc_choose(na, "macro"); mc_count_op(1); }
   int   what = mc_argi("what", 0); /* 0: all but tree nodes, 1: tree nodes */
   int64 mx[4] = {0}, hp[4] = {0};
   for (int r = 0; r < R; r++) {
      for (int step = 0; step < d; step++) macro(al[seq[step]] - '0', step);
      check_scan_fwd((r * 37) % nkeys, 12);
      check_lookup((r * 53) % nkeys);
      run_tasks();
      int q = r * 4 / R;
      if (ext_now(what) > mx[q]) mx[q] = ext_now(what);
      if (sim_heap_live > hp[q]) hp[q] = sim_heap_live;
   }
   mc_count_check(2);
   cover_stats();
   outcome_state();
   mc_trace("extents by quarter %ld %ld %ld %ld; heap %ld %ld %ld %ld", mx[0], mx[1], mx[2], mx[3], hp[0], hp[1], hp[2], hp[3]);
   if (mx[3] > mx[1] && mx[3] > mx[2] && mx[2] > mx[1] && (mx[3] - mx[1]) >= mc_argi("slack", R / 4))
      mc_violation("repeating the same workload needs ever more space for %s: %ld, %ld, %ld, %ld extents", what ? "tree nodes" : "data", mx[0], mx[1], mx[2], mx[3]);
   if (hp[3] > hp[1] + R / 4 && hp[3] > hp[2] && hp[2] > hp[1])
      mc_violation("repeating the same workload needs ever more heap blocks: %ld, %ld, %ld, %ld", hp[0], hp[1], hp[2], hp[3]);
   if (mc_argi("print", 0)) { platform_set_log_streams(stderr, stderr); trunk_print(stderr, T()); capture_logs(); }
   check_lookups(0, nkeys);
   if (!reopened) { destroy_and_check(); return; }
   dbclose();
   check_released("after close");
}
static void s_smoke(void)
{
   setup();
   build_base(mc_argi("base", 2));
   mc_note("rotations %d", rotations);
   check_all();
   check_scan_back();
   cover_stats();
   if (mc_argi("reopen", 0)) { reopen(); check_all(); }
   if (mc_argi("print", 0)) { platform_set_log_streams(stderr, stderr); trunk_print(stderr, T()); splinterdb_stats_print_insertion(db); }
   dbclose();
}
mc_scenario mc_scenarios[] = {{"smoke", s_smoke}, {"ops", s_ops}, {"macro", s_macro}, {"iter", s_iter}, {"iterlong", s_iterlong}, {"space", s_space}, {"cycle", s_cycle}, {0}};
