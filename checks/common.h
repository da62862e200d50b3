/* Shared harness: database set-up, reference model, oracles. */
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include "splinterdb/splinterdb.h"
#include "splinterdb/data.h"
#include "splinterdb/default_data_config.h"
#include "splinterdb_tests_private.h"
#include "rc_allocator.h"
#include "mc.h"

#define MAXKEYS 4096
#define MAXVAL  2048

/* ---------------- error log capture ------------------------------------- */
static char   errbuf[4096];
static size_t errlen;
static ssize_t err_write(void *c, const char *b, size_t n)
{
   (void)c;
   if (mc_trace_on) fwrite(b, 1, n, stderr);
   if (n > 1024) n = 1024;
   if (errlen + n >= sizeof errbuf) { memmove(errbuf, errbuf + errlen / 2, errlen - errlen / 2); errlen -= errlen / 2; }
   memcpy(errbuf + errlen, b, n);
   errlen += n;
   errbuf[errlen] = 0;
   return n;
}
const char *mc_int_last_error(void)
{
   size_t o = errlen > 500 ? errlen - 500 : 0;
   for (size_t i = 0; i < errlen; i++) if (errbuf[i] == '\n') errbuf[i] = ' ';
   return errbuf + o;
}
static void capture_logs(void)
{
   cookie_io_functions_t f = {.write = err_write};
   FILE *e = fopencookie(NULL, "w", f);
   setvbuf(e, NULL, _IONBF, 0);
   FILE *n = fopen("/dev/null", "w");
   platform_set_log_streams(n, e);
}

/* ---------------- application data type: updates append ------------------ */
static int app_merge(const data_config *cfg, slice k, message old, merge_accumulator *nw)
{
   (void)cfg; (void)k;
   uint64 ol = message_length(old), nl = merge_accumulator_length(nw);
   char   tmp[MAXVAL * 2];
   if (message_class(old) != MESSAGE_TYPE_INSERT && message_class(old) != MESSAGE_TYPE_UPDATE) mc_violation("merge callback called with an old message that is neither insert nor update");
   if (merge_accumulator_message_class(nw) != MESSAGE_TYPE_UPDATE) mc_violation("merge callback called with a new message that is not an update");
   if (ol + nl > sizeof tmp) mc_violation("merged value too long: %lu + %lu", ol, nl);
   memcpy(tmp, message_data(old), ol);
   memcpy(tmp + ol, merge_accumulator_data(nw), nl);
   if (!merge_accumulator_resize(nw, ol + nl)) return -1;
   memcpy(merge_accumulator_data(nw), tmp, ol + nl);
   merge_accumulator_set_class(nw, message_class(old));
   return 0;
}
static int app_merge_final(const data_config *cfg, slice k, merge_accumulator *o)
{
   (void)cfg; (void)k;
   if (merge_accumulator_message_class(o) != MESSAGE_TYPE_UPDATE) mc_violation("final-merge callback called with a message that is not an update");
   /* "u:" prefix: an update of a key without a value starts from that */
   uint64 l = merge_accumulator_length(o);
   char   tmp[MAXVAL * 2];
   memcpy(tmp, merge_accumulator_data(o), l);
   if (!merge_accumulator_resize(o, l + 2)) return -1;
   char *d = merge_accumulator_data(o);
   d[0] = 'u'; d[1] = ':';
   memcpy(d + 2, tmp, l);
   merge_accumulator_set_class(o, MESSAGE_TYPE_INSERT);
   return 0;
}
static int app_collide; /* fold key hashes onto few values */
static uint32 app_hash(const void *p, size_t n, uint32 seed)
{
   uint32 h = mc_hash(p, n, seed);
   if (app_collide == 1) h &= 0xF0000001u;
   else if (app_collide == 2) h = 0x12345678u;
   else if (app_collide == 3 && n >= 7) { /* evenly spread, so that tiny filters behave like big ones */
      int i = 0;
      for (int q = 1; q < 7; q++) i = i * 10 + (((const char *)p)[q] - '0');
      h = (uint32)(i + 1) * 2654435769u;
   }
   return h;
}

/* ---------------- database ------------------------------------------------ */
typedef struct {
   uint64 cache_pages, disk_mb, memtable_kb, fanout, max_branches;
   uint64 key_size, use_stats, use_log, reclaim, qscale, bg_mt, bg_norm, shmem_mb, filter_rem, filter_idx, queue_depth;
} dbcfg;
static dbcfg dc_default(void)
{
   dbcfg c = {.cache_pages = 1024, .disk_mb = 64, .memtable_kb = 1024, .fanout = 8, .max_branches = 24, .key_size = 24,
              .filter_rem = 0, .filter_idx = 0};
   return c;
}
static data_config        dcfg;
static splinterdb_config  scfg;
static splinterdb        *db;

static void cfg_apply(const dbcfg *c)
{
   default_data_config_init(c->key_size, &dcfg);
   dcfg.merge_tuples       = app_merge;
   dcfg.merge_tuples_final = app_merge_final;
   if (app_collide) dcfg.key_hash = app_hash;
   memset(&scfg, 0, sizeof scfg);
   scfg.filename              = SIM_DISK;
   scfg.cache_size            = c->cache_pages * 4096;
   scfg.disk_size             = c->disk_mb << 20;
   scfg.data_cfg              = &dcfg;
   scfg.memtable_capacity     = c->memtable_kb << 10;
   scfg.fanout                = c->fanout;
   scfg.max_branches_per_node = c->max_branches;
   scfg.use_stats             = c->use_stats;
   scfg.use_log               = c->use_log;
   scfg.reclaim_threshold     = c->reclaim;
   scfg.queue_scale_percent   = c->qscale;
   scfg.num_memtable_bg_threads = c->bg_mt;
   scfg.num_normal_bg_threads   = c->bg_norm;
   scfg.filter_remainder_size = c->filter_rem;
   scfg.filter_index_size     = c->filter_idx;
   scfg.io_async_queue_depth  = c->queue_depth;
   if (c->shmem_mb) { scfg.use_shmem = 1; scfg.shmem_size = c->shmem_mb << 20; }
}

/* knobs: make the tree's structural events reachable with few keys */
typedef struct { uint64 kv_node, kv_leaf, tuples_node, fidx; } knobs;
static knobs  kn;
static process_fn orig_process;
static int        rotations;
static int        mt_dirty; /* the current memtable has entries */
#define FORCED (1ul << 40)
static void hook_process(void *arg, uint64 gen)
{
   trunk_handle *spl = (trunk_handle *)splinterdb_get_trunk_handle(db);
   memtable *mt = &spl->mt_ctxt->mt[gen % spl->mt_ctxt->cfg.max_memtables];
   if (mt->mini.num_extents >= FORCED) mt->mini.num_extents -= FORCED;
   rotations++;
   mt_dirty = 0;
   orig_process(arg, gen);
}
static void knobs_install(void)
{
   trunk_handle *spl = (trunk_handle *)splinterdb_get_trunk_handle(db);
   if (kn.kv_node) spl->cfg.max_kv_bytes_per_node = kn.kv_node;
   if (kn.kv_leaf) spl->cfg.target_leaf_kv_bytes = kn.kv_leaf;
   if (kn.tuples_node) spl->cfg.max_tuples_per_node = kn.tuples_node;
   if (kn.fidx) { spl->cfg.filter_cfg.index_size = kn.fidx; spl->cfg.filter_cfg.log_index_size = 63 - __builtin_clzll(kn.fidx); }
   orig_process          = spl->mt_ctxt->process;
   spl->mt_ctxt->process = hook_process;
}
/* the next write finds the current memtable full and rotates it first */
static void force_rotate(void)
{
   trunk_handle *spl = (trunk_handle *)splinterdb_get_trunk_handle(db);
   if (!mt_dirty || memtable_is_empty(spl->mt_ctxt)) return;
   memtable *mt = &spl->mt_ctxt->mt[spl->mt_ctxt->generation % spl->mt_ctxt->cfg.max_memtables];
   if (mt->state == MEMTABLE_STATE_READY && mt->mini.num_extents < FORCED) mt->mini.num_extents += FORCED;
}
/* which structural events this execution went through */
/* nobody gives up a claim or a write lock that is not held */
void mc_rwlock_unclaim(platform_batch_rwlock *l, uint64 i)
{
   if (!l->write_lock[i].claim) mc_violation("the claim on a reader-writer lock is given up although nobody holds it (it may be another thread's)");
   platform_batch_rwlock_unclaim(l, i);
}
void mc_rwlock_unlock(platform_batch_rwlock *l, uint64 i)
{
   if (!l->write_lock[i].lock) mc_violation("a reader-writer lock is unlocked although nobody holds it");
   platform_batch_rwlock_unlock(l, i);
}
static uint64 cover_base[32];
static void cover_stats_(int mark)
{
   int ci = 0;
   trunk_handle *t = (trunk_handle *)splinterdb_get_trunk_handle(db);
   if (!t->cfg.use_stats) return;
   trunk_stats *s = &t->stats[0];
   uint64 fl = 0, cl = 0, co = 0, ce = 0, cdf = 0, cds = 0, fb = 0, sr = 0, ff = 0, c1 = 0, c2 = 0;
   for (int th = 0; th < 8; th++, s++) {
      for (int h = 0; h < TRUNK_MAX_HEIGHT; h++) {
         fl += s->full_flushes[h]; cl += s->count_flushes[h]; co += s->compactions[h]; ce += s->compactions_empty[h];
         cdf += s->compactions_discarded_flushed[h] + s->compactions_aborted_flushed[h];
         cds += s->compactions_discarded_leaf_split[h] + s->compactions_aborted_leaf_split[h];
         if (h >= 1) c1 += s->compactions[h]; if (h >= 2) c2 += s->compactions[h];
         fb += s->filters_built[h]; sr += s->space_recs[h]; ff += s->failed_flushes[h];
      }
   }
   uint64 is = 0, ls = 0, sl = 0, rf = 0, dd = 0, rff = 0;
   s = &t->stats[0];
   for (int th = 0; th < 8; th++, s++) { is += s->index_splits; ls += s->leaf_splits; sl += s->single_leaf_splits; rf += s->root_full_flushes + s->root_count_flushes; dd += s->discarded_deletes; rff += s->memtable_failed_flushes + s->root_failed_flushes; }
#define COV(n, v) do { if (mark) cover_base[ci++] = (v); else { mc_cover(n, (v) - cover_base[ci]); ci++; } } while (0)
   COV("memtable_rotations", rotations);
   COV("root_flushes", rf); COV("flushes", fl); COV("count_flushes", cl); COV("failed_flushes", ff + rff);
   COV("compactions", co); COV("compactions_above_leaves", c1); COV("compactions_height2+", c2); COV("compactions_empty", ce); COV("compactions_abandoned_by_flush", cdf);
   COV("compactions_abandoned_by_split", cds); COV("filters_built", fb); COV("space_reclamations", sr);
   COV("leaf_splits", ls); COV("single_leaf_splits", sl); COV("index_splits", is); COV("discarded_deletes", dd);
}
static void cover_stats(void) { cover_stats_(0); }
/* count from here on */
static void cover_mark(void) { cover_stats_(1); }
static void db_create(void)
{
   int rc = splinterdb_create(&scfg, &db);
   if (rc) mc_violation("create failed: %d", rc);
   knobs_install();
}
static void db_open(void)
{
   int rc = splinterdb_open(&scfg, &db);
   if (rc) mc_violation("open of a cleanly closed database failed: %d", rc);
   knobs_install();
}
static void db_close(void)
{
   splinterdb_close(&db);
   if (db != NULL) mc_violation("close left a non-NULL handle");
}

/* The estimate of unique keys samples a sixteenth of a filter and sizes its
 * buffer for a twelfth of all fingerprints, which only holds statistically,
 * for filters of real size.  The explored filters are tiny, so an empty extra
 * filter is passed along to make room. */
extern uint32 routing_filter_estimate_unique_fp(cache *cc, routing_config *cfg, platform_heap_id hid, routing_filter *filter, uint64 num_filters) __attribute__((weak));
uint32 mc_estimate_unique_fp(cache *cc, routing_config *cfg, platform_heap_id hid, routing_filter *filter, uint64 n)
{
   routing_filter f[64];
   if (n >= 31) return routing_filter_estimate_unique_fp(cc, cfg, hid, filter, n);
   memcpy(f, filter, n * sizeof *f);
   memset(&f[n], 0, sizeof *f);
   f[n].num_fingerprints = 12 * 200;
   return routing_filter_estimate_unique_fp(cc, cfg, hid, f, n + 1);
}

/* With background workers that lag behind, client threads do not help out
 * unless they have to wait or the queue is long (queue_scale_percent
 * semantics); mc_defer stands for such workers: up to that many queued tasks
 * run only when a scenario says so. */
static int mc_defer;
static void (*mc_step_hook)(int); /* debugging aid */
extern platform_status task_perform_one_if_needed(task_system *ts, uint64 scale) __attribute__((weak));
platform_status mc_perform_one_if_needed(task_system *ts, uint64 scale)
{
   if (mc_defer && scale && ts->group[TASK_TYPE_NORMAL].current_waiting_tasks < mc_defer) return STATUS_TIMEDOUT;
   if (mc_trace_on && mc_step_hook) mc_step_hook(0);
   platform_status rc = task_perform_one_if_needed(ts, scale);
   if (mc_trace_on && mc_step_hook && SUCCESS(rc)) mc_step_hook(1);
   return rc;
}

/* extents in use by kind, summed over sessions of the same database */
static int64 ext_trunk, ext_other;
static void ext_account(rc_allocator *al)
{
   for (int t = 0; t < NUM_PAGE_TYPES; t++) {
      int64 d = al->stats.extent_allocs[t] - al->stats.extent_deallocs[t];
      if (t == PAGE_TYPE_TRUNK) ext_trunk += d; else if (t != PAGE_TYPE_SUPERBLOCK) ext_other += d;
   }
}
extern void rc_allocator_unmount(rc_allocator *al) __attribute__((weak));
void mc_rc_allocator_unmount(rc_allocator *al)
{
   ext_account(al);
   rc_allocator_unmount(al);
}
static int64 ext_now(int trunk)
{
   int64 a = ext_trunk, b = ext_other;
   ext_account((rc_allocator *)((trunk_handle *)splinterdb_get_trunk_handle(db))->al);
   int64 r = trunk ? ext_trunk : ext_other;
   ext_trunk = a; ext_other = b;
   return r;
}

/* ---------------- reference model ------------------------------------------ */
typedef struct { int present, len; char *v; } mval;
static mval model[MAXKEYS];
static int  nkeys;                          /* universe = 0..nkeys-1 */
static int  (*key_fn)(int i, char *b);       /* order-preserving encoding */
static int key_plain(int i, char *b) { return sprintf(b, "k%06d", i); }
static slice mkkey(int i, char *b) { int n = key_fn(i, b); return slice_create(n, b); }

static void m_set(int i, const void *v, int len)
{
   mval *m = &model[i];
   char *n = malloc(len ? len : 1);
   memcpy(n, v, len);
   if (m->present) free(m->v);
   m->present = 1; m->v = n; m->len = len;
}
static void m_del(int i) { if (model[i].present) free(model[i].v); model[i].present = 0; model[i].len = 0; }
static void m_upd(int i, const void *v, int len)
{
   char t[MAXVAL * 2];
   int  o = 0;
   if (model[i].present) { memcpy(t, model[i].v, model[i].len); o = model[i].len; }
   else { t[o++] = 'u'; t[o++] = ':'; }
   memcpy(t + o, v, len);
   m_set(i, t, o + len);
}
static int mk_value(char *b, int i, int ver, int len)
{
   int n = sprintf(b, "v%d.%d.", i, ver);
   if (len < n) len = n;
   for (; n < len; n++) b[n] = 'a' + (i * 7 + ver * 3 + n) % 26;
   return n;
}

static char kb[4096];
static void op_put(int i, int ver, int len)
{
   char v[MAXVAL];
   int  n = mk_value(v, i, ver, len);
   mc_trace("put %d ver %d len %d", i, ver, n);
   mc_arm_watchdog(0);
   int rc = splinterdb_insert(db, mkkey(i, kb), slice_create(n, v));
   mt_dirty = 1;
   if (rc) mc_violation("insert of key %d failed: %d", i, rc);
   m_set(i, v, n);
}
static void op_del(int i)
{
   mc_trace("del %d", i);
   mc_arm_watchdog(0);
   int rc = splinterdb_delete(db, mkkey(i, kb));
   mt_dirty = 1;
   if (rc) mc_violation("delete of key %d failed: %d", i, rc);
   m_del(i);
}
static void op_upd(int i, int ver)
{
   char v[64];
   int  n = sprintf(v, "+%d", ver);
   mc_trace("upd %d ver %d", i, ver);
   mc_arm_watchdog(0);
   int rc = splinterdb_update(db, mkkey(i, kb), slice_create(n, v));
   mt_dirty = 1;
   if (rc) mc_violation("update of key %d failed: %d", i, rc);
   m_upd(i, v, n);
}

static void bad_value(const char *what, int i, slice got)
{
   mc_violation("%s: key %d has value \"%.*s\" (len %lu) but the last write gave \"%.*s\" (len %d)", what, i, (int)(slice_length(got) > 60 ? 60 : slice_length(got)),
                (const char *)slice_data(got), slice_length(got), model[i].len > 60 ? 60 : model[i].len, model[i].v ? model[i].v : "", model[i].len);
}
static void check_lookup_r(int i, splinterdb_lookup_result *r)
{
   mc_count_check(1);
   int rc = splinterdb_lookup(db, mkkey(i, kb), r);
   if (rc) mc_violation("lookup of key %d failed: %d", i, rc);
   int found = splinterdb_lookup_found(r);
   if (found != model[i].present) mc_violation("lookup of key %d says %s but it is %s", i, found ? "found" : "not found", model[i].present ? "present" : "absent");
   if (found) {
      slice v;
      rc = splinterdb_lookup_result_value(r, &v);
      if (rc) mc_violation("lookup value of key %d failed: %d", i, rc);
      if (slice_length(v) != model[i].len || memcmp(slice_data(v), model[i].v, model[i].len)) bad_value("lookup", i, v);
   }
}
static void check_lookup(int i)
{
   splinterdb_lookup_result r;
   splinterdb_lookup_result_init(db, &r, 0, NULL);
   check_lookup_r(i, &r);
   splinterdb_lookup_result_deinit(&r);
}
static void check_lookups(int lo, int hi)
{
   splinterdb_lookup_result r;
   splinterdb_lookup_result_init(db, &r, 0, NULL);
   for (int i = lo; i < hi; i++) check_lookup_r(i, &r);
   splinterdb_lookup_result_deinit(&r);
}
static int m_next(int i) { for (i++; i < nkeys && !model[i].present; i++) {} return i; }
static int m_prev(int i) { for (i--; i >= 0 && !model[i].present; i--) {} return i; }
static void check_cur(splinterdb_iterator *it, int i, const char *what)
{
   slice k, v;
   char  b[4096];
   mc_count_check(1);
   splinterdb_iterator_get_current(it, &k, &v);
   slice e = mkkey(i, b);
   if (slice_length(k) != slice_length(e) || memcmp(slice_data(k), slice_data(e), slice_length(e)))
      mc_violation("%s: iterator is at key \"%.*s\" but the next key in order is %d \"%.*s\"", what, (int)slice_length(k), (const char *)slice_data(k), i, (int)slice_length(e), (const char *)slice_data(e));
   if (slice_length(v) != model[i].len || memcmp(slice_data(v), model[i].v, model[i].len)) bad_value(what, i, v);
}
/* forward from start index (-1: from the beginning), at most n entries */
static void check_scan_fwd(int start, int n)
{
   splinterdb_iterator *it;
   char  b[4096];
   mc_arm_watchdog(0);
   int rc = splinterdb_iterator_init(db, &it, start < 0 ? NULL_SLICE : mkkey(start, b));
   if (rc) mc_violation("iterator init failed: %d", rc);
   int i = start < 0 ? m_next(-1) : (model[start].present ? start : m_next(start));
   for (; n > 0; n--, i = m_next(i)) {
      int v = splinterdb_iterator_valid(it);
      if (v != (i < nkeys)) mc_violation("scan from %d: iterator is %s where the reference has %s", start, v ? "valid" : "not valid", i < nkeys ? "a key" : "no more keys");
      if (!v) break;
      check_cur(it, i, "scan");
      if (!splinterdb_iterator_can_next(it)) mc_violation("scan: can_next is false on a valid position (key %d)", i);
      splinterdb_iterator_next(it);
   }
   rc = splinterdb_iterator_status(it);
   if (rc) mc_violation("iterator status %d", rc);
   splinterdb_iterator_deinit(it);
}
static void check_all(void) { check_lookups(0, nkeys); check_scan_fwd(-1, nkeys + 1); }

static int reopened;
static void check_released(const char *when)
{
   mc_count_check(5);
   if (sim_heap_live) mc_violation("%s: %ld heap blocks are not released", when, sim_heap_live);
   if (sim_mmap_bytes) mc_violation("%s: %lu bytes of mapped memory are not released", when, sim_mmap_bytes);
   if (sim_open_fds) mc_violation("%s: %d files are left open", when, sim_open_fds);
   if (sim_ctxs) mc_violation("%s: %d I/O contexts are left", when, sim_ctxs);
   if (sim_shms) mc_violation("%s: %d shared memory segments are left", when, sim_shms);
   if (mc_live_fibers() > 1) mc_violation("%s: %d threads are left running", when, mc_live_fibers() - 1);
}
/* destroying the table must give back every extent it ever took
 * (the internal destroy is only meant for a table that was not reopened) */
static void destroy_and_check(void)
{
   int64 before = ext_now(0), beforet = ext_now(1);
   rc_allocator *a = (rc_allocator *)((trunk_handle *)splinterdb_get_trunk_handle(db))->al;
   trunk_destroy(((trunk_handle *)splinterdb_get_trunk_handle(db)));
   mc_count_check(2);
   ext_account(a);
   mc_trace("in use before destroy %ld+%ld, after %ld+%ld", before, beforet, ext_other, ext_trunk);
   if (ext_other > 0) mc_violation("after destroying the table %ld extents that are not tree nodes stay allocated (of %ld in use before)", ext_other, before);
   if (ext_other < 0) mc_violation("after destroying the table more extents were released than taken: %ld", -ext_other);
   if (!reopened && ext_trunk) mc_violation("after destroying the table %ld extents of tree nodes stay allocated (of %ld in use before)", ext_trunk, beforet);
}
