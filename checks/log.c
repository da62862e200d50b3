/* The sharded write log on its own, over the real cache, allocator and a
 * simulated device. */
#include "pthr.h"
#include "comp.h"
#include "log.h"
#include "shard_log.h"

extern void mc_free(void *);
static data_config      ldcfg;
static shard_log_config lcfg;
static shard_log       *lg;
static int              np, genmode, klen = 12;
/* reference: every entry logged, and the page it went to */
typedef struct { uint64 gen; int tid, page, vlen, id; } ent;
#define MAXE 20000
#define MAXP 600
static ent    E[MAXE];
static int    nE, nextid;
static uint64 page_addr[MAXP];
static int    page_done[MAXP], nP;
static uint64 cur_addr[64];
static int    cur_page[64];

static char *mkval(int id, int n)
{
   static _Thread_local char b[4096];
   for (int i = 0; i < n; i++) b[i] = (char)(id * 31 + i * 7 + (i >> 3));
   return b;
}
static key mk(int id)
{
   static _Thread_local char b[64];
   memset(b, 0, sizeof b);
   snprintf(b, sizeof b, "k%08d", id);
   return key_create(klen, b);
}
static uint64 gen_of(int id)
{
   switch (genmode) {
      case 1: return (uint64)((id * 7919) % 65536);  /* interleaved order */
      case 2: return ((uint64)id << 32) + 5;          /* far apart */
      case 3: return (uint64)100000 - id;
      default: return id;
   }
}
static void log_one(int t_, int vlen)
{
   int   t  = platform_get_tid(); /* an identity can be used again by a later thread */
   int   id = nextid++;
   ent   e  = {gen_of(id), t, -1, vlen, id};
   int rc = log_write((log_handle *)lg, mk(id), message_create(MESSAGE_TYPE_INSERT, slice_create(vlen, mkval(id, vlen))), e.gen);
   if (rc) mc_violation("log_write failed: %d", rc);
   uint64 a = lg->thread_data[platform_get_tid()].addr;
   if (cur_addr[t] != a) { /* this thread has moved on to a fresh page */
      if (cur_addr[t]) page_done[cur_page[t]] = 1;
      for (int i = 0; i < nP; i++) if (page_addr[i] == a) mc_violation("two threads or two entries' pages share the log page %lu", a);
      cur_addr[t] = a; cur_page[t] = nP; page_addr[nP] = a; page_done[nP++] = 0;
      if (nP == MAXP) mc_violation("harness: too many pages");
   }
   e.page  = cur_page[t];
   if (nE == MAXE) mc_violation("harness: too many entries");
   E[nE++] = e;
}
static uint64 room(int t) { return PG - lg->thread_data[platform_get_tid()].offset; }
static int esz0; /* bytes of an entry with an empty value */
static int fitting(uint64 space) { int v = (int)space - esz0; return v < 0 ? 0 : v > 1400 ? 1400 : v; }

static void new_log(void)
{
   lg = (shard_log *)log_create(CC, (log_config *)&lcfg, hid);
   nE = nP = 0; memset(cur_addr, 0, sizeof cur_addr);
}
/* pages in the order the log hands them out */
static int ext_first(int p)
{
   int f = p;
   for (int i = 0; i < nP; i++) if (page_addr[i] / EX == page_addr[p] / EX && i < f) f = i;
   return f;
}
static int page_cmp(const void *a, const void *b)
{
   int x = *(int *)a, y = *(int *)b, ex = ext_first(x), ey = ext_first(y);
   if (ex != ey) return ex - ey;
   return page_addr[x] < page_addr[y] ? -1 : page_addr[x] > page_addr[y];
}
/* what reading back must return, given which pages are good */
static char okp[MAXP];
static void check_iter(uint64 addr, uint64 magic, const char *when)
{
   /* the pages are used in ascending allocation order; a page that is not
    * good ends the log */
   int ord[MAXP], rank[MAXP], firstbad = nP;
   for (int i = 0; i < nP; i++) ord[i] = i;
   qsort(ord, nP, sizeof *ord, page_cmp);
   for (int i = 0; i < nP; i++) rank[ord[i]] = i;
   for (int i = 0; i < nP; i++) if (!okp[ord[i]]) { firstbad = i; break; }
   int want = 0;
   for (int i = 0; i < nE; i++) if (rank[E[i].page] < firstbad) want++;
   shard_log_iterator it;
   platform_status rc = shard_log_iterator_init(CC, &lcfg, hid, addr, magic, &it);
   if (!SUCCESS(rc)) mc_violation("%s: opening the log for reading failed: %d", when, rc.r);
   static char seen[MAXE * 2];
   memset(seen, 0, sizeof seen);
   uint64 lastgen = 0; int n = 0;
   while (iterator_can_next((iterator *)&it)) {
      key k; message m;
      iterator_curr((iterator *)&it, &k, &m);
      int id = -1;
      char kb[64]; int kl = key_length(k);
      if (kl != klen) mc_violation("%s: key of length %d, logged were keys of length %d", when, kl, klen);
      memcpy(kb, key_data(k), kl); kb[kl] = 0;
      if (sscanf(kb, "k%d", &id) != 1) mc_violation("%s: the log returns a key that was never logged", when);
      ent *e = NULL;
      for (int i = 0; i < nE; i++) if (E[i].id == id) e = &E[i];
      if (!e) mc_violation("%s: the log returns entry %d, which is not an entry of this log", when, id);
      if (seen[id - E[0].id + MAXE]++) mc_violation("%s: entry %d (thread %d) comes back twice", when, id, e->tid);
      if (message_class(m) != MESSAGE_TYPE_INSERT || message_length(m) != e->vlen || memcmp(message_data(m), mkval(id, e->vlen), e->vlen))
         mc_violation("%s: entry %d comes back changed (length %lu, logged %d)", when, id, message_length(m), e->vlen);
      if (rank[e->page] >= firstbad) mc_violation("%s: entry %d comes back although its page is not a finished page of the log", when, id);
      if (n && e->gen < lastgen) mc_violation("%s: entry with sequence number %lu comes after %lu", when, e->gen, lastgen);
      lastgen = e->gen; n++;
      rc = iterator_next((iterator *)&it);
      if (!SUCCESS(rc)) mc_violation("%s: next failed: %d", when, rc.r);
   }
   if (n != want) mc_violation("%s: %d of the %d entries on the %d finished pages come back", when, n, want, firstbad);
   mc_count_check(n + 1);
   shard_log_iterator_deinit(hid, &it);
}
static void good_pages(void) { for (int i = 0; i < nP; i++) okp[i] = page_done[i]; }

static void up(void)
{
   np = mc_argi("pages", 192); genmode = mc_argi("gen", 0); klen = mc_argi("klen", 12);
   stack_up(mc_argi("ext", 24), np, 0, 0, 0);
   sim_set_disk_size(mc_argi("ext", 24) * EX); /* the device exists in full */
   default_data_config_init(24, &ldcfg);
   shard_log_config_init(&lcfg, &cccfg.super, &ldcfg);
   /* measure the size of an entry */
   new_log();
   log_one(0, 100); uint64 a = room(0); log_one(0, 100);
   esz0 = (int)(a - room(0)) - 100;
   shard_log_zap(lg); mc_free(lg);
   nextid = 0;
   new_log();
   sim_log_writes(1);
}
/* final: read back in place, or after a restart, with one page damaged */
static void finish(void)
{
   static const char *modes[] = {"in place", "after a restart", "after a restart with one page missing on the device", "after a restart with the first half of a page missing", "after a restart with the second half of a page missing"};
   uint64 addr = log_addr((log_handle *)lg), magic = log_magic((log_handle *)lg);
   int m = mc_choose(5, "final");
   sim_log_writes(0);
   if (m == 0) { good_pages(); check_iter(addr, magic, modes[0]); }
   else {
      io_wait_all((io_handle *)iohp);
      good_pages();
      /* the process dies: only what was written to the device is left */
      static char *last[MAXP], *prev[MAXP];
      for (int i = 0; i < nP; i++) last[i] = prev[i] = NULL;
      for (long w = 0; w < sim_nwlog; w++) for (uint32_t o = 0; o < sim_wlog[w].len; o += PG)
         for (int i = 0; i < nP; i++) if (page_addr[i] == sim_wlog[w].off + o) { last[i] = sim_wlog[w].data + o; prev[i] = sim_wlog[w].old + o; }
      if (m >= 2) {
         int p = -1, dn = 0;
         for (int i = 0; i < nP; i++) dn += page_done[i] && last[i];
         if (dn == 0) mc_prune();
         /* which one: near the ends and around extent borders */
         int pick = mc_choose(dn > 4 ? 4 : dn, "page");
         if (dn > 4 && pick == 2) pick = dn / 2;
         if (dn > 4 && pick == 3) pick = dn - 1;
         for (int i = 0; i < nP; i++) if (page_done[i] && last[i] && pick-- == 0) { p = i; break; }
         char *d = sim_disk_base() + page_addr[p];
         int from = m == 4 ? PG / 2 : 0, to = m == 3 ? PG / 2 : PG;
         memcpy(d + from, prev[p] + from, to - from);
         if (memcmp(d, last[p], PG)) okp[p] = 0;
      }
      clockcache_deinit(&cch);
      /* the cache writes nothing back when it is thrown away */
      stack_cc(np, 0);
      check_iter(addr, magic, modes[m]);
   }
   mc_outcome(nE * 1000 + nP);
   mc_cover("pages", nP); mc_cover("entries", nE);
   int fin = 0; for (int i = 0; i < nP; i++) fin += page_done[i];
   mc_cover("finished_pages", fin);
   int before = allocator_in_use(AL);
   shard_log_zap(lg);
   (void)before;
   mc_free(lg);
   stack_down();
}
static void as(int t) { platform_set_tid(t); }
static void s_seq(void)
{
   up();
   int d = mc_argi("d", 4), nt = mc_argi("nt", 2);
   static const char *ops = "sefhbCEBLT";
   for (int q = 0; q < d; q++) {
      int c = ops[mc_choose(mc_argi("ops", 10), "op")];
      int t = platform_get_tid();
      mc_arm_watchdog(0); mc_count_op(1);
      mc_trace("op %c as %d", c, t);
      switch (c) {
         case 's': log_one(t, 8); break;
         case 'e': if (lg->thread_data[t].addr == (uint64)-1) log_one(t, 8); while (room(t) > esz0 + 1400) log_one(t, 1100); log_one(t, fitting(room(t))); break; /* fills the page to the last byte */
         case 'f': if (lg->thread_data[t].addr == (uint64)-1) log_one(t, 8); while (room(t) > esz0 + 1300) log_one(t, 1100); log_one(t, fitting(room(t) - 15 + mc_choose(3, "slack") * 8)); log_one(t, 20); break; /* leaves a few bytes */
         case 'h': for (int i = 0; i < 6; i++) log_one(t, 700 + 100 * i); break;
         case 'b': for (int i = 0; i < 70; i++) log_one(t, 1400 - i); break; /* over an extent */
         case 'C': cache_flush(CC); break;
         case 'E': cache_evict(CC, TRUE); break;
         case 'B': for (int i = 0; i < 40; i++) log_one((t + i) % nt, 300 + i) , as((t + i + 1) % nt); as(t); break;
         case 'L': shard_log_zap(lg); mc_free(lg); new_log(); break;
         case 'T': as((t + 1) % nt); break;
      }
   }
   as(0);
   finish();
}
/* concurrent writers, with a thread that cleans and evicts pages */
static void step(int t, char op, long a, long b)
{
   switch (op) {
      case 'w': for (long i = 0; i < (b ? b : 1); i++) log_one(t, a); break;
      case 'C': cache_flush(CC); break;
      case 'E': cache_evict(CC, TRUE); break;
      case 'D': clockcache_print(Platform_error_log_handle, &cch); break;
      default: mc_violation("harness: letter %c", op);
   }
}
static void s_conc(void)
{
   up();
   prog_step = step;
   progs_split(mc_arg("prog", "w1400.5|w1400.5"));
   if (mc_argi("pre", 0)) for (int i = 0; i < mc_argi("pre", 0); i++) log_one(40, 1400);
   progs_go();
   finish();
}

/* a whole database with the log switched on: replaying the log gives, for
 * every key, the state that the database itself reports */
static int  dbthr, dbphase, dbver[64];
static char *dbprog[8];
#define PAD 100
static void db_op(int t, char op, int k, int len)
{
   char kb[64]; /* its own, threads run this */
   switch (op) {
      case 'p': { char v[MAXVAL]; int n = mk_value(v, k, t * 100 + dbver[t]++, len); int rc = splinterdb_insert(db, mkkey(k, kb), slice_create(n, v)); if (rc) mc_violation("insert failed: %d", rc); break; }
      case 'd': { int rc = splinterdb_delete(db, mkkey(k, kb)); if (rc) mc_violation("delete failed: %d", rc); break; }
      case 'u': { char v[64]; int n = sprintf(v, "+%d.%d", t, dbver[t]++); int rc = splinterdb_update(db, mkkey(k, kb), slice_create(n, v)); if (rc) mc_violation("update failed: %d", rc); break; }
      case 'F': for (int i = 0; i < len; i++) db_op(t, 'p', k + i, 300); break;
      case 'E': cache_evict((cache *)((trunk_handle *)splinterdb_get_trunk_handle(db))->cc, TRUE); break;
      case 'C': cache_flush((cache *)((trunk_handle *)splinterdb_get_trunk_handle(db))->cc); break;
      default: mc_violation("harness: letter %c", op);
   }
}
static void db_run(int t, const char *p)
{
   while (*p) {
      char c = *p++;
      long a = strtol(p, (char **)&p, 10), b = 20;
      if (*p == '.') b = strtol(p + 1, (char **)&p, 10);
      if (*p == ',') p++;
      mc_arm_watchdog(0); mc_count_op(1);
      mc_trace("t%d: %c%ld.%ld", t, c, a, b);
      db_op(t, c, a, b);
   }
}
static void *db_thr(void *x)
{
   int t = (int)(intptr_t)x;
   if (t) splinterdb_register_thread(db);
   db_run(t, dbprog[t]);
   dbphase++;
   while (dbphase < dbthr) mc_yield();
   mc_sched_arm(0);
   /* finish this thread's log page */
   for (int i = 0; i < 4; i++) db_op(t, 'p', PAD + t * 4 + i, 1300);
   if (t) splinterdb_deregister_thread(db);
   return NULL;
}
static void s_db(void)
{
   dbcfg c = dc_default();
   c.use_log = 1; c.memtable_kb = 4096; c.cache_pages = 2048;
   cfg_apply(&c);
   sim_set_disk_size(64 << 20);
   key_fn = key_plain; nkeys = PAD;
   db_create();
   static char prog[256];
   snprintf(prog, sizeof prog, "%s", mc_arg("prog", "p5|p5"));
   dbprog[0] = "";
   if (mc_argi("d", 0)) { /* every sequence of operations of one client */
      static const char *ops[] = {"p5", "d5", "u5", "u5,p5", "p6.900", "F10.20", "E", "C", "F20.60,p5", "d6,u6"};
      static char seq[256]; seq[0] = 0;
      for (int i = 0; i < mc_argi("d", 0); i++) { strcat(seq, ops[mc_choose(10, "op")]); strcat(seq, ","); }
      dbprog[0] = seq; dbthr = 1;
      db_thr(0);
   } else {
      if (mc_arg("pre", NULL)) { static char pre[128]; snprintf(pre, sizeof pre, "%s", mc_arg("pre", "")); db_run(7, pre); }
      dbthr = 1;
      for (char *q = strtok(prog, "|"); q; q = strtok(NULL, "|")) dbprog[dbthr++] = q;
      int tid[8];
      mc_set_budget(mc_argi("b", 1));
      mc_set_horizon(4000000);
      for (int i = 1; i < dbthr; i++) tid[i] = mc_spawn(db_thr, (void *)(intptr_t)i);
      dbphase = 0;
      mc_sched_arm(1);
      dbphase++;
      for (int i = 1; i < dbthr; i++) mc_join(tid[i]);
      mc_sched_arm(0);
      for (int i = 0; i < 4; i++) db_op(0, 'p', PAD + i, 1300);
   }
   trunk_handle *T = (trunk_handle *)splinterdb_get_trunk_handle(db);
   if (rotations) mc_violation("harness: the buffer was rotated");
   if (mc_argi("evict", 1)) { cache_flush((cache *)T->cc); cache_evict((cache *)T->cc, TRUE); }
   shard_log_iterator it;
   platform_status rc = shard_log_iterator_init((cache *)T->cc, (shard_log_config *)T->cfg.log_cfg, T->heap_id, log_addr(T->log), log_magic(T->log), &it);
   if (!SUCCESS(rc)) mc_violation("opening the log for reading failed: %d", rc.r);
   int n = 0;
   while (iterator_can_next((iterator *)&it)) {
      key k; message m; char b[64];
      iterator_curr((iterator *)&it, &k, &m);
      memcpy(b, key_data(k), key_length(k)); b[key_length(k)] = 0;
      int i = -1; sscanf(b, "k%d", &i);
      if (i < 0 || i >= PAD + 40) mc_violation("the log returns a key that was never written");
      switch (message_class(m)) {
         case MESSAGE_TYPE_INSERT: m_set(i, message_data(m), message_length(m)); break;
         case MESSAGE_TYPE_DELETE: m_del(i); break;
         case MESSAGE_TYPE_UPDATE: m_upd(i, message_data(m), message_length(m)); break;
         default: mc_violation("the log returns a message of class %d", message_class(m));
      }
      n++;
      rc = iterator_next((iterator *)&it);
      if (!SUCCESS(rc)) mc_violation("next failed: %d", rc.r);
   }
   shard_log_iterator_deinit(T->heap_id, &it);
   mc_cover("replayed", n);
   mc_outcome(n);
   for (int i = 0; i < PAD; i++) {
      splinterdb_lookup_result r;
      splinterdb_lookup_result_init(db, &r, 0, NULL);
      int e = splinterdb_lookup(db, mkkey(i, kb), &r);
      if (e) mc_violation("lookup failed: %d", e);
      slice v = NULL_SLICE;
      if (splinterdb_lookup_found(&r)) splinterdb_lookup_result_value(&r, &v);
      if (splinterdb_lookup_found(&r) != model[i].present) mc_violation("key %d is %s in the database, but replaying the log makes it %s", i, model[i].present ? "missing" : "present", model[i].present ? "present" : "missing");
      if (model[i].present && (slice_length(v) != model[i].len || memcmp(slice_data(v), model[i].v, model[i].len))) mc_violation("key %d: the database has \"%.*s\" but replaying the log gives \"%.*s\"", i, (int)(slice_length(v) > 60 ? 60 : slice_length(v)), (char *)slice_data(v), model[i].len > 60 ? 60 : model[i].len, model[i].v);
      splinterdb_lookup_result_deinit(&r);
      mc_count_check(1);
   }
   /* the log handed out as many entries as writes were finished */
   db_close();
}
mc_scenario mc_scenarios[] = {{"seq", s_seq}, {"conc", s_conc}, {"db", s_db}, {0}};
