/* P20: the b-trees that hold buffered writes and compacted branches. */
#include "pthr.h"
#include "comp.h"
#include "btree.h"
#include "mini_allocator.h"
#include "guard.h"

static btree_config   bcfg;
static mini_allocator bm;
static uint64         root;
static btree_scratch  scr0;
static int guarded;
static uint64 in_use0;

/* key i: fixed prefix, three lengths */
static int klong = 100;
static int bkey(int i, char *b)
{
   int n = sprintf(b, "k%05d", i), l = i % 3 == 0 ? n : i % 3 == 1 ? klong : klong / 2;
   for (; n < l; n++) b[n] = 'a' + (i + n) % 26;
   return n;
}
static key mk(int i, char *b) { return key_create(bkey(i, b), b); }
/* bounds: -1 / 2n: infinities; 2i: key i; 2i+1: between i and i+1 */
static int NB;
static key bound(int x, char *b)
{
   if (x < 0) return NEGATIVE_INFINITY_KEY;
   if (x >= 2 * NB) return POSITIVE_INFINITY_KEY;
   int n = bkey(x / 2, b);
   if (x & 1) b[n++] = '~';
   return key_create(n, b);
}
/* ---- model: one message per key ------------------------------------------- */
typedef struct { int has, cls, len; char *v; } bmsg;
static bmsg bm_[MAXKEYS];
static void bm_set(int i, int cls, const char *v, int len)
{
   char *n = malloc(len + 1);
   memcpy(n, v, len);
   free(bm_[i].v);
   bm_[i] = (bmsg){1, cls, len, n};
}
static void bm_apply(int i, int cls, const char *v, int len)
{
   bmsg *m = &bm_[i];
   if (cls != MESSAGE_TYPE_UPDATE || !m->has) { bm_set(i, cls, v, len); return; }
   char t[8192];
   int  o = 0;
   if (m->cls == MESSAGE_TYPE_DELETE) { t[o++] = 'u'; t[o++] = ':'; }
   else { memcpy(t, m->v, m->len); o = m->len; }
   memcpy(t + o, v, len);
   bm_set(i, m->cls == MESSAGE_TYPE_UPDATE ? MESSAGE_TYPE_UPDATE : MESSAGE_TYPE_INSERT, t, o + len);
}
static void b_op(int i, int cls, int ver, int len)
{
   char  k[4096], v[MAXVAL * 2];
   int   n = cls == MESSAGE_TYPE_DELETE ? 0 : len == 0 ? 0 : mk_value(v, i, ver, len);
   uint64 gen;
   bool32 uniq = 77;
   mc_arm_watchdog(0);
   mc_trace("op %d class %d len %d", i, cls, n);
   platform_status rc = btree_insert(CC, &bcfg, hid, &scr0, root, &bm, mk(i, k), message_create(cls, slice_create(n, v)), &gen, &uniq);
   if (!SUCCESS(rc)) mc_violation("inserting key %d with %d bytes failed: %d", i, n, rc.r);
   mc_count_check(1);
   if (uniq != !bm_[i].has) mc_violation("inserting key %d reports that the key was %s", i, uniq ? "new" : "there already");
   bm_apply(i, cls, v, n);
}
static void b_check_lookup(uint64 r, page_type t, int i, int between)
{
   char k[4096];
   merge_accumulator ma;
   static char mab[16384]; /* a buffer of ours: nothing for the library to allocate */
   merge_accumulator_init_with_buffer(&ma, hid, sizeof mab, mab, WRITABLE_BUFFER_NULL_LENGTH, MESSAGE_TYPE_INVALID);
   key kk = between ? bound(2 * i + 1, k) : mk(i, k);
   platform_status rc = btree_lookup(CC, &bcfg, r, t, kk, &ma);
   mc_count_check(1);
   if (!SUCCESS(rc)) mc_violation("looking up key %d failed: %d", i, rc.r);
   int f = btree_found(&ma), has = !between && bm_[i].has;
   if (f != has) mc_violation("looking up key %d%s: %s", i, between ? " (just after it)" : "", f ? "found although nothing was inserted" : "not found although it was inserted");
   if (f) {
      message m = merge_accumulator_to_message(&ma);
      if (message_class(m) != bm_[i].cls || message_length(m) != bm_[i].len || memcmp(message_data(m), bm_[i].v, bm_[i].len))
         mc_violation("looking up key %d gives class %d, %lu bytes \"%.40s\" but class %d, %d bytes \"%.40s\" were inserted", i, message_class(m), message_length(m), (char *)message_data(m), bm_[i].cls, bm_[i].len, bm_[i].v);
   }
   merge_accumulator_deinit(&ma);
}
static void b_cur(iterator *it, int i, const char *what)
{
   key     k;
   message m;
   char    b[4096];
   iterator_curr(it, &k, &m);
   key e = mk(i, b);
   mc_count_check(1);
   if (data_key_compare(&dcfg, k, e)) mc_violation("%s: at key \"%.*s\" instead of %d", what, (int)key_length(k), (const char *)key_data(k), i);
   if (message_class(m) != bm_[i].cls || message_length(m) != bm_[i].len || memcmp(message_data(m), bm_[i].v, bm_[i].len))
      mc_violation("%s: key %d has class %d and %lu bytes but class %d and %d bytes were inserted", what, i, message_class(m), message_length(m), bm_[i].cls, bm_[i].len);
}
/* positions 0..n of the keys in [lo, hi) */
static int b_list(int lo, int hi, int *L)
{
   int n = 0;
   for (int i = 0; i < NB; i++) if (bm_[i].has && 2 * i >= lo && 2 * i < hi) L[n++] = i;
   return n;
}
static int start_pos(const int *L, int n, int st, comparison c)
{
   int p = 0;
   while (p < n && (c == greater_than || c == less_than_or_equal ? 2 * L[p] <= st : 2 * L[p] < st)) p++;
   return c >= greater_than ? p : p - 1;
}
static void b_pos(iterator *it, int p, const int *L, int n, const char *what)
{
   int cn = iterator_can_next(it), cp = iterator_can_prev(it);
   if (p >= 0 && p < n) {
      if (!cn || !cp) mc_violation("%s: on key %d but can_next=%d can_prev=%d", what, L[p], cn, cp);
      b_cur(it, L[p], what);
   } else if (n) {
      if (p < 0 && cp) mc_violation("%s: before the first key but can_prev", what);
      if (p >= n && cn) mc_violation("%s: past the last key but can_next", what);
      if (p < 0 && !cn) mc_violation("%s: before the first key and cannot go on", what);
      if (p >= n && !cp) mc_violation("%s: past the last key and cannot go back", what);
   } else if (cn && cp) mc_violation("%s: no keys in range but it is on one", what);
}
/* ranges and starts: walk forwards to the end and all the way back, or the other way round */
static void b_walk(uint64 r, page_type t, int lo, int hi, int st, comparison c, int prefetch, const int *seeks, int ns)
{
   char a[4096], b[4096], s[4096], what[96];
   int  L[MAXKEYS], n = b_list(lo, hi, L);
   btree_iterator it;
   mc_arm_watchdog(0);
   snprintf(what, sizeof what, "range [%d,%d) from %d (%d)", lo, hi, st, c);
   if (mc_trace_on) mc_trace("%s", what);
   btree_iterator_init(CC, &bcfg, &it, r, t, bound(lo, a), bound(hi, b), bound(st, s), c, prefetch, 0);
   int p = start_pos(L, n, st, c), dir = c >= greater_than;
   b_pos(&it.super, p, L, n, what);
   for (int leg = 0; leg < 3; leg++, dir = !dir) {
      while (dir ? iterator_can_next(&it.super) && p < n : iterator_can_prev(&it.super) && p >= 0) {
         platform_status rc = dir ? iterator_next(&it.super) : iterator_prev(&it.super);
         if (!SUCCESS(rc)) mc_violation("%s: step failed", what);
         p += dir ? 1 : -1;
         b_pos(&it.super, p, L, n, what);
      }
      if (n && p != (dir ? n : -1)) mc_violation("%s: stuck at position %d of %d going %s", what, p, n, dir ? "up" : "down");
   }
   for (int i = 0; i < ns; i++) for (int cc = less_than; cc <= greater_than_or_equal; cc++) {
      char sk[4096];
      int  x = seeks[i];
      if (x < lo || x > hi || x < 0 || x >= 2 * NB) continue;
      platform_status rc = iterator_seek(&it.super, bound(x, sk), cc);
      if (!SUCCESS(rc)) mc_violation("%s: seek to %d failed: %d", what, x, rc.r);
      snprintf(what, sizeof what, "range [%d,%d) from %d (%d), seek to %d (%d)", lo, hi, st, c, x, cc);
      p = start_pos(L, n, x, cc);
      b_pos(&it.super, p, L, n, what);
      if (p >= 0 && p < n && x % 3 == 0) { iterator_next(&it.super); b_pos(&it.super, p + 1, L, n, what); iterator_prev(&it.super); b_pos(&it.super, p, L, n, what); }
   }
   btree_iterator_deinit(&it);
}
static void b_check(uint64 r, page_type t, int depth)
{
   for (int i = 0; i < NB; i++) { b_check_lookup(r, t, i, 0); if (depth > 0) b_check_lookup(r, t, i, 1); }
   b_walk(r, t, -1, 2 * NB, -1, greater_than_or_equal, 0, NULL, 0);
   if (depth == 0) return;
   if (!btree_verify_tree(CC, &bcfg, r, t)) mc_violation("the tree's own verification fails");
   int st = NB > 24 ? NB / 10 : 1;
   for (int lo = -1; lo <= 2 * NB; lo += st)
      for (int hi = lo; hi <= 2 * NB + st; hi += st) {
         int h = hi > 2 * NB ? 2 * NB : hi, q[3] = {(lo + h) / 2, lo + 1, h - 1};
         if (lo < 0 && h == lo) continue;
         for (int c = less_than; c <= greater_than_or_equal; c++) {
            if (lo < h) b_walk(r, t, lo, h, lo, c, 0, q, mc_argi("seek", 0) ? 3 : 0);
            /* (with the upper bound itself as start, only those two are used) */
            if (c == less_than || c == greater_than_or_equal) b_walk(r, t, lo, h, h, c, 1, q, 0);
            if (depth > 1 || (hi - lo) % 5 == 2) if ((lo + h) / 2 < h) b_walk(r, t, lo, h, (lo + h) / 2, c, 0, q, 0);
         }
      }
}
static void setup(void)
{
   NB = mc_argi("n", 12); nkeys = NB; klong = mc_argi("klen", 100);
   default_data_config_init(512, &dcfg);
   dcfg.merge_tuples       = app_merge;
   dcfg.merge_tuples_final = app_merge_final;
   stack_up(mc_argi("ext", 200), mc_argi("pages", 1024), 0, 0, 0);
   btree_config_init(&bcfg, &cccfg.super, &dcfg);
   in_use0 = allocator_in_use(AL);
   root = btree_create(CC, &bcfg, &bm, PAGE_TYPE_MEMTABLE);
   guarded = mc_argi("guard", 0);
   if (guarded) guard_on(CC);
}
static void teardown(void)
{
   mini_release(&bm, NULL_KEY);
   if (!btree_dec_ref(CC, &bcfg, root, PAGE_TYPE_MEMTABLE)) mc_violation("the last reference to the tree was dropped but it is not freed");
   mc_count_check(1);
   if (allocator_in_use(AL) != in_use0) mc_violation("after dropping the trees %lu extents are in use, %lu before", allocator_in_use(AL), in_use0);
   if (guarded) guard_off(CC);
   stack_down();
}
/* build: insertion order patterns */
static int order(int pat, int q, int n)
{
   switch (pat) {
      case 0: return q;
      case 1: return n - 1 - q;
      case 2: return (q * 37 + 11) % n;
      case 3: return q & 1 ? q / 2 : n - 1 - q / 2;
      default: return q & 1 ? n / 2 + q / 2 : n / 2 - 1 - q / 2 < 0 ? n - 1 : n / 2 - 1 - q / 2;
   }
}
static const int lens[] = {1300, 8, 700, 0, 1433, 300};
static void fill(int pat, int n, int big)
{
   for (int q = 0; q < n; q++) { int i = order(pat, q, n); b_op(i, i % 7 == 5 ? MESSAGE_TYPE_DELETE : i % 7 == 3 ? MESSAGE_TYPE_UPDATE : MESSAGE_TYPE_INSERT, 1, i % 7 == 3 ? 20 : big ? lens[i % 2 ? 0 : i % 6] : lens[i % 6]); }
}
/* every sequence of d operations after a base */
static void s_mem(void)
{
   setup();
   int nb = mc_argi("fill", 0), d = mc_argi("d", 4), nf = mc_argi("nf", 3), kinds = mc_argi("kinds", 5);
   int pat = nb ? mc_choose(mc_argi("pats", 5), "order") : 0;
   fill(pat, nb, mc_argi("big", 0));
   for (int q = 0; q < d; q++) {
      int c = mc_choose(nf * kinds, "op"), i = (c / kinds) * mc_argi("step", 1) + mc_argi("first", 0), k = c % kinds;
      mc_count_op(1);
      i %= NB;
      b_op(i, k == 3 ? MESSAGE_TYPE_DELETE : k == 4 ? MESSAGE_TYPE_UPDATE : MESSAGE_TYPE_INSERT, 10 + q, k == 0 ? 1433 : k == 1 ? 700 : k == 2 ? 0 : 30);
      for (int f = 0; f < nf; f++) b_check_lookup(root, PAGE_TYPE_MEMTABLE, (f * mc_argi("step", 1) + mc_argi("first", 0)) % NB, 0);
   }
   uint64 h = 0;
   for (int i = 0; i < NB; i++) h = mc_hash(&bm_[i].has, 12, h);
   mc_outcome(h);
   b_check(root, PAGE_TYPE_MEMTABLE, mc_argi("deep", 0));
   teardown();
}

static void bm_clear(void) { for (int i = 0; i < NB; i++) { free(bm_[i].v); bm_[i] = (bmsg){0}; } }
static void new_tree(void) { root = btree_create(CC, &bcfg, &bm, PAGE_TYPE_MEMTABLE); }
static void drop_tree(void)
{
   mini_release(&bm, NULL_KEY);
   if (!btree_dec_ref(CC, &bcfg, root, PAGE_TYPE_MEMTABLE)) mc_violation("the last reference to the tree was dropped but it is not freed");
   mc_count_check(1);
   if (allocator_in_use(AL) != in_use0) mc_violation("after dropping the tree %lu extents are in use, %lu before", allocator_in_use(AL), in_use0);
   bm_clear();
}
/* every size of an entry that lands in a leaf with every kind of room left:
 * new entries and overwrites, growing and shrinking, that fit exactly, by one
 * byte more or less, only after defragmentation, or only after a split */
static void s_fit(void)
{
   setup();
   drop_tree();
   int shard = mc_choose(16, "shard"), max = 1433;
   static const int first[][4] = {{1300, 1300, 0, 0}, {1433, 700, 300, 0}, {8, 8, 1433, 1433}, {1000, 1000, 1000, 600}, {500, 1433, 500, 1433}};
   for (int base = 0; base < 5; base++)
      for (int s = shard; s <= max; s += 16)
         for (int where = 0; where < 4; where++) {
            new_tree();
            for (int q = 0; q < 4; q++) if (first[base][q]) b_op(2 * q, MESSAGE_TYPE_INSERT, 1, first[base][q]);
            switch (where) {
               case 0: b_op(1, MESSAGE_TYPE_INSERT, 2, s); break; /* a new key in the middle */
               case 1: b_op(2, MESSAGE_TYPE_INSERT, 2, 1433 - s); b_op(9, MESSAGE_TYPE_INSERT, 3, s); break;
               case 2: b_op(0, MESSAGE_TYPE_INSERT, 2, s); b_op(0, MESSAGE_TYPE_DELETE, 3, 0); b_op(0, MESSAGE_TYPE_INSERT, 4, s); break;
               case 3: b_op(4, MESSAGE_TYPE_INSERT, 2, s); b_op(2, MESSAGE_TYPE_INSERT, 2, s); b_op(3, MESSAGE_TYPE_INSERT, 3, max - s); break;
            }
            b_op(5, MESSAGE_TYPE_UPDATE, 4, 30);
            b_op(5, MESSAGE_TYPE_UPDATE, 5, 30);
            b_check(root, PAGE_TYPE_MEMTABLE, 0);
            if (!btree_verify_tree(CC, &bcfg, root, PAGE_TYPE_MEMTABLE)) mc_violation("the tree's own verification fails");
            b_walk(root, PAGE_TYPE_MEMTABLE, 3, 15, 7, less_than_or_equal, 0, NULL, 0);
            mc_case(mc_hash(&where, 4, base * 2000 + s));
            mc_count_op(5);
            drop_tree();
         }
}
/* branches: packing any range of a tree, counting in it, releasing it in parts */
static uint64 seed_hash(const void *p, size_t n) { return mc_hash(p, n, 5) & 0xffffffff; }
static uint32 fp_hash(const void *p, size_t n, uint32 seed) { return (uint32)seed_hash(p, n) ^ seed; }
static btree_pack_req req;
static platform_status b_pack(int lo, int hi, uint64 max, int *n)
{
   char a[4096], b[4096];
   int  L[MAXKEYS];
   btree_iterator it;
   *n = b_list(lo, hi, L);
   btree_iterator_init(CC, &bcfg, &it, root, PAGE_TYPE_MEMTABLE, bound(lo, a), bound(hi, b), bound(lo, a), greater_than_or_equal, 0, 0);
   platform_status rc = btree_pack_req_init(&req, CC, &bcfg, &it.super, max, fp_hash, 99, hid);
   if (!SUCCESS(rc)) mc_violation("pack request: %d", rc.r);
   rc = btree_pack(&req);
   btree_iterator_deinit(&it);
   return rc;
}
extern void mc_free(void *);
static void req_free(void) { if (req.fingerprint_arr) { mc_free(req.fingerprint_arr); req.fingerprint_arr = NULL; } }
static void b_counts(int lo, int hi, int st)
{
   char a[4096], b[4096];
   for (int x = -1; x <= 2 * NB; x += st) for (int y = x; y <= 2 * NB + st; y += st) {
      int h = y > 2 * NB ? 2 * NB : y, l2 = x > lo ? x : lo, h2 = h < hi ? h : hi;
      if (x < 0 && h == x) continue;
      int L[MAXKEYS], n = b_list(l2, h2, L);
      uint64 kb_ = 0, mb = 0;
      for (int i = 0; i < n; i++) { char t[4096]; kb_ += bkey(L[i], t); mb += bm_[L[i]].len; }
      btree_pivot_stats ps;
      btree_count_in_range(CC, &bcfg, req.root_addr, bound(x, a), bound(h, b), &ps);
      mc_count_check(1);
      if (ps.num_kvs != n || ps.key_bytes != kb_ || ps.message_bytes != mb) mc_violation("count in [%d,%d): %u entries, %u key bytes, %u message bytes; expected %d, %lu, %lu", x, h, ps.num_kvs, ps.key_bytes, ps.message_bytes, n, kb_, mb);
      btree_count_in_range_by_iterator(CC, &bcfg, req.root_addr, bound(x, a), bound(h, b), &ps);
      if (ps.num_kvs != n || ps.key_bytes != kb_ || ps.message_bytes != mb) mc_violation("count by iterator in [%d,%d): %u entries; expected %d", x, h, ps.num_kvs, n);
   }
}
static void s_pack(void)
{
   setup();
   int nf = mc_argi("fill", 60), st = mc_argi("st", 7);
   fill(mc_choose(mc_argi("pats", 2), "order"), nf, mc_argi("big", 0));
   uint64 u1 = allocator_in_use(AL);
   int    lo = -1 + st * mc_choose((2 * NB + 1) / st + 1, "lo"), n;
   for (int y = lo; y <= 2 * NB + st; y += st) {
      int hi = y > 2 * NB ? 2 * NB : y;
      if (lo < 0 && hi == lo) continue;
      /* too few tuples allowed: refused, nothing kept */
      int L[MAXKEYS], tot = b_list(lo, hi, L);
      mc_arm_watchdog(0);
      for (int less = 1; less <= tot; less = less * 2 + 1) {
         platform_status rc = b_pack(lo, hi, tot - less, &n);
         mc_count_check(2);
         if (SUCCESS(rc)) mc_violation("packing %d entries into at most %d succeeds", tot, tot - less);
         if (mc_argi("aborts", 1) && allocator_in_use(AL) != u1) mc_violation("after a refused packing (%d of %d) %lu extents are in use, %lu before", tot - less, tot, allocator_in_use(AL), u1);
         u1 = allocator_in_use(AL);
         req_free();
      }
      platform_status rc = b_pack(lo, hi, tot + mc_argi("room", 0), &n);
      if (!SUCCESS(rc)) mc_violation("packing %d entries failed: %d", tot, rc.r);
      uint64 kb_ = 0, mb = 0;
      for (int i = 0; i < tot; i++) { char t[4096]; kb_ += bkey(L[i], t); mb += bm_[L[i]].len; }
      mc_count_check(4);
      if (req.num_tuples != tot || req.key_bytes != kb_ || req.message_bytes != mb) mc_violation("packing [%d,%d) reports %lu entries, %lu, %lu bytes; expected %d, %lu, %lu", lo, hi, req.num_tuples, req.key_bytes, req.message_bytes, tot, kb_, mb);
      for (int i = 0; i < tot; i++) { char t[4096]; int l = bkey(L[i], t); if (req.fingerprint_arr[i] != fp_hash(t, l, 99)) mc_violation("fingerprint %d of %d is not that of key %d", i, tot, L[i]); }
      if ((req.root_addr == 0) != (tot == 0)) mc_violation("packing %d entries gives root %lu", tot, req.root_addr);
      req_free();
      if (tot) {
         char has[MAXKEYS], a[4096], b[4096];
         for (int i = 0; i < NB; i++) { has[i] = bm_[i].has; if (2 * i < lo || 2 * i >= hi) bm_[i].has = 0; }
         if (mc_argi("cold", 1)) { cache_flush(CC); cache_evict(CC, TRUE); }
         b_check(req.root_addr, PAGE_TYPE_BRANCH, 0);
         if (!btree_verify_tree(CC, &bcfg, req.root_addr, PAGE_TYPE_BRANCH)) mc_violation("the packed tree's own verification fails");
         for (int c = less_than; c <= greater_than_or_equal; c++) for (int s = lo + 1; s < hi; s += 1 + (hi - lo) / 4) b_walk(req.root_addr, PAGE_TYPE_BRANCH, s - 1, hi, s, c, s & 1, NULL, 0);
         b_counts(-1, 2 * NB, mc_argi("cst", st * 3));
         /* a part keeps its own reference: it stays readable when the rest goes */
         int pl = lo + (hi - lo) / 3, ph = lo + 2 * (hi - lo) / 3 + 1;
         int M[MAXKEYS], pn = b_list(pl, ph, M);
         if (pn && pl < ph) {
            btree_inc_ref_range(CC, &bcfg, req.root_addr, bound(pl, a), bound(ph, b));
            if (btree_dec_ref_range(CC, &bcfg, req.root_addr, NEGATIVE_INFINITY_KEY, POSITIVE_INFINITY_KEY)) mc_violation("a branch was freed although a range of it is still referenced");
            for (int i = 0; i < pn; i++) b_check_lookup(req.root_addr, PAGE_TYPE_BRANCH, M[i], 0);
            b_walk(req.root_addr, PAGE_TYPE_BRANCH, pl, ph, pl, greater_than_or_equal, 0, NULL, 0);
            if (!btree_dec_ref_range(CC, &bcfg, req.root_addr, bound(pl, a), bound(ph, b))) mc_violation("the last range of a branch was released but it is not freed");
         } else if (!btree_dec_ref_range(CC, &bcfg, req.root_addr, NEGATIVE_INFINITY_KEY, POSITIVE_INFINITY_KEY)) mc_violation("a branch was released but it is not freed");
         for (int i = 0; i < NB; i++) bm_[i].has = has[i];
      }
      mc_count_check(1);
      if (allocator_in_use(AL) != u1) mc_violation("after releasing the branch [%d,%d) %lu extents are in use, %lu before", lo, hi, allocator_in_use(AL), u1);
      mc_case(mc_hash(&hi, 4, lo * 10000 + tot));
   }
   teardown();
}
/* ---- concurrent insertion and reading ------------------------------------------ */
#include "hist.h"
static btree_scratch scrs[8];
static int cver = 100;
static void rd(int t, int k)
{
   char b[4096], mab[4096];
   merge_accumulator ma;
   merge_accumulator_init_with_buffer(&ma, hid, sizeof mab, mab, WRITABLE_BUFFER_NULL_LENGTH, MESSAGE_TYPE_INVALID);
   hop *o = h_begin(H_GET, k, t);
   platform_status rc = btree_lookup(CC, &bcfg, root, PAGE_TYPE_MEMTABLE, mk(k, b), &ma);
   if (!SUCCESS(rc)) mc_violation("lookup of key %d failed: %d", k, rc.r);
   h_end(o);
   o->found = btree_found(&ma);
   if (o->found) {
      o->vl = merge_accumulator_length(&ma);
      uint64 l = o->vl;
      char *v = merge_accumulator_data(&ma);
      /* filler is implied by the head: check it here, keep the head */
      int i, ve, h = 0;
      if (sscanf(v, "v%d.%d.%n", &i, &ve, &h) != 2 || i != k || h == 0) mc_violation("lookup of key %d gives \"%.20s\"", k, v);
      char e[MAXVAL];
      mk_value(e, i, ve, l);
      if (memcmp(e, v, l)) mc_violation("lookup of key %d gives a torn value", k);
      o->vl = h; memcpy(o->v, v, h);
   }
}
static void b_step(int t, char op, long a, long b)
{
   char k[4096], v[MAXVAL];
   if (op == 'i') { /* i<key>.<len>: insert */
      int n = mk_value(v, a, ++cver, b ? b : 1300);
      hop *o = h_begin(H_PUT, a, t);
      o->vl = sprintf(o->v, "v%d.%d.", (int)a, cver);
      uint64 gen; bool32 u;
      platform_status rc = btree_insert(CC, &bcfg, hid, &scrs[t], root, &bm, mk(a, k), message_create(MESSAGE_TYPE_INSERT, slice_create(n, v)), &gen, &u);
      if (!SUCCESS(rc)) mc_violation("insert of key %ld failed: %d", a, rc.r);
      h_end(o);
      /* (the report that the key was new is right if no one else inserts it) */
      int others = 0;
      for (int q = 0; q < nH; q++) if (H[q].kind == H_PUT && H[q].key == a && &H[q] != o) others++;
      if (!others && u == (model[a].present != 0)) mc_violation("insert of key %ld reports %s", a, u ? "new" : "not new");
   }
   if (op == 'F') for (int q = 0; q < b; q++) b_step(t, 'i', a + q * 2, 1300);
   if (op == 'g') rd(t, a);
   if (op == 's' || op == 'r') { /* scan up / down from key a, b steps */
      char s[4096];
      btree_iterator it;
      uint64 s0 = mc_steps();
      int    last = op == 's' ? -1 : NB, seen[MAXKEYS] = {0};
      btree_iterator_init(CC, &bcfg, &it, root, PAGE_TYPE_MEMTABLE, NEGATIVE_INFINITY_KEY, POSITIVE_INFINITY_KEY, mk(a, s), op == 's' ? greater_than_or_equal : less_than_or_equal, 0, 0);
      int n = 0, end = 0;
      for (; n < b; n++) {
         if (!(op == 's' ? iterator_can_next(&it.super) : iterator_can_prev(&it.super))) { end = 1; break; }
         key kk; message m;
         iterator_curr(&it.super, &kk, &m);
         int  i = -1;
         char kt[16] = {0}, mt[24] = {0};
         memcpy(kt, key_data(kk), key_length(kk) < 15 ? key_length(kk) : 15);
         memcpy(mt, message_data(m), message_length(m) < 23 ? message_length(m) : 23);
         if (sscanf(kt, "k%05d", &i) != 1 || i < 0 || i >= NB || data_key_compare(&dcfg, kk, mk(i, s))) mc_violation("scan: at a key nobody inserted");
         if (op == 's' ? i <= last : i >= last) mc_violation("scan: key %d after key %d", i, last);
         if (op == 's' ? i < a : i > a) mc_violation("scan from %ld: key %d", a, i);
         last = i; seen[i] = 1;
         int i2, ve;
         char e[MAXVAL];
         if (sscanf(mt, "v%d.%d.", &i2, &ve) != 2 || i2 != i) mc_violation("scan: key %d has another key's value", i);
         mk_value(e, i, ve, message_length(m));
         if (memcmp(e, message_data(m), message_length(m))) mc_violation("scan: key %d has a torn value", i);
         mc_count_check(1);
         platform_status rc = op == 's' ? iterator_next(&it.super) : iterator_prev(&it.super);
         if (!SUCCESS(rc)) mc_violation("scan step failed");
      }
      btree_iterator_deinit(&it);
      /* everything that was there before the scan began is seen */
      for (int i = 0; i < NB; i++) {
         int was = model[i].present;
         for (int q = 0; q < nH; q++) if (H[q].kind == H_PUT && H[q].key == i && H[q].e < s0) was = 1;
         int inr = op == 's' ? i >= a && (end || i <= last) : i <= a && (end || i >= last);
         if (was && inr && !seen[i]) mc_violation("scan: key %d was there before the scan began but is not seen", i);
      }
      mc_outcome(n);
   }
}
static void s_conc(void)
{
   setup();
   int nf = mc_argi("fill", 0), pat = mc_argi("pat", 0);
   for (int q = 0; q < nf; q++) { int i = 2 * order(pat, q, nf); b_op(i, MESSAGE_TYPE_INSERT, 1, 1300); m_set(i, bm_[i].v, bm_[i].len); model[i].len = sprintf(model[i].v, "v%d.1.", i); }
   progs_split(mc_arg("prog", "i1|i3"));
   for (int t = 0; t < nprogs; t++) for (const char *q = progs[t]; *q; q++) {
      if (*q == 'i') touched[atoi(q + 1)] = 1;
      if (*q == 'F') { char *e; int a = strtol(q + 1, &e, 10), n = atoi(e + 1); for (int k = 0; k < n; k++) touched[a + 2 * k] = 1; }
   }
   prog_step = b_step;
   progs_go();
   for (int k = 0; k < NB; k++) rd(99, k);
   for (int k = 0; k < NB; k++) touched[k] = 1;
   hist_check("concurrent b-tree history");
   b_step(99, 's', 0, NB + 1);
   b_step(99, 'r', NB - 1, NB + 1);
   if (!btree_verify_tree(CC, &bcfg, root, PAGE_TYPE_MEMTABLE)) mc_violation("the tree's own verification fails");
   teardown();
}
mc_scenario mc_scenarios[] = {{"mem", s_mem}, {"fit", s_fit}, {"pack", s_pack}, {"conc", s_conc}, {0}};
