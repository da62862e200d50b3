/* P12: routing filters answer exactly by fingerprint, for every shape. */
#include "comp.h"
#include "routing_filter.h"
#include "guard.h"

static routing_config rc_;
static int guarded;
extern void mc_free(void *);
static uint32 id_hash(const void *p, size_t n, unsigned int seed) { uint32 u; memcpy(&u, p, 4); return u; }

#define MAXADD 8
#define MAXFP  20000
static uint32 *fps[MAXADD];
static int     nfp[MAXADD], val[MAXADD], nadd;
static routing_filter flt[MAXADD + 1];

/* the i-th of n hash values of shape s */
static uint32 shape(int s, int i, int n, int salt)
{
   switch (s) {
      case 0: return (uint32)(((uint64)i << 32) / n) + salt * 977;                     /* evenly spread */
      case 1: { uint32 x = (i + 1) * 2654435761u + salt * 40503u; x ^= x >> 15; return x * 2246822519u; } /* scattered */
      case 2: return 0;                                                                /* all the same: lowest */
      case 3: return UINT32_MAX;                                                       /* all the same: highest */
      case 4: return (uint32)(((uint64)(i / 3) << 32) / (n / 3 + 1));                  /* in threes, shared between additions */
      case 5: return i & 1 ? UINT32_MAX - (i << 6) : (uint32)i << 6;                   /* at both ends */
      case 6: return (uint32)(((uint64)i * 5 << 32) / (5 * n)) | 0x3f;                 /* shared between additions, low bits set */
   }
   return 0;
}
static uint64 expect(uint32 h, int upto)
{
   uint64 r = 0;
   int    sh = 32 - rc_.fingerprint_size;
   for (int a = 0; a < upto; a++) for (int i = 0; i < nfp[a]; i++) if (fps[a][i] >> sh == h >> sh) { r |= 1ul << val[a]; break; }
   return r;
}
static uint8_t *seen_bits[32];
/* expected answers for all fingerprints through a small hash set */
typedef struct { uint32 fp; uint64 v; } slot;
static slot *tab;
static int   tabn;
static void tab_reset(void) { if (!tab) { tabn = 1 << 17; tab = malloc(tabn * sizeof *tab); } memset(tab, 0, tabn * sizeof *tab); }
static slot *tab_at(uint32 fp) { uint32 h = fp * 2654435761u >> 15; while (tab[h].v && tab[h].fp != fp) h = (h + 1) & (tabn - 1); return &tab[h]; }
static int cb_calls;
static void async_cb(routing_async_ctxt *c) { cb_calls++; }
static void ask(routing_filter *f, uint32 h, uint64 e, int async)
{
   uint64 got = 77;
   mc_count_check(1);
   platform_status rc = routing_filter_lookup(CC, &rc_, f, key_create(4, &h), &got);
   if (!SUCCESS(rc)) mc_violation("filter lookup failed: %d", rc.r);
   if (got != e) mc_violation("after %d additions (last of %d, %u in all): hash %08x is answered %lx, expected %lx", nadd, nfp[nadd - 1], f->num_fingerprints, h, got, e);
   if (async) {
      routing_async_ctxt ctxt;
      cache_async_ctxt   cctxt;
      routing_filter_ctxt_init(&ctxt, &cctxt, async_cb);
      cache_ctxt_init(CC, NULL, NULL, &cctxt);
      cb_calls = 0;
      int ncb = 0;
      for (int guard = 0;; guard++) {
         got = 78;
         cache_async_result r = routing_filter_lookup_async(CC, &rc_, f, key_create(4, &h), &got, &ctxt);
         if (r == async_success) break;
         if (r == async_io_started) { ncb++; while (cb_calls < ncb) { io_cleanup((io_handle *)iohp, 1); } if (cb_calls != ncb) mc_violation("%d notifications for %d suspensions", cb_calls, ncb); }
         if (guard > 100) mc_violation("an asynchronous filter lookup does not finish");
      }
      if (cb_calls != ncb) mc_violation("%d notifications for %d suspensions", cb_calls, ncb);
      if (got != e) mc_violation("asynchronous filter lookup of hash %08x gives %lx, expected %lx", h, got, e);
   }
}
static void check_filter(routing_filter *f, int cold)
{
   int sh = 32 - rc_.fingerprint_size, step = f->num_fingerprints > 4000 ? 7 : 1;
   for (int a = 0; a < nadd; a++) for (int i = 0; i < nfp[a]; i++) {
      if (i % step && i > 40 && i < nfp[a] - 40) continue;
      uint32 h = fps[a][i];
      ask(f, h, tab_at(h >> sh)->v, cold && i % 97 == 0);
      /* neighbours and the same fingerprint with other low bits */
      ask(f, h ^ (sh ? 1 : 0), tab_at((h ^ (sh ? 1 : 0)) >> sh)->v, 0);
      uint32 u = h + (1u << sh), d = h - (1u << sh);
      ask(f, u, tab_at(u >> sh)->v, 0);
      ask(f, d, tab_at(d >> sh)->v, 0);
   }
   for (int i = 0; i < 300; i++) { uint32 h = (uint32)(((uint64)i << 32) / 300); ask(f, h, tab_at(h >> sh)->v, 0); }
}
static int shapes[8], nshapes;
static void add(int a, int n, int s, int v)
{
   nfp[a] = n; val[a] = v;
   fps[a] = realloc(fps[a], (n + 1) * sizeof(uint32));
   uint32 *c = malloc((n + 1) * sizeof(uint32));
   for (int i = 0; i < n; i++) fps[a][i] = shape(s, i, n, a);
   /* (not in order) */
   for (int i = n - 1; i > 0; i--) { int j = (i * 7919u + 13) % (i + 1); uint32 t = fps[a][i]; fps[a][i] = fps[a][j]; fps[a][j] = t; }
   memcpy(c, fps[a], n * sizeof(uint32));
   nadd = a + 1;
   int sh = 32 - rc_.fingerprint_size;
   for (int i = 0; i < n; i++) { slot *x = tab_at(fps[a][i] >> sh); x->fp = fps[a][i] >> sh; x->v |= 1ul << v; }
   platform_status rc = routing_filter_add(CC, &rc_, &flt[a], &flt[a + 1], c, n, v);
   if (!SUCCESS(rc)) mc_violation("building a filter failed: %d", rc.r);
   free(c);
}
static void s_build(void)
{
   static const int std_[] = {1, 2, 3, 63, 64, 65, 127, 128, 200, 255, 256, 257, 511, 512, 513, 700, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 6000, 8191, 8192};
   static int sizes_[4096];
   static const int vals_[][MAXADD] = {{0, 1, 2, 3, 4, 5, 6, 7}, {0, 3, 4, 8, 15, 16, 23, 23}, {23, 23, 23, 23, 23, 23, 23, 23}, {1, 2, 4, 8, 16, 17, 22, 23}};
   static const int ishift[] = {4, 6, 8, 9};
   capture_logs();
   default_data_config_init(24, &dcfg);
   stack_up(200, 1024, 0, 0, 0);
   memset(&rc_, 0, sizeof rc_);
   rc_.cache_cfg = &cccfg.super;
   rc_.data_cfg  = &dcfg;
   rc_.hash      = id_hash;
   rc_.seed      = 42;
   rc_.log_index_size = ishift[mc_choose(4, "index size")];
   rc_.index_size     = 1 << rc_.log_index_size;
   int fs[] = {27, 26, 22, 18};
   rc_.fingerprint_size = fs[mc_choose(mc_argi("fps", 3), "fingerprint bits")];
   int vp = mc_choose(mc_argi("vp", 4), "values"), d = mc_argi("d", 2), lim = mc_argi("lim", 8192), st = mc_argi("st", 1);
   guarded = mc_argi("guard", 0);
   if (guarded) guard_on(CC);
   uint64 u0 = allocator_in_use(AL);
   int ns = 0;
   if (mc_argi("sweep", 0)) for (int i = mc_argi("from", 1); i <= mc_argi("sweep", 0); i++) sizes_[ns++] = i;
   else for (; ns < sizeof std_ / sizeof *std_; ns++) sizes_[ns] = std_[ns];
   mc_arm_watchdog(0);
   int idx[MAXADD], sidx[MAXADD];
   int s0 = mc_choose((ns + st - 1) / st, "first size") * st;
   if (sizes_[s0] > lim) mc_prune();
   int shmask = mc_argi("shapes", 0x7f);
   int first = mc_choose(7, "first shape");
   if (!(shmask >> first & 1)) mc_prune();
   /* the other additions are enumerated here */
   long tot = 1;
   for (int a = 1; a < d; a++) tot *= ((ns + st - 1) / st) * 7;
   for (long q = 0; q < tot; q++) {
      idx[0] = s0; sidx[0] = first;
      long x = q;
      int  skip = 0;
      for (int a = 1; a < d; a++) {
         idx[a] = x % ((ns + st - 1) / st) * st; x /= (ns + st - 1) / st;
         sidx[a] = x % 7; x /= 7;
         if (sizes_[idx[a]] > lim || !(shmask >> sidx[a] & 1)) skip = 1;
      }
      if (skip) continue;
      /* shape 5 puts everything into the two outermost blocks, which must fit a page */
      for (int a = 0; a < d; a++) if (sidx[a] == 5 && sizes_[idx[a]] > 400) skip = 1;
      if (skip) continue;
      memset(flt, 0, sizeof flt);
      tab_reset();
      uint64 sig = vp * 100 + rc_.index_size;
      for (int a = 0; a < d; a++) {
         add(a, sizes_[idx[a]], sidx[a], vals_[vp][a]);
         if (a && flt[a].num_fingerprints > flt[a + 1].num_fingerprints) mc_violation("a filter lost fingerprints");
         sig = sig * 1000003 + idx[a] * 8 + sidx[a];
      }
      if (mc_argi("cold", 1)) { cache_flush(CC); cache_evict(CC, TRUE); }
      check_filter(&flt[d], 1);
      uint32 est = routing_filter_estimate_unique_keys(&flt[d], &rc_);
      (void)est;
      for (int a = 0; a < d; a++) routing_filter_zap(CC, &flt[a + 1]);
      mc_count_check(1);
      if (allocator_in_use(AL) != u0) mc_violation("after releasing the filters %lu extents are in use, %lu before", allocator_in_use(AL), u0);
      mc_case(sig);
   }
   if (guarded) guard_off(CC);
   stack_down();
}
mc_scenario mc_scenarios[] = {{"build", s_build}, {0}};
