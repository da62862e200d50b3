/* P08: the page cache against a model of what every page contains. */
#include "pthr.h"
#include "comp.h"
void mc_io_point(void *a);

#define NE 64
#define PPX 32
#define TY PAGE_TYPE_BRANCH
static uint64 base[NE];                 /* extent number -> address, 0 if none */
static uint64 ver[NE][PPX];             /* 0: never written */
static int    rd[NE][PPX], wr[NE][PPX], cl[NE][PPX];
static uint64 nver;
static int    ne, np;                   /* extents, cached pages */
static uint64 addr_of(int p) { return base[p / PPX] + (p % PPX) * PG; }
#define VER(p) ver[(p) / PPX][(p) % PPX]
#define RD(p) rd[(p) / PPX][(p) % PPX]
#define WR(p) wr[(p) / PPX][(p) % PPX]
#define CL(p) cl[(p) / PPX][(p) % PPX]
static uint64 word(uint64 addr, uint64 v, int i) { return addr * 0x9E3779B97F4A7C15ull ^ v * 0xBF58476D1CE4E5B9ull ^ (uint64)i << 50; }
static void fill_half(uint64 addr, char *data, uint64 v, int h) { uint64 *w = (uint64 *)data; for (int i = h * 256; i < h * 256 + 256; i++) w[i] = word(addr, v, i); }
static void check_data(int p, const char *data, const char *what)
{
   const uint64 *w = (const uint64 *)data;
   uint64 a = addr_of(p), v = VER(p);
   mc_count_check(1);
   for (int i = 0; i < 512; i += 15) if (w[i] != word(a, v, i)) mc_violation("%s: page %d does not hold what was last written to it (word %d)", what, p, i);
}
static void check_page(int p, page_handle *h, const char *what)
{
   if (!h) mc_violation("%s: page %d was not returned", what, p);
   if (h->disk_addr != addr_of(p)) mc_violation("%s: asked for the page at %lu and got the one at %lu", what, addr_of(p), h->disk_addr);
   if (WR(p)) mc_violation("%s: page %d is readable while another thread writes it", what, p);
   check_data(p, h->data, what);
}
static void r_in(int p, page_handle *h, const char *what) { RD(p)++; check_page(p, h, what); }
static void r_out(int p, page_handle *h) { check_page(p, h, "while held"); RD(p)--; }
static void c_in(int p) { if (CL(p)++) mc_violation("two threads hold a claim on page %d", p); if (WR(p)) mc_violation("page %d was claimed while another thread writes it", p); }
static void c_out(int p) { if (CL(p)-- != 1) mc_violation("two threads held a claim on page %d", p); }
static void put(page_handle *h) { cache_unget(CC, h); }
static page_handle *get_claim(int p)
{
   for (;;) {
      page_handle *h = cache_get(CC, addr_of(p), TRUE, TY);
      r_in(p, h, "get");
      if (cache_try_claim(CC, h)) { c_in(p); return h; }
      r_out(p, h); put(h);
      mc_yield();
   }
}
static void w_in(int p, page_handle *h)
{
   c_out(p); CL(p)++;
   RD(p)--;
   cache_lock(CC, h);
   if (RD(p)) mc_violation("page %d is writable while %d other threads read it", p, RD(p));
   if (WR(p)++) mc_violation("page %d is writable by two threads", p);
   check_data(p, h->data, "locked");
}
static void modify(int p, page_handle *h, int late)
{
   uint64 v = ++nver;
   if (!late) cache_mark_dirty(CC, h);
   fill_half(addr_of(p), h->data, v, 0);
   mc_io_point(h);
   fill_half(addr_of(p), h->data, v, 1);
   if (late) cache_mark_dirty(CC, h);
   VER(p) = v;
}
static void w_out(int p, page_handle *h)
{
   check_data(p, h->data, "locked");
   if (RD(p) || WR(p) != 1) mc_violation("another thread used page %d while it was locked", p);
   WR(p)--;
   RD(p)++;
   cache_unlock(CC, h);
}
static void write_page(int p, int sync)
{
   page_handle *h = get_claim(p);
   w_in(p, h);
   modify(p, h, sync & 1);
   w_out(p, h);
   c_out(p);
   cache_unclaim(CC, h);
   if (sync) cache_page_sync(CC, h, sync == 2, TY);
   r_out(p, h);
   put(h);
}
static void new_pages(int e, int from, int n)
{
   for (int i = from; i < from + n; i++) {
      int p          = e * PPX + i;
      page_handle *h = cache_alloc(CC, addr_of(p), TY);
      if (!h || h->disk_addr != addr_of(p)) mc_violation("allocating page %d gave another one", p);
      if (RD(p) || WR(p)++) mc_violation("a new page is in use");
      modify(p, h, 0);
      w_out(p, h); RD(p)--;
      cache_unclaim(CC, h);
      put(h);
   }
}
static void new_extent(int e, int n)
{
   uint64 a;
   platform_status rc = allocator_alloc(AL, &a, TY);
   if (!SUCCESS(rc)) mc_violation("out of space");
   for (int i = 0; i < NE; i++) if (base[i] == a) mc_violation("extent handed out twice");
   base[e] = a;
   new_pages(e, 0, n);
}
static void drop_extent(int e)
{
   uint64 a = base[e];
   if (allocator_dec_ref(AL, a, TY) != AL_NO_REFS) mc_violation("harness: shared extent");
   cache_extent_discard(CC, a, TY);
   base[e] = 0;
   memset(ver[e], 0, sizeof ver[e]);
   if (allocator_dec_ref(AL, a, TY) != AL_FREE) mc_violation("harness: shared extent");
}
/* asynchronous reads */
typedef struct { cache_async_ctxt c; int p, cbs, started, done; page_handle *h; } areq;
static void on_read(cache_async_ctxt *c)
{
   areq *q = c->cbdata;
   if (!q->started || q->cbs++) mc_violation("completion of page %d was signalled %s", q->p, q->started ? "twice" : "although no read was started");
}
static void try_async(areq *q)
{
   if (q->h || q->started) return;
   cache_ctxt_init(CC, on_read, q, &q->c);
   q->started = 1; /* the callback may come before the call returns */
   cache_async_result r = cache_get_async(CC, addr_of(q->p), TY, &q->c);
   mc_outcome(r);
   switch (r) {
      case async_success:
         if (q->cbs) mc_violation("completion of page %d was signalled although it was cached", q->p);
         q->started = 0; q->h = q->c.page; r_in(q->p, q->h, "async get"); break;
      case async_io_started: break;
      case async_locked: case async_no_reqs:
         if (q->cbs) mc_violation("completion of page %d was signalled although no read was started", q->p);
         q->started = 0; cache_cleanup(CC); mc_yield(); break;
      default: mc_violation("asynchronous get returns %d", r);
   }
}
static void wait_async(areq *q)
{
   if (q->h) return;
   if (!q->cbs) { cache_cleanup(CC); if (!q->cbs) { mc_yield(); return; } }
   cache_async_done(CC, TY, &q->c);
   q->h = q->c.page;
   r_in(q->p, q->h, "async get");
}
static void async_pages(int a, int n)
{
   areq *q = calloc(n, sizeof *q);
   for (int i = 0; i < n; i++) q[i].p = a + i;
   for (;;) {
      int left = 0;
      for (int i = 0; i < n; i++) {
         try_async(&q[i]);
         if (!q[i].h) left++;
      }
      if (!left) break;
      for (int i = 0; i < n; i++) if (q[i].started) wait_async(&q[i]);
   }
   for (int i = 0; i < n; i++) {
      if (q[i].cbs != q[i].started) mc_violation("completion of page %d was signalled %d times", q[i].p, q[i].cbs);
      r_out(q[i].p, q[i].h); put(q[i].h);
   }
   free(q);
}
static void read_page(int p)
{
   page_handle *h = cache_get(CC, addr_of(p), TRUE, TY);
   r_in(p, h, "get");
   r_out(p, h);
   put(h);
}
static int fillp; /* first page of the filler area */
static void step(int t, char op, long a, long b)
{
   (void)t;
   page_handle *h;
   switch (op) {
      case 'g': for (int i = 0; i < (b ? b : 1); i++) read_page(a + i); break;
      case 'w': for (int i = 0; i < (b ? b : 1); i++) write_page(a + i, 0); break;
      case 's': write_page(a, 1); break;              /* and start writing it back */
      case 'S': write_page(a, 2); break;              /* and wait for that */
      case 'c': h = get_claim(a); mc_io_point(h); c_out(a); check_page(a, h, "claimed"); cache_unclaim(CC, h); r_out(a, h); put(h); break;
      case 'G': h = cache_get(CC, addr_of(a), FALSE, TY); mc_outcome(!!h); if (h) { r_in(a, h, "get"); r_out(a, h); put(h); } break;
      case '2': { /* two pages at once, locks taken in order */
         page_handle *h1 = get_claim(a), *h2 = get_claim(a + 1);
         w_in(a, h1); w_in(a + 1, h2);
         modify(a, h1, 0); modify(a + 1, h2, 1);
         w_out(a + 1, h2); c_out(a + 1); cache_unclaim(CC, h2); r_out(a + 1, h2); put(h2);
         w_out(a, h1); c_out(a); cache_unclaim(CC, h1); r_out(a, h1); put(h1);
         break; }
      case 'i': /* keep it in memory over some pressure */
         h = get_claim(a); w_in(a, h); cache_pin(CC, h); w_out(a, h); c_out(a); cache_unclaim(CC, h); r_out(a, h); put(h);
         for (int i = 0; i < b; i++) read_page(fillp + i);
         {
            uint64 n0 = sim_nread;
            h = cache_get(CC, addr_of(a), TRUE, TY); r_in(a, h, "pinned");
            if (nprogs <= 1 && sim_nread != n0) mc_violation("pinned page %ld was evicted", a);
            cache_unpin(CC, h); r_out(a, h); put(h);
         }
         break;
      case 'a': async_pages(a, b ? b : 1); break;
      case 'p': cache_prefetch(CC, base[a], TY); break;
      case 'h': for (int i = 0; i < b; i++) read_page(fillp + a + i); break;
      case 'H': for (int i = 0; i < b; i++) write_page(fillp + a + i, 0); break;
      case 'x': drop_extent(a); new_extent(a, b ? b : 4); break;
      case 'X': drop_extent(a); break;
      case 'N': new_extent(a, b ? b : 4); break;
      case 'k': cache_cleanup(CC); break;
      case 'M': mc_note("writes %lu reads %lu %lx", sim_nwrite, sim_nread, *(long*)cache_get(CC, addr_of(0), TRUE, TY)->data); break;
      case 'W': io_wait_all((io_handle *)iohp); break;
      case 'E': cache_evict(CC, TRUE); break;
      case 'y': mc_yield(); break;
      case '!': mc_sched_arm(a); break;
      case 'F': cache_flush(CC); break;
      default: mc_violation("harness: bad letter %c", op);
   }
}
static void device_matches(const char *when)
{
   for (int p = 0; p < NE * PPX; p++) if (base[p / PPX] && VER(p)) check_data(p, sim_disk_base() + addr_of(p), when);
}
static void up(void)
{
   ne = mc_argi("ext", 10); np = mc_argi("pages", 192);
   int hot = mc_argi("hot", 2);
   stack_up(ne + 16, np, mc_argi("qd", 0), 0, 0);
   for (int e = 0; e < ne; e++) new_extent(e, PPX);
   fillp = hot * PPX;
   cache_flush(CC);
   device_matches("after filling and flushing");
   if (mc_argi("cold", 1)) cc_restart(np);
   else if (mc_argi("fresh", 1)) for (int i = 0; i < hot * PPX; i++) read_page(i);
   if (mc_argi("warm", 0)) for (int i = 0; i < mc_argi("warm", 0); i++) { if (mc_argi("wdirty", 0)) write_page(i, 0); else read_page(i); }
}
static void down(void)
{
   mc_arm_watchdog(0);
   for (int e = 0; e < NE; e++) for (int i = 0; i < PPX; i++) if (rd[e][i] || wr[e][i] || cl[e][i]) mc_violation("harness: unbalanced");
   for (int p = 0; p < NE * PPX; p++) if (base[p / PPX] && VER(p)) cache_assert_ungot(CC, addr_of(p));
   cache_flush(CC);
   if (cache_count_dirty(CC)) mc_violation("%u pages are still dirty after a flush", cache_count_dirty(CC));
   device_matches("on the device after a flush");
   /* every slot of the cache can still be used, except the batches that
    * departed threads keep reserved */
   int lim = np - 64 * nprogs;
   page_handle *h[1024];
   int n = 0;
   for (int p = 0; p < NE * PPX && n < lim; p++) if (base[p / PPX] && VER(p)) { h[n] = cache_get(CC, addr_of(p), TRUE, TY); check_page(p, h[n], "at the end"); n++; }
   for (int i = 0; i < n; i++) put(h[i]);
   cache_evict(CC, FALSE);
   if (mc_argi("again", 0)) cc_restart(np);
   if (mc_argi("again", 0)) for (int p = 0; p < NE * PPX; p += 3) if (base[p / PPX] && VER(p)) read_page(p);
   stack_down();
}
static void s_conc(void)
{
   up();
   sim_reorder = mc_argi("reorder", 0);
   prog_step   = step;
   progs_split(mc_arg("prog", "g0|w0"));
   progs_go();
   sim_reorder = 0;
   down();
}
/* one thread: every sequence of operations, with completions reordered */
static void s_seq(void)
{
   up();
   sim_reorder = 1;
   mc_set_budget(mc_argi("b", 1));
   static const char *ops[] = {"w0", "g0.3", "G1", "s0", "S1", "a0.3", "p0", "h0.150", "H0.100", "x0.32", "a7.2", "i2.60", "F", "20", "p1,a34.3", "W"};
   int d = mc_argi("d", 3), n = sizeof ops / sizeof *ops;
   for (int q = 0; q < d; q++) {
      int k = mc_choose(n, "op");
      mc_arm_watchdog(0);
      prog_step = step;
      prog_run(0, ops[k]);
   }
   io_wait_all((io_handle *)iohp);
   sim_reorder = 0;
   down();
}
mc_scenario mc_scenarios[] = {{"conc", s_conc}, {"seq", s_seq}, {0}};
