/* Page access discipline: the memory of a cached page can be read only while
 * somebody holds the page and written only while it is write-locked (or has
 * just been allocated); everything else faults.  Enforced with the page
 * protection of the cache's own buffer, driven by the cache interface. */
#pragma once
#include <sys/mman.h>
#define G_RC_WIDTH 4 /* CC_RC_WIDTH */
static cache_ops        g_ops;
static const cache_ops *g_real;
static char            *g_base;
static long             g_pages;
typedef struct { int refs, wl, prot; } gpage;
static gpage *g_pg;
static long   g_idx(const char *d)
{
   long i = (d - g_base) / 4096;
   if (d < g_base || i >= g_pages) mc_violation("harness: page memory outside the cache buffer");
   return i;
}
static void g_set(long i)
{
   gpage *p    = &g_pg[i];
   int    want = p->wl ? PROT_READ | PROT_WRITE : p->refs > 0 ? PROT_READ : PROT_NONE;
   if (want == p->prot) return;
   p->prot = want;
   if (mprotect(g_base + i * 4096, 4096, want)) mc_violation("harness: mprotect failed");
}
static void g_add(page_handle *pg, int refs, int wl)
{
   if (!pg) return;
   long i = g_idx(pg->data);
   g_pg[i].refs += refs;
   g_pg[i].wl += wl;
   g_set(i);
}
static void g_io(void *buf, size_t n, int begin)
{
   char *b = buf;
   if (!g_base || b + n <= g_base || b >= g_base + g_pages * 4096) return;
   for (long i = (b - g_base) / 4096; i < g_pages && g_base + i * 4096 < b + n; i++) {
      if (i < 0) continue;
      if (begin) { g_pg[i].prot = -1; mprotect(g_base + i * 4096, 4096, PROT_READ | PROT_WRITE); }
      else g_set(i);
   }
}
static page_handle *g_alloc(cache *cc, uint64 addr, page_type t)
{
   page_handle *p = g_real->page_alloc(cc, addr, t);
   g_add(p, 1, 1);
   return p;
}
static page_handle *g_get(cache *cc, uint64 addr, bool32 b, page_type t)
{
   page_handle *p = g_real->page_get(cc, addr, b, t);
   g_add(p, 1, 0);
   return p;
}
static cache_async_result g_get_async(cache *cc, uint64 addr, page_type t, cache_async_ctxt *x)
{
   cache_async_result r = g_real->page_get_async(cc, addr, t, x);
   if (r == async_success) g_add(x->page, 1, 0);
   return r;
}
static void g_async_done(cache *cc, page_type t, cache_async_ctxt *x)
{
   g_real->page_async_done(cc, t, x);
   g_add(x->page, 1, 0);
}
static void g_unget(cache *cc, page_handle *p) { long i = g_idx(p->data); g_real->page_unget(cc, p); g_pg[i].refs--; g_set(i); }
static void g_lock(cache *cc, page_handle *p) { g_real->page_lock(cc, p); g_add(p, 0, 1); }
static void g_unlock(cache *cc, page_handle *p) { g_add(p, 0, -1); g_real->page_unlock(cc, p); }
static void g_discard(cache *cc, uint64 a, page_type t) { g_real->extent_discard(cc, a, t); }
static void guard_on(cache *cc)
{
   clockcache *c = (clockcache *)cc;
   g_real = cc->ops; g_ops = *g_real;
   g_base = c->data; g_pages = c->cfg->page_capacity;
   if ((uintptr_t)g_base & 4095) mc_violation("harness: cache buffer is not page-aligned");
   g_pg = calloc(g_pages, sizeof *g_pg);
   for (long i = 0; i < g_pages; i++) {
      g_pg[i].prot = PROT_READ | PROT_WRITE;
      /* held at this moment: counted from the cache's own reference counts */
      uint64 rn = i % c->cfg->cacheline_capacity * PLATFORM_CACHELINE_SIZE + i / c->cfg->cacheline_capacity;
      for (uint64 t = 0; t * g_pages + rn < g_pages * G_RC_WIDTH; t++) g_pg[i].refs += c->refcount[t * g_pages + rn];
      g_set(i);
   }
   g_ops.page_alloc = g_alloc; g_ops.page_get = g_get; g_ops.page_get_async = g_get_async; g_ops.page_async_done = g_async_done;
   g_ops.page_unget = g_unget; g_ops.page_lock = g_lock; g_ops.page_unlock = g_unlock; g_ops.extent_discard = g_discard;
   cc->ops = &g_ops;
   sim_buf_hook = g_io;
}
static __attribute__((unused)) void guard_off(cache *cc)
{
   if (!g_base) return;
   sim_buf_hook = NULL;
   cc->ops = g_real;
   mprotect(g_base, g_pages * 4096, PROT_READ | PROT_WRITE);
   free(g_pg);
   g_base = NULL; g_pg = NULL;
}
/* after the cache is gone */
static __attribute__((unused)) void guard_forget(void)
{
   sim_buf_hook = NULL;
   free(g_pg);
   g_base = NULL; g_pg = NULL;
}
