/*
 * Simulated device, asynchronous I/O, shared memory segments and heap for the
 * code under test.  All state is private memory, so that a fork snapshots it.
 */
#define _GNU_SOURCE
#include "mc.h"
#include "mc_int.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <malloc.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/shm.h>
#include <libaio.h>

#define FDBASE 1000
#define NFILES 4
#define NFD    16
static struct { char path[128]; int exists; char *base; uint64_t size; } files[NFILES];
static struct { int used, file; } fds[NFD];
static uint64_t cap = 1ull << 31;
int      sim_open_fds, sim_ctxs, sim_faults_injected, sim_reorder;
unsigned sim_fault_mask;
uint64_t sim_nread, sim_nwrite, sim_torn, sim_mmap_bytes;
sim_write *sim_wlog;
long       sim_nwlog;
static long cap_wlog;
static int  logging;
int         sim_check_torn = 1;
long        sim_heap_live;

static int fault(unsigned kind, int n, const char *tag)
{
   if (!(sim_fault_mask & kind)) return 0;
   int c = mc_deviate(n, tag);
   if (c) { sim_faults_injected++; mc_note("fault: %s variant %d", tag, c); }
   return c;
}

static int file_of(const char *path, int create)
{
   int fr = -1;
   for (int i = 0; i < NFILES; i++) {
      if (files[i].path[0] && !strcmp(files[i].path, path)) {
         if (!files[i].exists && !create) return -1;
         files[i].exists = 1;
         return i;
      }
      if (fr < 0 && !files[i].path[0]) fr = i;
   }
   if (!create || fr < 0) return -1;
   snprintf(files[fr].path, sizeof files[fr].path, "%s", path);
   files[fr].exists = 1;
   files[fr].base   = mmap(NULL, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   return fr;
}
char    *sim_disk_base(void) { int f = file_of(SIM_DISK, 1); return files[f].base; }
uint64_t sim_disk_size(void) { int f = file_of(SIM_DISK, 1); return files[f].size; }
void     sim_set_disk_size(uint64_t s) { int f = file_of(SIM_DISK, 1); files[f].size = s; }

int mc_open(const char *p, int flags, ...)
{
   if (strncmp(p, "/mcdisk", 7)) {
      va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
      return open(p, flags, m);
   }
   if (fault(F_OPEN, 2, "open-fails")) { errno = EIO; return -1; }
   int f = file_of(p, flags & O_CREAT);
   if (f < 0) { errno = ENOENT; return -1; }
   for (int i = 0; i < NFD; i++)
      if (!fds[i].used) { fds[i].used = 1; fds[i].file = f; sim_open_fds++; return FDBASE + i; }
   errno = EMFILE;
   return -1;
}
static int fdi(int fd) { fd -= FDBASE; if (fd < 0 || fd >= NFD || !fds[fd].used) return -1; return fds[fd].file; }
int mc_close(int fd)
{
   if (fd < FDBASE) return close(fd);
   int f = fdi(fd);
   if (f < 0) { errno = EBADF; return -1; }
   fds[fd - FDBASE].used = 0;
   sim_open_fds--;
   return 0;
}
int mc_fstat(int fd, struct stat *st)
{
   if (fd < FDBASE) return fstat(fd, st);
   int f = fdi(fd);
   if (f < 0) { errno = EBADF; return -1; }
   if (fault(F_OPEN, 2, "fstat-fails")) { errno = EIO; return -1; }
   memset(st, 0, sizeof *st);
   st->st_mode = S_IFREG | 0600;
   st->st_size = files[f].size;
   return 0;
}
int mc_fallocate(int fd, int mode, off_t off, off_t len)
{
   (void)mode;
   int f = fdi(fd);
   if (f < 0) { errno = EBADF; return -1; }
   if (fault(F_OPEN, 2, "fallocate-fails")) { errno = ENOSPC; return -1; }
   if ((uint64_t)(off + len) > files[f].size) files[f].size = off + len;
   return 0;
}
int mc_fallocate3(int fd, off_t off, off_t len) { return mc_fallocate(fd, 0, off, len); }
int mc_ftruncate(int fd, off_t len) { int f = fdi(fd); if (f < 0) { errno = EBADF; return -1; } files[f].size = len; return 0; }
int mc_fsync(int fd) { return fdi(fd) < 0 ? -1 : 0; }

void (*sim_buf_hook)(void *buf, size_t n, int begin);
static void log_write(int f, uint64_t off, const char *buf, uint32_t len)
{
   if (!logging) return;
   if (sim_nwlog == cap_wlog) { cap_wlog = cap_wlog ? cap_wlog * 2 : 64; sim_wlog = realloc(sim_wlog, cap_wlog * sizeof *sim_wlog); }
   sim_write *w = &sim_wlog[sim_nwlog++];
   w->seq = mc_ev; w->fd_file = f; w->off = off; w->len = len;
   w->data = malloc(len);
   if (sim_buf_hook) sim_buf_hook((void *)buf, len, 1);
   memcpy(w->data, buf, len);
   if (sim_buf_hook) sim_buf_hook((void *)buf, len, 0);
   w->old = malloc(len);
   memcpy(w->old, files[f].base + off, len);
}
void sim_log_writes(int on) { logging = on; }
void sim_log_clear(void)
{
   for (long i = 0; i < sim_nwlog; i++) { free(sim_wlog[i].data); free(sim_wlog[i].old); }
   sim_nwlog = 0;
}
static ssize_t do_write(int f, const char *buf, size_t n, uint64_t off)
{
   if (off + n > cap) { errno = ENOSPC; return -1; }
   log_write(f, off, buf, n);
   if (sim_buf_hook) sim_buf_hook((void *)buf, n, 1);
   memcpy(files[f].base + off, buf, n);
   if (sim_buf_hook) sim_buf_hook((void *)buf, n, 0);
   if (off + n > files[f].size) files[f].size = off + n;
   sim_nwrite++;
   return n;
}
static ssize_t do_read(int f, char *buf, size_t n, uint64_t off)
{
   sim_nread++;
   if (off >= files[f].size) return 0;
   if (off + n > files[f].size) n = files[f].size - off;
   if (sim_buf_hook) sim_buf_hook(buf, n, 1);
   memcpy(buf, files[f].base + off, n);
   if (sim_buf_hook) sim_buf_hook(buf, n, 0);
   return n;
}
ssize_t mc_pread(int fd, void *buf, size_t n, off_t off)
{
   int f = fdi(fd);
   if (f < 0) { errno = EBADF; return -1; }
   int c = fault(F_SYNC_RD, 3, "pread");
   if (c == 1) { errno = EIO; return -1; }
   if (c == 2) return do_read(f, buf, n / 2, off);
   return do_read(f, buf, n, off);
}
ssize_t mc_pwrite(int fd, const void *buf, size_t n, off_t off)
{
   int f = fdi(fd);
   if (f < 0) { errno = EBADF; return -1; }
   int c = fault(F_SYNC_WR, 3, "pwrite");
   if (c == 1) { errno = EIO; return -1; }
   if (c == 2) return do_write(f, buf, n / 2, off);
   return do_write(f, buf, n, off);
}

/* ---- asynchronous I/O ------------------------------------------------------ */
#define NCTX 64
#define NPEND 1024
typedef struct { struct iocb *cb; uint64_t h; int file; } pend;
static struct { int used; int n; pend p[NPEND]; } *ctxs;

static int ctx_id(io_context_t c)
{
   intptr_t i = (intptr_t)c - 1;
   if (!ctxs || i < 0 || i >= NCTX || !ctxs[i].used) return -1;
   return i;
}
int mc_io_setup(int n, io_context_t *c)
{
   (void)n;
   if (*c) return -EINVAL;
   if (fault(F_SETUP, 2, "io_setup-fails")) return -EAGAIN;
   if (!ctxs) ctxs = mmap(NULL, sizeof *ctxs * NCTX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   for (int i = 0; i < NCTX; i++)
      if (!ctxs[i].used) { ctxs[i].used = 1; ctxs[i].n = 0; *c = (io_context_t)(intptr_t)(i + 1); sim_ctxs++; return 0; }
   return -EAGAIN;
}
int mc_io_destroy(io_context_t c)
{
   int i = ctx_id(c);
   if (i < 0) return -EINVAL;
   if (ctxs[i].n) mc_violation("an I/O context is destroyed with %d requests in flight", ctxs[i].n);
   ctxs[i].used = 0;
   sim_ctxs--;
   return 0;
}
static uint64_t iov_hash(const struct iovec *v, int n)
{
   uint64_t h = 7;
   for (int i = 0; i < n; i++) {
      const uint64_t *q = v[i].iov_base;
      if (sim_buf_hook) sim_buf_hook(v[i].iov_base, v[i].iov_len, 1);
      for (size_t k = 0; k < v[i].iov_len / 8; k++) { h ^= q[k]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31; }
      if (sim_buf_hook) sim_buf_hook(v[i].iov_base, v[i].iov_len, 0);
   }
   return h;
}
int mc_io_submit(io_context_t c, long nr, struct iocb **cbs)
{
   int i = ctx_id(c);
   if (i < 0) return -EINVAL;
   long k;
   int  ch = fault(F_SUBMIT, 3, "io_submit");
   if (ch == 1) return -EAGAIN;
   if (ch == 2) return 0;
   for (k = 0; k < nr; k++) {
      struct iocb *cb = cbs[k];
      if (ctxs[i].n >= NPEND) return k ? k : -EAGAIN;
      int f = fdi(cb->aio_fildes);
      if (f < 0) return k ? k : -EBADF;
      pend *p = &ctxs[i].p[ctxs[i].n++];
      p->cb   = cb;
      p->file = f;
      p->h    = cb->aio_lio_opcode == IO_CMD_PWRITEV && sim_check_torn ? iov_hash(cb->u.c.buf, cb->u.c.nbytes) : 0;
   }
   return k;
}
void mc_io_point(void *a);
int mc_io_getevents(io_context_t c, long min_nr, long nr, struct io_event *ev, struct timespec *to)
{
   (void)min_nr; (void)to;
   int i = ctx_id(c);
   if (i < 0) return -EINVAL;
   mc_io_point(&ctxs[i]);
   if (fault(F_GETEV, 2, "io_getevents")) return -EINTR;
   long k = 0;
   for (; k < nr; k++) {
      int n = ctxs[i].n;
      if (!n) break;
      int w = 0;
      if (sim_reorder) {
         int m = n > 3 ? 3 : n;
         w     = mc_deviate(m + 1, "completion-order");
         if (w == m) { /* nothing is ready yet */ if (k == 0) mc_yield(); break; }
         if (w && w == m - 1) w = n - 1;
      }
      pend p = ctxs[i].p[w];
      memmove(&ctxs[i].p[w], &ctxs[i].p[w + 1], sizeof(pend) * (n - w - 1));
      ctxs[i].n--;
      struct iocb  *cb  = p.cb;
      uint64_t      off = cb->u.c.offset;
      long          res = 0;
      if (cb->aio_lio_opcode == IO_CMD_PWRITEV || cb->aio_lio_opcode == IO_CMD_PREADV) {
         const struct iovec *v = cb->u.c.buf;
         int                 nv = cb->u.c.nbytes;
         int                 wr = cb->aio_lio_opcode == IO_CMD_PWRITEV;
         int                 ch = fault(wr ? F_ASYNC_WR : F_ASYNC_RD, 3, wr ? "async-write" : "async-read");
         if (ch == 1) res = -EIO;
         else {
            if (wr && sim_check_torn && iov_hash(v, nv) != p.h) {
               sim_torn++;
               mc_violation("the buffer of a write in flight was modified (torn page at device offset %llu)", (unsigned long long)off);
            }
            int lim = ch == 2 ? nv / 2 : nv;
            for (int q = 0; q < lim; q++) {
               ssize_t r = wr ? do_write(p.file, v[q].iov_base, v[q].iov_len, off) : do_read(p.file, v[q].iov_base, v[q].iov_len, off);
               if (r < 0) { res = -errno; break; }
               res += r; off += v[q].iov_len;
               if (r < (ssize_t)v[q].iov_len) break;
            }
         }
      } else if (cb->aio_lio_opcode == IO_CMD_PWRITE) {
         res = do_write(p.file, cb->u.c.buf, cb->u.c.nbytes, off);
      } else if (cb->aio_lio_opcode == IO_CMD_PREAD) {
         res = do_read(p.file, cb->u.c.buf, cb->u.c.nbytes, off);
      } else res = -EINVAL;
      memset(&ev[k], 0, sizeof ev[k]);
      ev[k].obj  = cb;
      ev[k].data = cb->data;
      ev[k].res  = res;
   }
   return k;
}
pid_t mc_getpid(void) { return 4242; }

/* ---- memory --------------------------------------------------------------- */
void *mc_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
   if (flags & MAP_ANONYMOUS) {
      if (fault(F_ALLOC, 2, "mmap-fails")) { errno = ENOMEM; return MAP_FAILED; }
      flags = (flags & ~MAP_SHARED & ~MAP_HUGETLB) | MAP_PRIVATE;
      sim_mmap_bytes += n;
   }
   return mmap(a, n, prot, flags, fd, off);
}
int mc_munmap(void *a, size_t n) { sim_mmap_bytes -= n; return munmap(a, n); }
int mc_mlock(const void *a, size_t n) { (void)a; (void)n; return 0; }
static struct { void *p; size_t n; int used, att, rm; } shms[8];
int sim_shms;
int mc_shmget(key_t k, size_t n, int f)
{
   (void)k; (void)f;
   if (fault(F_ALLOC, 2, "shmget-fails")) { errno = ENOMEM; return -1; }
   for (int i = 0; i < 8; i++)
      if (!shms[i].used) {
         shms[i].used = 1; shms[i].n = n; shms[i].rm = 0; shms[i].att = 0;
         shms[i].p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
         sim_shms++;
         return 7000 + i;
      }
   errno = ENOSPC;
   return -1;
}
void *mc_shmat(int id, const void *a, int f) { (void)a; (void)f; if (fault(F_ALLOC, 2, "shmat-fails")) { errno = ENOMEM; return (void *)-1; } shms[id - 7000].att++; return shms[id - 7000].p; }
static void shm_gc(int i) { if (shms[i].rm && shms[i].att == 0 && shms[i].used) { munmap(shms[i].p, shms[i].n); shms[i].used = 0; sim_shms--; } }
int mc_shmdt(const void *a)
{
   for (int i = 0; i < 8; i++) if (shms[i].used && shms[i].p == a) { shms[i].att--; shm_gc(i); return 0; }
   errno = EINVAL; return -1;
}
int mc_shmctl(int id, int cmd, struct shmid_ds *b)
{
   int i = id - 7000;
   if (i < 0 || i >= 8 || !shms[i].used) { errno = EINVAL; return -1; }
   if (cmd == IPC_RMID) { shms[i].rm = 1; shm_gc(i); }
   else if (cmd == IPC_STAT && b) { memset(b, 0, sizeof *b); b->shm_segsz = shms[i].n; b->shm_nattch = shms[i].att; }
   return 0;
}

#define PT (1u << 18)
static void **ptab;
#define TOMB ((void *)1)
static void track(void *p)
{
   if (!ptab) ptab = mmap(NULL, PT * sizeof(void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   uint32_t h = ((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 46;
   while (ptab[h] && ptab[h] != TOMB) h = (h + 1) & (PT - 1);
   ptab[h] = p;
   sim_heap_live++;
}
static int untrack(void *p)
{
   if (!ptab) return 0;
   uint32_t h = ((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 46;
   for (; ptab[h]; h = (h + 1) & (PT - 1)) if (ptab[h] == p) { ptab[h] = TOMB; sim_heap_live--; return 1; }
   return 0;
}
#ifndef MC_ASAN
#define QN 512
static void *quar[QN];
static int   qi;
#endif
void *mc_malloc(size_t n)
{
   if (fault(F_ALLOC, 2, "malloc-fails")) return NULL;
   void *p = malloc(n);
   if (p) { track(p);
#ifndef MC_ASAN
      if (n <= 65536) memset(p, 0xA5, n);
#endif
   }
   return p;
}
void *mc_calloc(size_t a, size_t b) { if (fault(F_ALLOC, 2, "calloc-fails")) return NULL; void *p = calloc(a, b); if (p) track(p); return p; }
void *mc_aligned_alloc(size_t a, size_t n)
{
   if (fault(F_ALLOC, 2, "aligned_alloc-fails")) return NULL;
   void *p = aligned_alloc(a, n);
   if (p) { track(p);
#ifndef MC_ASAN
      if (n <= 65536) memset(p, 0xA5, n);
#endif
   }
   return p;
}
int mc_posix_memalign(void **p, size_t a, size_t n) { *p = mc_aligned_alloc(a, n); return *p ? 0 : ENOMEM; }
void mc_free(void *p)
{
   if (!p) return;
   if (!untrack(p)) {
#ifndef MC_ASAN
      for (int i = 0; i < QN; i++) if (quar[i] == p) mc_violation("heap block freed twice");
#endif
      free(p);
      return;
   }
#ifdef MC_ASAN
   free(p);
#else
   size_t n = malloc_usable_size(p);
   if (n > 262144) { free(p); return; }
   memset(p, 0xDB, n);
   if (quar[qi]) free(quar[qi]);
   quar[qi] = p;
   qi       = (qi + 1) % QN;
#endif
}
void *mc_realloc(void *p, size_t n)
{
   if (!p) return mc_malloc(n);
   if (fault(F_ALLOC, 2, "realloc-fails")) return NULL;
   int t = untrack(p);
   if (!t) return realloc(p, n);
#ifdef MC_ASAN
   void *q = realloc(p, n);
   track(q ? q : p);
   return q;
#else
   size_t o = malloc_usable_size(p);
   void  *q = malloc(n);
   memcpy(q, p, o < n ? o : n);
   track(p); /* freed through the quarantine */
   mc_free(p);
   track(q);
   return q;
#endif
}
void *mc_memcpy(void *a, const void *b, size_t n) { return memcpy(a, b, n); }
void *mc_memmove(void *a, const void *b, size_t n) { return memmove(a, b, n); }
void *mc_memset(void *a, int c, size_t n) { return memset(a, c, n); }
int   mc_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int mc_open64(const char *p, int flags, int m) { return mc_open(p, flags, m); }
int mc_fstat64(int fd, struct stat *st) { return mc_fstat(fd, st); }
int mc_fallocate64(int fd, int mode, off_t off, off_t len) { return mc_fallocate(fd, mode, off, len); }
ssize_t mc_pread64(int fd, void *b, size_t n, off_t o) { return mc_pread(fd, b, n, o); }
ssize_t mc_pwrite64(int fd, const void *b, size_t n, off_t o) { return mc_pwrite(fd, b, n, o); }
void *mc_mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off) { return mc_mmap(a, n, prot, flags, fd, off); }
int mc_fdatasync(int fd) { return mc_fsync(fd); }
