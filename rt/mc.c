#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <execinfo.h>
#include "mc_int.h"

#define MAXPATH 4096
#define MAXVIOL 8
#define OUTSZ   (1u << 18)
#define MSGSZ   4096

typedef struct { uint64_t ev; int choice; int n; } pent;

typedef struct {
   int  used;
   char msg[MSGSZ];
   int  npath;
   pent path[MAXPATH];
} viol_t;

typedef struct {
   volatile uint64_t paths, choices, ops, checks, pruned, schedpts, failstops, lost;
   volatile uint64_t outs_n;
   volatile int      stop, nviol, timeout, nsamples;
   volatile uint64_t outs[OUTSZ];
   char              samples[5][400];
   struct { char name[40]; volatile uint64_t execs, sum; } cov[48];
   viol_t            viol[MAXVIOL];
} shared_t;

static shared_t *S;
static struct { volatile int tokens; } *pool;
static int       have_token;
static int       max_viol = 1;
static double    deadline_abs;
static int       replaying;
static pent      path[MAXPATH];
static int       npath;
static pent      rep[MAXPATH];
static int       nrep, irep;
uint64_t         mc_ev;
static int       budget;
static uint64_t  outcome = 1469598103934665603ull;
static int       async_children;
char             mc_trace_on, mc_failstop_ok, mc_failstop_is_prune;
const char     **mc_prune_assert;
static char      notes[16384];
static int       nnotes;
static const char *scen_name;
static char      in_violation;
static pid_t     root_pid;
static double    wd_scale = 1;

static double now(void)
{
   struct timespec t;
   syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
   return t.tv_sec + t.tv_nsec * 1e-9;
}

uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
   const unsigned char *c = p;
   h ^= 1469598103934665603ull;
   for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
   h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
   return h;
}
void mc_outcome(uint64_t v) { outcome = mc_hash(&v, 8, outcome); }
void mc_outcome_buf(const void *p, size_t n) { outcome = mc_hash(p, n, outcome); }
void mc_count_op(int n) { __sync_fetch_and_add(&S->ops, n); }
void mc_count_check(int n) { __sync_fetch_and_add(&S->checks, n); }
void mc_int_count_sched(uint64_t n) { __sync_fetch_and_add(&S->schedpts, n); }
void mc_set_budget(int b) { budget = b; }
int  mc_get_budget(void) { return budget; }

void mc_cover(const char *name, uint64_t n)
{
   if (!n) return;
   for (int i = 0; i < 48; i++) {
      if (!S->cov[i].name[0]) snprintf(S->cov[i].name, sizeof S->cov[i].name, "%s", name); /* benign race: same order in all executions */
      if (!strcmp(S->cov[i].name, name)) { __sync_fetch_and_add(&S->cov[i].execs, 1); __sync_fetch_and_add(&S->cov[i].sum, n); return; }
   }
}
void mc_note(const char *fmt, ...)
{
   va_list ap;
   char    b[1024];
   va_start(ap, fmt);
   int n = vsnprintf(b, sizeof b, fmt, ap);
   va_end(ap);
   if (n >= (int)sizeof b) n = sizeof b - 1;
   if (mc_trace_on) { fprintf(stderr, "  | %s\n", b); return; }
   if (nnotes + n + 2 > (int)sizeof notes) {
      int half = sizeof notes / 2;
      memmove(notes, notes + nnotes - half, half);
      nnotes = half;
   }
   memcpy(notes + nnotes, b, n);
   nnotes += n;
   notes[nnotes++] = '\n';
}

static int try_token(void)
{
   for (;;) {
      int t = pool->tokens;
      if (t <= 0) return 0;
      if (__sync_bool_compare_and_swap(&pool->tokens, t, t - 1)) return 1;
   }
}
static void drop_token(void)
{
   if (have_token) { have_token = 0; __sync_fetch_and_add(&pool->tokens, 1); }
}

static void handle_status(int st, int tok)
{
   if (WIFSIGNALED(st)) {
      /* killed from outside (out of memory) or beyond our handlers */
      __sync_fetch_and_add(&S->lost, 1);
      if (tok) __sync_fetch_and_add(&pool->tokens, 1);
   }
}
#define MAXKIDS 65536
static struct { pid_t p; } *kids;
static int nkids;

static void reap_nonblock(void)
{
   for (int i = 0; i < nkids;) {
      int   st;
      pid_t r = waitpid(kids[i].p, &st, WNOHANG);
      if (r == kids[i].p) { handle_status(st, 1); kids[i] = kids[--nkids]; }
      else i++;
   }
}

static int over(void)
{
   if (S->stop) return 1;
   if (deadline_abs && now() > deadline_abs) { S->timeout = 1; S->stop = 1; return 1; }
   return 0;
}

static void child_init(int tok)
{
   have_token = tok;
   nkids = 0;
   mc_int_after_fork();
   prctl(PR_SET_PDEATHSIG, SIGKILL);
}

static void record(int c, int n)
{
   if (npath < MAXPATH) { path[npath].ev = mc_ev; path[npath].choice = c; path[npath].n = n; npath++; }
}

static int explore(int n, int cost, const char *tag)
{
   mc_ev++;
   if (n <= 1) return 0;
   if (replaying) {
      int c = 0;
      if (irep < nrep && rep[irep].ev == mc_ev) {
         c = rep[irep++].choice;
         if (c >= n) { fprintf(stderr, "replay diverged at ev=%llu (%s): %d of %d\n", (unsigned long long)mc_ev, tag, c, n); c = 0; }
         record(c, n);
         if (cost) budget -= cost;
         if (mc_trace_on) fprintf(stderr, "  # ev %llu %s -> %d/%d\n", (unsigned long long)mc_ev, tag, c, n);
      }
      return c;
   }
   if (cost > budget) return 0;
   __sync_fetch_and_add(&S->choices, 1);
   for (int c = 1; c < n; c++) {
      if (over()) break;
      int tok = nkids < MAXKIDS && try_token();
      pid_t p;
      while ((p = fork()) < 0) { usleep(2000); }
      if (p == 0) {
         child_init(tok);
         record(c, n);
         if (cost) budget -= cost;
         mc_arm_watchdog(0);
         return c;
      }
      if (tok) {
         kids[nkids++].p = p;
         if ((nkids & 15) == 0) reap_nonblock();
      } else {
         int st;
         while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
         handle_status(st, 0);
      }
   }
   if (over() && !in_violation) { /* stop this path too */
      drop_token();
      for (int i = 0; i < nkids; i++) { int st; while (waitpid(kids[i].p, &st, 0) < 0 && errno == EINTR) {} handle_status(st, 1); }
      _exit(0);
   }
   return 0;
}
int mc_choose(int n, const char *tag) { return explore(n, 0, tag); }
int mc_deviate(int n, const char *tag) { return explore(n, 1, tag); }

static void finish(int code)
{
   if (mc_trace_on) { fflush(stderr); }
   drop_token();
   for (int i = 0; i < nkids; i++) {
      int st;
      while (waitpid(kids[i].p, &st, 0) < 0 && errno == EINTR) {}
      handle_status(st, 1);
   }
   _exit(code);
}

static void add_outcome(uint64_t h)
{
   if (!h) h = 1;
   uint32_t i = h % OUTSZ;
   for (int k = 0; k < 1024; k++, i = (i + 1) % OUTSZ) {
      uint64_t o = S->outs[i];
      if (o == h) return;
      if (o == 0) {
         if (__sync_bool_compare_and_swap(&S->outs[i], 0, h)) {
            __sync_fetch_and_add(&S->outs_n, 1);
            return;
         }
         if (S->outs[i] == h) return;
      }
   }
}

static void sample(void)
{
   if (S->nsamples >= 5 || npath == 0) return;
   int k = __sync_fetch_and_add(&S->nsamples, 1);
   if (k >= 5) return;
   char *b = S->samples[k];
   int   o = snprintf(b, 399, "%s:", scen_name);
   for (int i = 0; i < npath && o < 380; i++)
      o += snprintf(b + o, 399 - o, " %llu=%d/%d", (unsigned long long)path[i].ev, path[i].choice, path[i].n);
}

void mc_case(uint64_t sig)
{
   __sync_fetch_and_add(&S->paths, 1);
   add_outcome(sig);
}
static void path_done(void)
{
   __sync_fetch_and_add(&S->paths, 1);
   sample();
   add_outcome(outcome);
   finish(0);
}
void mc_prune(void)
{
   __sync_fetch_and_add(&S->pruned, 1);
   finish(0);
   _exit(0);
}
void mc_int_failstop(const char *why)
{
   __sync_fetch_and_add(&S->failstops, 1);
   if (mc_trace_on) fprintf(stderr, "fail-stop (allowed here): %s\n", why);
   if (mc_failstop_is_prune) mc_prune();
   outcome ^= 0xfa11;
   path_done();
   _exit(0);
}

static void write_viol(const char *msg)
{
   int k = __sync_fetch_and_add(&S->nviol, 1);
   if (k < MAXVIOL) {
      viol_t *v = &S->viol[k];
      snprintf(v->msg, MSGSZ, "%s", msg);
      int tail = nnotes > 2500 ? 2500 : nnotes;
      size_t l = strlen(v->msg);
      if (tail && l + tail + 16 < MSGSZ) {
         memcpy(v->msg + l, "\n", 1);
         memcpy(v->msg + l + 1, notes + nnotes - tail, tail);
         v->msg[l + 1 + tail] = 0;
      }
      v->npath = npath;
      memcpy(v->path, path, sizeof(pent) * npath);
      __sync_synchronize();
      v->used = 1;
   }
   if (k + 1 >= max_viol) S->stop = 1;
}
void mc_violation(const char *fmt, ...)
{
   char    b[1500];
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(b, sizeof b, fmt, ap);
   va_end(ap);
   if (in_violation) _exit(9);
   in_violation = 1;
   if (mc_trace_on) fprintf(stderr, "VIOLATED: %s\n", b);
   write_viol(b);
   finish(0);
   _exit(0);
}

static void on_sig(int sig)
{
   if (sig == SIGVTALRM || sig == SIGALRM) mc_violation("no progress: an operation used up its CPU-time limit (suspected hang)");
   char        why[700];
   const char *e = mc_int_last_error();
   snprintf(why, sizeof why, "crashed with signal %d%s%.600s", sig, e[0] ? ": " : "", e);
   if (mc_trace_on) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
   for (const char **q = mc_prune_assert; q && *q; q++) if (sig == SIGABRT && strstr(e, *q)) mc_prune();
   if (mc_failstop_ok && sig == SIGABRT) mc_int_failstop(why);
   mc_violation("%s", why);
}

void mc_arm_watchdog(int s)
{
   static int last = 30;
   if (s) last = s;
   struct itimerval it = {{0, 0}, {0, 0}};
   it.it_value.tv_sec = (long)(last * wd_scale);
   setitimer(ITIMER_VIRTUAL, &it, NULL);
}

static int    nargs;
static char  *args[64];
const char *mc_arg(const char *name, const char *dflt)
{
   size_t l = strlen(name);
   for (int i = 0; i < nargs; i++)
      if (!strncmp(args[i], name, l) && args[i][l] == '=') return args[i] + l + 1;
   return dflt;
}
long mc_argi(const char *name, long d)
{
   const char *v = mc_arg(name, NULL);
   return v ? strtol(v, NULL, 0) : d;
}

static void setup_signals(void)
{
   stack_t ss = {0};
   ss.ss_size = 1 << 17;
   ss.ss_sp   = mmap(NULL, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
   sigaltstack(&ss, NULL);
   int              sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM, SIGALRM};
   struct sigaction sa     = {0};
   sa.sa_handler           = on_sig;
   sa.sa_flags             = SA_ONSTACK | SA_NODEFER;
   for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
}

static void json_str(FILE *f, const char *s)
{
   fputc('"', f);
   for (; *s; s++) {
      unsigned char c = *s;
      if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
      else if (c == '\n') fprintf(f, "\\n");
      else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
      else fputc(c, f);
   }
   fputc('"', f);
}

static void run_root(void (*fn)(void), int tok)
{
   pid_t p = fork();
   if (p == 0) {
      child_init(tok);
      root_pid = getpid();
      setup_signals();
      mc_int_sched_init();
      mc_arm_watchdog(30);
      fn();
      path_done();
   }
   int st;
   while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
   handle_status(st, tok);
}

int main(int argc, char **argv)
{
   const char *out = NULL, *replay = NULL;
   double      limit = 0;
   int         toks = 8;
   setvbuf(stdout, NULL, _IOLBF, 0);
   if (argc > 1 && !strcmp(argv[1], "list")) {
      for (mc_scenario *s = mc_scenarios; s->name; s++) puts(s->name);
      return 0;
   }
   for (int i = 1; i < argc; i++) {
      if (!strcmp(argv[i], "-s")) scen_name = argv[++i];
      else if (!strcmp(argv[i], "-o")) args[nargs++] = argv[++i];
      else if (!strcmp(argv[i], "-j")) toks = atoi(argv[++i]);
      else if (!strcmp(argv[i], "-t")) limit = atof(argv[++i]);
      else if (!strcmp(argv[i], "-v")) max_viol = atoi(argv[++i]);
      else if (!strcmp(argv[i], "-out")) out = argv[++i];
      else if (!strcmp(argv[i], "-replay")) replay = argv[++i];
      else if (!strcmp(argv[i], "-wd")) wd_scale = atof(argv[++i]);
      else if (!strcmp(argv[i], "-trace")) mc_trace_on = 1;
      else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
   }
   if (!getenv("MC_NOASLR")) {
      setenv("MC_NOASLR", "1", 1);
      if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
   }
   mc_scenario *sc = NULL;
   for (mc_scenario *s = mc_scenarios; s->name; s++) if (scen_name && !strcmp(s->name, scen_name)) sc = s;
   if (!sc) { fprintf(stderr, "no such scenario %s\n", scen_name ? scen_name : "(none)"); return 2; }
   S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   kids = mmap(NULL, sizeof *kids * MAXKIDS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   const char *pf = getenv("MC_POOL");
   int         tok = 0;
   if (pf && !replay) {
      int fd = open(pf, O_RDWR);
      pool   = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      while (!try_token()) usleep(3000);
      tok = 1;
   } else {
      pool = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pool->tokens = toks - 1;
      tok = 1;
   }
   double t0 = now();
   if (limit) deadline_abs = t0 + limit;
   if (getenv("MC_DEADLINE") && !replay) { double d = atof(getenv("MC_DEADLINE")); if (!deadline_abs || d < deadline_abs) deadline_abs = d; }
   mc_int_sched_shared();
   if (replay) {
      FILE *f = fopen(replay, "r");
      if (!f) { perror(replay); return 2; }
      char line[4096];
      while (fgets(line, sizeof line, f)) {
         unsigned long long ev; int c, n;
         if (sscanf(line, "choice %llu %d %d", &ev, &c, &n) == 3 && nrep < MAXPATH) { rep[nrep].ev = ev; rep[nrep].choice = c; nrep++; }
      }
      fclose(f);
      replaying = 1;
      mc_int_sched_replay();
      run_root(sc->fn, tok);
   } else {
      int rounds = 0;
      for (;;) {
         run_root(sc->fn, tok);
         rounds++;
         if (S->stop || !mc_int_sched_again(rounds)) break;
         if (pf) { while (!try_token()) usleep(3000); } else pool->tokens = toks - 1;
         /* the next round repeats everything with more scheduling points */
         S->paths = S->choices = S->ops = S->checks = S->pruned = S->schedpts = S->failstops = 0;
         S->outs_n = 0; memset((void *)S->outs, 0, sizeof S->outs); S->nsamples = 0;
      }
   }
   double el = now() - t0;
   FILE  *f  = out ? fopen(out, "w") : stdout;
   fprintf(f, "{\"scenario\":\"%s\",\"args\":[", scen_name);
   for (int i = 0; i < nargs; i++) { if (i) fputc(',', f); json_str(f, args[i]); }
   fprintf(f, "],\"paths\":%llu,\"choices\":%llu,\"ops\":%llu,\"checks\":%llu,\"pruned\":%llu,\"schedpoints\":%llu,\"failstops\":%llu,\"lost\":%llu,\"outcomes\":%llu,\"syncvars\":%d,\"timeout\":%d,\"wall\":%.2f,\"nviol\":%d,\n\"samples\":[",
           (unsigned long long)S->paths, (unsigned long long)S->choices, (unsigned long long)S->ops,
           (unsigned long long)S->checks, (unsigned long long)S->pruned, (unsigned long long)S->schedpts, (unsigned long long)S->failstops,
           (unsigned long long)S->lost, (unsigned long long)S->outs_n, mc_int_syncvars(), S->timeout, el, S->nviol);
   for (int i = 0; i < S->nsamples && i < 5; i++) { if (i) fputc(',', f); json_str(f, S->samples[i]); }
   fprintf(f, "],\n\"cover\":{");
   for (int i = 0, k = 0; i < 48 && S->cov[i].name[0]; i++) fprintf(f, "%s\"%s\":[%llu,%llu]", k++ ? "," : "", S->cov[i].name, (unsigned long long)S->cov[i].execs, (unsigned long long)S->cov[i].sum);
   fprintf(f, "},\n\"violations\":[");
   int shown = 0;
   for (int i = 0; i < S->nviol && i < MAXVIOL; i++) {
      viol_t *v = &S->viol[i];
      if (!v->used) continue;
      if (shown++) fputc(',', f);
      fprintf(f, "{\"msg\":");
      json_str(f, v->msg);
      fprintf(f, ",\"path\":[");
      for (int k = 0; k < v->npath; k++) fprintf(f, "%s[%llu,%d,%d]", k ? "," : "", (unsigned long long)v->path[k].ev, v->path[k].choice, v->path[k].n);
      fprintf(f, "]}");
   }
   fprintf(f, "]}\n");
   if (out) fclose(f);
   return 0;
}
