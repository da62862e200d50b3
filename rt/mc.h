/*
 * mc.h -- exhaustive explorer runtime used by every check in /verif.
 *
 * Everything that is nondeterministic in an execution (operation chosen,
 * thread scheduled, I/O completion delivered, fault injected, crash point) is
 * asked for through mc_choose()/mc_deviate().  The explorer forks at each
 * such question, so that every combination of answers inside the bounds is
 * executed on the real code exactly once.
 */
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

/* ---- exploration ------------------------------------------------------ */
/* free choice: all n alternatives are explored */
int mc_choose(int n, const char *tag);
/* bounded choice: alternative 0 is free; any other one costs one unit of the
 * deviation budget, and none is explored once the budget is used up */
int mc_deviate(int n, const char *tag);
void mc_set_budget(int b);
int  mc_get_budget(void);

void mc_violation(const char *fmt, ...)
   __attribute__((noreturn, format(printf, 1, 2)));
/* this path is outside the scenario's assumptions: do not count it */
void mc_prune(void) __attribute__((noreturn));
/* fold into the outcome signature of this path */
void mc_outcome(uint64_t v);
void mc_outcome_buf(const void *p, size_t n);
/* a case enumerated inside one process (no fork needed): counts as an
 * execution, with its own outcome signature */
void mc_case(uint64_t sig);
/* coverage of interesting events: (executions with it, total) per name */
void mc_cover(const char *name, uint64_t n);
void mc_count_op(int n);      /* transitions */
void mc_count_check(int n);   /* oracle evaluations */
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern char mc_trace_on;
#define mc_trace(...) do { if (mc_trace_on) mc_note(__VA_ARGS__); } while (0)

/* arguments of the scenario: "-o name=value" on the command line */
const char *mc_arg(const char *name, const char *dflt);
long        mc_argi(const char *name, long dflt);

/* set when an assertion failure / crash inside the code is allowed here
 * (fail-stop is an acceptable reaction): path ends normally */
extern char mc_failstop_ok;
extern char mc_failstop_is_prune;
/* an assertion message that only the scaled-down parameters can provoke */
extern const char **mc_prune_assert; /* NULL-terminated list */

/* a phase's CPU-time limit; re-armed with every operation */
void mc_arm_watchdog(int cpu_seconds);

typedef struct { const char *name; void (*fn)(void); } mc_scenario;
extern mc_scenario mc_scenarios[];

/* ---- scheduling (only in the instrumented flavour) --------------------- */
typedef struct { int tid; void *(*fn)(void *); void *arg; } mc_thr;
int  mc_spawn(void *(*fn)(void *), void *arg);   /* new controlled thread */
void mc_join(int t);
void mc_sched_arm(int on);   /* scheduling points become choices */
uint64_t mc_steps(void);     /* global step counter = logical clock */
void mc_yield(void);
extern void (*mc_on_deadlock)(void);
void mc_set_horizon(uint64_t steps);
int  mc_live_fibers(void);
int  mc_cur_fiber(void);

/* ---- simulated disk ---------------------------------------------------- */
#define SIM_DISK "/mcdisk/db"
typedef struct {
   uint64_t seq;
   int      fd_file;
   uint64_t off;
   uint32_t len;
   char    *data;     /* new content */
   char    *old;      /* previous content */
} sim_write;
extern sim_write *sim_wlog;
extern long       sim_nwlog;
void  sim_log_writes(int on);
void  sim_log_clear(void);
char *sim_disk_base(void);
uint64_t sim_disk_size(void);
void  sim_set_disk_size(uint64_t sz);
/* fault injection: kinds are bit flags */
enum { F_ASYNC_WR = 1, F_ASYNC_RD = 2, F_SYNC_RD = 4, F_SYNC_WR = 8,
       F_SUBMIT = 16, F_GETEV = 32, F_SETUP = 64, F_ALLOC = 128, F_OPEN = 256 };
extern unsigned sim_fault_mask;   /* injectable kinds: each asks mc_deviate */
extern int      sim_faults_injected;
extern int      sim_reorder;      /* completions may be reordered/delayed */
extern uint64_t sim_nread, sim_nwrite, sim_torn;
extern int      sim_open_fds, sim_ctxs;
extern uint64_t sim_mmap_bytes;
extern int sim_shms, sim_check_torn;
extern long     sim_heap_live;    /* live heap blocks of the code under test */
void sim_alloc_track(int on);
/* called around every copy between the device and a buffer */
extern void (*sim_buf_hook)(void *buf, size_t n, int begin);

/* deterministic PRNG-free hash helper */
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
