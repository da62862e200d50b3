#pragma once
#include <stdint.h>
void mc_int_after_fork(void);
void mc_int_sched_init(void);
void mc_int_sched_shared(void);
int  mc_int_sched_again(int rounds);
int  mc_int_syncvars(void);
void mc_int_count_sched(uint64_t n);
void mc_int_failstop(const char *why) __attribute__((noreturn));
const char *mc_int_last_error(void);
extern uint64_t mc_ev;
void mc_int_sched_replay(void);
