/* platform_inline.h is compiled into the harness too: route its primitives
 * to the controlled scheduler, as in the code under test */
#pragma once
#include <pthread.h>
#include <semaphore.h>
#define R(f) extern int mc_##f();
R(pthread_mutex_init) R(pthread_mutex_destroy) R(pthread_mutex_lock) R(pthread_mutex_trylock) R(pthread_mutex_unlock)
R(pthread_spin_init) R(pthread_spin_destroy) R(pthread_spin_lock) R(pthread_spin_unlock)
R(pthread_cond_init) R(pthread_cond_destroy) R(pthread_cond_wait) R(pthread_cond_signal) R(pthread_cond_broadcast)
#undef R
#define pthread_mutex_init mc_pthread_mutex_init
#define pthread_mutex_destroy mc_pthread_mutex_destroy
#define pthread_mutex_lock mc_pthread_mutex_lock
#define pthread_mutex_trylock mc_pthread_mutex_trylock
#define pthread_mutex_unlock mc_pthread_mutex_unlock
#define pthread_spin_init mc_pthread_spin_init
#define pthread_spin_destroy mc_pthread_spin_destroy
#define pthread_spin_lock mc_pthread_spin_lock
#define pthread_spin_unlock mc_pthread_spin_unlock
#define pthread_cond_init mc_pthread_cond_init
#define pthread_cond_destroy mc_pthread_cond_destroy
#define pthread_cond_wait mc_pthread_cond_wait
#define pthread_cond_signal mc_pthread_cond_signal
#define pthread_cond_broadcast mc_pthread_cond_broadcast
