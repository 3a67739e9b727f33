/* Environment stand-ins shared by the event-loop harnesses: threads are numbered
 * contexts (cur_thread), locks check their protocol, the clock is an input. */
#ifndef VP_ENV_H
#define VP_ENV_H
#include <pthread.h>
#include <sys/time.h>
#ifndef MAXT
#define MAXT 4
#endif
static int cur_thread = 0;
static void *vp_tls[MAXT][4];
static unsigned vp_keys;
/* clock_msec == clock_sec * 1000 + clock_ms; a harness sets all three */
static int64_t clock_msec, clock_sec, clock_ms;
extern "C" {
int pthread_key_create(pthread_key_t *k, void (*)(void *)) { *k = vp_keys++; return 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
int pthread_setspecific(pthread_key_t k, const void *v) { vp_tls[cur_thread][k & 3] = (void *)v; return 0; }
void *pthread_getspecific(pthread_key_t k) { return vp_tls[cur_thread][k & 3]; }
pthread_t pthread_self(void) { return (pthread_t)(100 + cur_thread); }
#ifndef ENV_OWN_CLOCK
int gettimeofday(struct timeval *tv, void *) { tv->tv_sec = clock_sec; tv->tv_usec = clock_ms * 1000; return 0; }
time_t time(time_t *t) { time_t s = clock_sec; if (t) *t = s; return s; }
#endif
#ifndef ENV_OWN_LOCKS
/* single context at a time: a lock is never contended, taking it twice would deadlock */
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof(*m)); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { CHECK(*(int *)m == 0, "no deadlock: the lock is free"); *(int *)m = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { CHECK(*(int *)m == 1, "the lock was held"); *(int *)m = 0; return 0; }
#endif
}
#endif
