/* Threads for the concurrency harnesses.  Each thread is a coroutine; it may be
 * preempted before every lock, condition, atomic or stubbed system call and - in
 * units built with memory instrumentation - before every access of the real code to
 * memory that is not on a stack.  Which thread continues is a symbolic choice; the
 * number of preemptions (switches away from a thread that could go on) is bounded
 * by PREEMPTS, switches of blocked threads are free. */
#ifndef VP_SCHED_H
#define VP_SCHED_H
#include "vp.h"
#define ENV_OWN_LOCKS
#include "fcontext.h"
VP_HARNESS_BEGIN
#include "env.h"
#ifndef PREEMPTS
#define PREEMPTS 2
#endif
#define VP_STK 131072
typedef bool (*sched_pred)(void *);
struct sthread {
	fcontext_t ctx;
	void *(*fn)(void *);
	void *arg;
	bool used, done;
	sched_pred ready;          /* NULL: can run */
	void *rarg;
	uint64_t load_events;
	uint64_t spin_at;          /* spinning: runs again after a store by somebody else */
	bool spinning;
	void *last_load;
	int repeats, spins;
};
static sthread vp_thr[MAXT];
static fcontext_t vp_sched_ctx;
static int vp_preempts = PREEMPTS;
static uint64_t vp_events = 1;
static bool vp_in_thread, vp_sched_off;
static char vp_stacks[MAXT][VP_STK] __attribute__((aligned(16)));
#ifdef VP_SYMX
extern "C" int vp_is_stack(const void *p);
#else
static inline int vp_is_stack(const void *p)
{
	char *q = (char *)p, *here = (char *)__builtin_frame_address(0);
	if ((uintptr_t)q - (uintptr_t)vp_stacks < sizeof(vp_stacks)) return 1;
	extern char *vp_main_stack;
	return q < vp_main_stack && q > vp_main_stack - (8 << 20);
}
#endif
static bool thr_can_run(int i)
{
	sthread *t = &vp_thr[i];
	if (!t->used || t->done) return false;
	if (t->spinning) {
		if (vp_events == t->spin_at) return false;
		t->spins = 0;
		return true;
	}
	return t->ready == NULL || t->ready(t->rarg);
}
static int vp_others()
{
	int n = 0;
	for (int i = 0; i < MAXT; i++) n += i != cur_thread && thr_can_run(i);
	return n;
}
static void vp_to_sched()
{
	int me = cur_thread;
	vp_in_thread = false;
	transfer_t r = jump_fcontext(vp_sched_ctx, NULL);
	vp_sched_ctx = r.fctx;
	cur_thread = me;
	vp_in_thread = true;
}
static int vp_skip = -1;
/* the current thread may be preempted here */
static void sched_point()
{
	if (!vp_in_thread || vp_sched_off || vp_preempts <= 0) return;
	if (vp_others() == 0) return;
	if (!FLIP()) return;
	vp_preempts--;
	vp_skip = cur_thread;
	vp_to_sched();
}
static void sched_event()
{
	vp_events++;
	vp_thr[cur_thread].last_load = NULL;
	vp_thr[cur_thread].repeats = 0;
}
/* wait until a condition holds */
static void sched_block(sched_pred p, void *arg)
{
	if (!vp_in_thread) {
		CHECK(p(arg), "no deadlock: the only running context does not block");
		return;
	}
	while (!p(arg)) {
		vp_thr[cur_thread].ready = p;
		vp_thr[cur_thread].rarg = arg;
		vp_to_sched();
		vp_thr[cur_thread].ready = NULL;
	}
}
static void vp_thread_main(transfer_t t)
{
	vp_sched_ctx = t.fctx;
	vp_in_thread = true;
	int me = cur_thread;
	vp_thr[me].fn(vp_thr[me].arg);
	vp_thr[me].done = true;
	vp_events++;
	vp_in_thread = false;
	for (;;) jump_fcontext(vp_sched_ctx, NULL);
}
/* a new thread in a free slot; slot 0 is the harness's own context */
static int sched_spawn(void *(*fn)(void *), void *arg)
{
	for (int i = 1; i < MAXT; i++)
		if (!vp_thr[i].used || vp_thr[i].done) {
			memset(&vp_thr[i], 0, sizeof(vp_thr[i]));
			vp_thr[i].used = true;
			vp_thr[i].fn = fn;
			vp_thr[i].arg = arg;
			for (int k = 0; k < 4; k++) vp_tls[i][k] = NULL;
			vp_thr[i].ctx = make_fcontext((char *)vp_stacks + (i + 1) * VP_STK, VP_STK, vp_thread_main);
			return i;
		}
	CHECK(false, "harness: thread slots");
	return -1;
}
/* run all threads until each is finished or, at quiescence, blocked for good;
 * returns the number that never finished */
static int sched_run()
{
	int was = cur_thread;
	for (;;) {
		int can[MAXT], n = 0, left = 0, skipped = -1;
		for (int i = 1; i < MAXT; i++) {
			if (!vp_thr[i].used || vp_thr[i].done) continue;
			left++;
			if (!thr_can_run(i)) continue;
			if (i == vp_skip) { skipped = i; continue; }
			can[n++] = i;
		}
		if (n == 0 && skipped >= 0) can[n++] = skipped;
		if (n == 0)
			/* looks like spinning, but may just read the same place several times */
			for (int i = 1; i < MAXT && n == 0; i++)
				if (vp_thr[i].used && !vp_thr[i].done && vp_thr[i].spinning && vp_thr[i].spins < 20) {
					vp_thr[i].spins++;
					can[n++] = i;
				}
		vp_skip = -1;
		if (n == 0) { cur_thread = was; return left; }
		int i = can[CHOOSE(n)];
		cur_thread = i;
		vp_thr[i].spinning = false;
		transfer_t r = jump_fcontext(vp_thr[i].ctx, NULL);
		vp_thr[i].ctx = r.fctx;
		cur_thread = was;
	}
}
/* with memory instrumentation: only accesses to watched objects are scheduling points, if any is watched */
static struct { char *p; size_t n; } vp_watch[4];
static int vp_nwatch;
static void sched_watch(void *p, size_t n)
{
	CHECK(vp_nwatch < 4, "harness: watches");
	vp_watch[vp_nwatch].p = (char *)p;
	vp_watch[vp_nwatch++].n = n;
}
static inline int vp_unwatched(void *p)
{
	if (vp_is_stack(p)) return 1;
	for (int i = 0; i < vp_nwatch; i++) if ((char *)p >= vp_watch[i].p && (char *)p < vp_watch[i].p + vp_watch[i].n) return 0;
	return vp_nwatch != 0;
}
static inline void sched_reap()
{
	for (int i = 1; i < MAXT; i++) if (vp_thr[i].done) vp_thr[i].used = false;
}
/* a shared load: reading the same place again and again without storing is spinning */
static void sched_load(void *p)
{
	if (!vp_in_thread || vp_sched_off) return;
	sched_point();
	sthread *t = &vp_thr[cur_thread];
	if (t->last_load != p || t->load_events != vp_events) {
		t->last_load = p;
		t->load_events = vp_events;
		t->repeats = 0;
		return;
	}
	if (++t->repeats < 4) return;
	t->repeats = 0;
	t->spinning = true;
	t->spin_at = vp_events;
	vp_to_sched();
}
extern "C" {
#define VP_COV(n) \
	void __sanitizer_cov_load##n(void *p) { if (!vp_unwatched(p)) sched_load(p); } \
	void __sanitizer_cov_store##n(void *p) { if (!vp_unwatched(p)) { sched_point(); sched_event(); } }
#ifdef VP_MEMPOINTS
VP_COV(1)
VP_COV(2)
VP_COV(4)
VP_COV(8)
VP_COV(16)
#endif
void vp_sync_point(volatile void *p) { sched_load((void *)p); }
void vp_sync_done(void) { sched_event(); }
/* locks: the first word holds the owner */
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof(*m)); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { CHECK(*(int *)m == 0, "a held lock is not destroyed"); memset(m, 0x5a, sizeof(*m)); return 0; }
static bool vp_mutex_free(void *m) { return *(int *)m == 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
	sched_point();
	CHECK(*(int *)m != 0x5a5a5a5a, "a destroyed lock is not used");
	CHECK(*(int *)m != cur_thread + 1, "no deadlock: a thread does not take a lock it holds");
	sched_block(vp_mutex_free, m);
	*(int *)m = cur_thread + 1;
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
	sched_point();
	if (*(int *)m) return EBUSY;
	*(int *)m = cur_thread + 1;
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
	CHECK(*(int *)m == cur_thread + 1, "a lock is released by its owner");
	*(int *)m = 0;
	sched_event();
#ifdef AFTER_UNLOCK
	sched_point();
#endif
	return 0;
}
/* condition variables: first word is the set of waiting threads */
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { return 0; }
static int vp_spurious;          /* spurious wake-ups still allowed */
struct vp_cw { pthread_cond_t *c; int bit; };
static bool vp_cond_woken(void *a) { struct vp_cw *w = (struct vp_cw *)a; return (*(int *)w->c & w->bit) == 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	struct vp_cw w = { c, 1 << cur_thread };
	CHECK(*(int *)m == cur_thread + 1, "waits with the lock held");
	*(int *)c |= w.bit;
	*(int *)m = 0;
	sched_event();
	if (vp_spurious > 0 && FLIP()) {
		vp_spurious--;
		sched_point();
		*(int *)c &= ~w.bit;
	}
	else sched_block(vp_cond_woken, &w);
	sched_block(vp_mutex_free, m);
	*(int *)m = cur_thread + 1;
	return 0;
}
static int vp_timeouts;          /* timed waits that may still expire */
static bool vp_true(void *) { return true; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *)
{
	struct vp_cw w = { c, 1 << cur_thread };
	CHECK(*(int *)m == cur_thread + 1, "waits with the lock held");
	*(int *)c |= w.bit;
	*(int *)m = 0;
	sched_event();
	int r = 0;
	if (vp_timeouts > 0 && FLIP()) {
		/* any number of others may run before the time is up */
		vp_timeouts--;
		vp_skip = cur_thread;
		if (vp_in_thread) vp_to_sched();
		if (*(int *)c & w.bit) { *(int *)c &= ~w.bit; r = ETIMEDOUT; }
	}
	else sched_block(vp_cond_woken, &w);
	sched_block(vp_mutex_free, m);
	*(int *)m = cur_thread + 1;
	return r;
}
int pthread_cond_signal(pthread_cond_t *c)
{
	int who[MAXT], n = 0;
	for (int i = 0; i < MAXT; i++) if (*(int *)c & (1 << i)) who[n++] = i;
	if (n) *(int *)c &= ~(1 << who[CHOOSE(n)]);
	sched_event();
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { *(int *)c = 0; sched_event(); return 0; }
}
VP_HARNESS_END
#endif
