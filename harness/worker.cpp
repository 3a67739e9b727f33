/* C20, C21: thread pool (kthread.c) and worker pool (kasync_worker.c) */
#define MAXT 6
#include <signal.h>
#include "vp_sched.h"
#include "kasync_worker.h"
#include "kthread.h"
VP_HARNESS_BEGIN
#ifndef NT
#define NT 2
#endif
#ifndef JOBS
#define JOBS 2
#endif
#define MAXJ 8
extern "C" void klog(int, const char *, ...) { CHECK(false, "a live thread is signalled"); }
/* signals: only the pool's */
static bool blocked[MAXT], pending[MAXT];
static int fails, created;
static bool sig_pending(void *a) { return pending[(intptr_t)a]; }
extern "C" {
int pthread_attr_init(pthread_attr_t *) { return 0; }
int pthread_attr_setdetachstate(pthread_attr_t *, int) { return 0; }
int sigemptyset(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
int sigaddset(sigset_t *s, int n) { *(long *)s |= 1L << n; return 0; }
void (*signal(int, void (*)(int)))(int) { return NULL; }
int pthread_create(pthread_t *id, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
	sched_point();
	if (fails > 0 && FLIP()) { fails--; return EAGAIN; }
	int me = cur_thread, i = sched_spawn(fn, arg);
	blocked[i] = blocked[me];
	pending[i] = false;
	*id = (pthread_t)(100 + i);
	created++;
	return 0;
}
int pthread_kill(pthread_t id, int)
{
	int i = (int)id - 100;
	sched_point();
	CHECK(i > 0 && i < MAXT && vp_thr[i].used && !vp_thr[i].done, "a live thread is signalled");
	if (blocked[i]) pending[i] = true;
	sched_event();
	return 0;
}
int pthread_sigmask(int how, const sigset_t *set, sigset_t *)
{
	sched_point();
	if (*(long *)set == 0) return 0;
	blocked[cur_thread] = how == SIG_BLOCK;
	if (!blocked[cur_thread]) pending[cur_thread] = false;
	return 0;
}
int sigwait(const sigset_t *, int *sig)
{
	sched_point();
	sched_block(sig_pending, (void *)(intptr_t)cur_thread);
	pending[cur_thread] = false;
	*sig = SIGUSR2;
	return 0;
}
}
static int live()
{
	int n = 0;
	for (int i = 1; i < MAXT; i++) n += vp_thr[i].used && !vp_thr[i].done;
	return n;
}
/* ---------------------------------------------------------------- thread pool */
static int ran[MAXJ], started_[MAXJ], args[MAXJ], njobs;
static void *pool_job(void *a)
{
	int k = (int)((int *)a - args);
	CHECK(k >= 0 && k < njobs, "a function gets its argument");
	ran[k]++;
	CHECK(ran[k] == 1, "a started function is called once");
	sched_point();
	return NULL;
}
static kev_result thread_job(void *a, int)
{
	pool_job(a);
	return kev_ok;
}
static void *starter(void *a)
{
	for (int r = 0; r < JOBS; r++) {
		int k = njobs++;
		started_[k] = 1;
		bool ok = k % 2 == 0 ? kthread_pool_start(pool_job, &args[k]) : kasync_worker_thread_start(&args[k], thread_job);
		if (!ok) started_[k] = 0;
		if (!ok) REACH("failed");
	}
	return NULL;
}
static int flush_min;
static void *flusher(void *)
{
	kthread_flush(flush_min);
	return NULL;
}
static void *closer(void *) { kthread_close_all_free(); return NULL; }
static void all_ran()
{
	for (int i = 0; i < njobs; i++) CHECK(ran[i] == started_[i], "a function is called once if its start succeeded and not at all if it failed");
}
static void idle_counts(int left)
{
	int w, f;
	kthread_get_count(&w, &f);
	CHECK(w == 0, "no thread is counted as working at the end");
	CHECK(f == left, "every other thread is idle and counted");
}
ENTRY(h_pool)
{
	clock_sec = 1000000;
	uint64_t heap = vp_heap_bytes();
	kthread_init();
	fails = FAILS;
	for (int i = 0; i < NT; i++) sched_spawn(starter, NULL);
	int left = sched_run();
	all_ran();
	idle_counts(left);
	CHECK(left == created, "threads are kept for reuse");
#ifdef FLUSH
	/* idle threads are ended only when they have been idle long enough */
	int idle = CHOOSE(3);
	clock_sec += idle == 0 ? 30 : idle == 1 ? 60 : 61;
	flush_min = CHOOSE(2);
	int before = left;
	sched_reap();
	sched_spawn(flusher, NULL);
	bool more = FLIP();
	if (more) {
		sched_spawn(starter, NULL);
		before = -1;
	}
	left = sched_run();
	all_ran();
	idle_counts(left);
	if (before >= 0) {
		if (idle < 2) CHECK(left == before, "no thread is ended before it was idle long enough");
		else { CHECK(left == (before < flush_min ? before : flush_min), "long idle threads are ended"); REACH("flushed"); }
	} else REACH("reused");
#endif
	sched_reap();
	sched_spawn(closer, NULL);
	CHECK(sched_run() == 0, "closing ends all idle threads");
	CHECK(vp_heap_bytes() == heap, "everything is released once");
	REACH("end");
}
/* ---------------------------------------------------------------- worker pool */
static kasync_worker *wk;
static int running, max_running, max_wait, accepted[MAXJ], left_over, nested;
static int order[MAXJ], norder;
static bool exact;
/* exact model of the queue, for runs without preemption */
static void model_add(int k, bool high)
{
	if (!exact) return;
	if (high) { for (int i = norder; i > 0; i--) order[i] = order[i - 1]; order[0] = k; }
	else order[norder] = k;
	norder++;
}
static void add_job(bool may_block);
static kev_result wjob(void *a, int)
{
	int k = (int)((int *)a - args);
	CHECK(k >= 0 && k < njobs, "a job gets its argument");
	running++;
	CHECK(running <= max_running, "at most the configured number of jobs run at the same time");
	ran[k]++;
	CHECK(ran[k] == 1, "a job is run once");
	if (exact) {
		CHECK(order[0] == k, "urgent jobs come first, others in order");
		norder--;
		for (int i = 0; i < norder; i++) order[i] = order[i + 1];
	}
	if (nested > 0) { nested--; add_job(false); REACH("nested"); }
	sched_point();
	running--;
	return kev_ok;
}
static void add_job(bool may_block)
{
	int k = njobs++;
	if (may_block && FLIP()) {
		accepted[k] = 1;
		model_add(k, false);
		kasync_worker_start(wk, &args[k], wjob);
		return;
	}
	bool high = FLIP();
	int waiting = norder;
	accepted[k] = 1;
	if (!exact || max_wait == 0 || waiting <= max_wait) model_add(k, high);
	if (!kasync_worker_try_start(wk, &args[k], wjob, high)) {
		accepted[k] = 0;
		CHECK(max_wait > 0, "without a limit no job is refused");
		REACH("refused");
		if (exact) CHECK(waiting > max_wait, "a job is refused only when the queue is beyond its limit");
	} else if (exact) CHECK(max_wait == 0 || waiting <= max_wait, "a job beyond the queue limit is refused");
}
static inline void unused_() { (void)flusher; (void)flush_min; }
static bool may_block_;
static void *adder(void *)
{
	for (int r = 0; r < JOBS; r++) add_job(may_block_);
	kasync_worker_release(wk);
	return NULL;
}
static void *last_adder(void *)
{
	fails = 0;
	max_wait = 0;
	kasync_worker_set(wk, max_running, 0);
	add_job(false);
	kasync_worker_release(wk);
	return NULL;
}
static void workers(int adders, bool ex)
{
	clock_sec = 1000000;
	kthread_init();
	exact = ex;
	uint64_t heap = vp_heap_bytes();
	fails = CHOOSE(FAILS + 1);
	int budget = fails;
	may_block_ = fails == 0;
	max_running = ex ? 1 : 1 + CHOOSE(2);
	max_wait = CHOOSE(2);
	nested = ex ? CHOOSE(2) : 0;
	wk = kasync_worker_init(max_running, max_wait);
	for (int i = 0; i < adders; i++) { kasync_worker_refs(wk); sched_spawn(adder, NULL); }
	int left = sched_run();
	idle_counts(left);
	bool all = true;
	for (int i = 0; i < njobs; i++) {
		CHECK(ran[i] <= accepted[i], "a refused job is not run");
		if (ran[i] != accepted[i]) all = false;
	}
	CHECK(all || fails < budget, "every accepted job is run");
	CHECK(kasync_worker_empty(wk) == all, "the queue is empty when all jobs were run");
	if (!all) REACH("stranded");
	/* the pool is not spoiled by a failed start: the next job runs, and so do those left over */
	exact = false;
	sched_reap();
	sched_spawn(last_adder, NULL);
	sched_run();
	for (int i = 0; i < njobs; i++) CHECK(ran[i] == accepted[i], "every accepted job is run");
	sched_reap();
	sched_spawn(closer, NULL);
	CHECK(sched_run() == 0, "all threads end");
	CHECK(vp_heap_bytes() == heap, "the pool is freed with its last reference, nothing is lost");
	REACH("end");
}
ENTRY(h_worker) { workers(NT, false); }
ENTRY(h_order) { workers(1, true); }
VP_HARNESS_END
