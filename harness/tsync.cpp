/* C18, C19: thread read/write spin locks and thread events (ksync.h, katom.h) */
#include "vp_sched.h"
#include "ksync.h"
VP_HARNESS_BEGIN
#ifndef NT
#define NT 2
#endif
#ifndef OPS
#define OPS 1
#endif
/* ---------------------------------------------------------------- read/write locks */
static krw_mutex rw;
static kwr_mutex wr;
static bool use_wr;
static int readers, writers;
static void rlock() { if (use_wr) kwr_mutex_rlock(&wr, FLIP()); else krw_mutex_rlock(&rw); }
static void runlock() { if (use_wr) kwr_mutex_runlock(&wr); else krw_mutex_runlock(&rw); }
static void wlock() { if (use_wr) kwr_mutex_wlock(&wr); else krw_mutex_wlock(&rw); }
static void wunlock() { if (use_wr) kwr_mutex_wunlock(&wr); else krw_mutex_wunlock(&rw); }
static void one_round()
{
	if (FLIP()) {
		wlock();
		CHECK(readers == 0 && writers == 0, "a writer holds the lock alone");
		writers++;
		sched_point();
		CHECK(readers == 0 && writers == 1, "a writer holds the lock alone");
		writers--;
		wunlock();
	} else {
		rlock();
		CHECK(writers == 0, "a reader never holds the lock with a writer");
		readers++;
		if (readers == 2) REACH("shared");
		sched_point();
		CHECK(writers == 0, "a reader never holds the lock with a writer");
		readers--;
		runlock();
	}
}
static void *lock_thread(void *)
{
	for (int r = 0; r < OPS; r++) one_round();
	return NULL;
}
static void *last_thread(void *)
{
	wlock();
	wunlock();
	rlock();
	rlock();
	runlock();
	runlock();
	wlock();
	wunlock();
	return NULL;
}
static void locks()
{
	memset((void *)&rw, 0x77, sizeof(rw));
	memset((void *)&wr, 0x77, sizeof(wr));
	if (use_wr) kwr_mutex_init(&wr); else krw_mutex_init(&rw);
	if (use_wr) sched_watch((void *)&wr, sizeof(wr)); else sched_watch((void *)&rw, sizeof(rw));
	for (int i = 0; i < NT; i++) sched_spawn(lock_thread, NULL);
	CHECK(sched_run() == 0, "every thread obtains the lock");
	sched_reap();
	sched_spawn(last_thread, NULL);
	CHECK(sched_run() == 0, "the lock is free at the end");
	REACH("end");
}
ENTRY(h_krw) { use_wr = false; locks(); }
ENTRY(h_kwr) { use_wr = true; locks(); }
/* ---------------------------------------------------------------- events */
static kcond *ev;
static bool automatic;
static int passes, notices, resets, want;
static bool may_pass() { return automatic ? passes < notices : notices > 0; }
static void *wait_thread(void *)
{
	kcond_wait(ev);
	CHECK(may_pass(), "a wait returns only after the event was signalled");
	passes++;
	sched_event();
	return NULL;
}
static void *notice_thread(void *)
{
	for (int i = 0; i < want; i++) {
		notices++;
		kcond_notice(ev);
	}
	return NULL;
}
static void *pulse_thread(void *)
{
	notices++;
	kcond_notice(ev);
	kcond_reset(ev);
	return NULL;
}
static void *poll_thread(void *)
{
	if (kcond_try_wait(ev, 0)) {
		CHECK(may_pass(), "a wait returns only after the event was signalled");
		passes++;
		REACH("polled");
	}
	return NULL;
}
static bool poll_now() { bool r = kcond_try_wait(ev, 0); return r; }
/* the waiters wait first, then come the signals */
ENTRY(h_event_waiting)
{
	automatic = FLIP();
	ev = kcond_init(automatic);
	vp_spurious = 1;
	int w = 1 + CHOOSE(NT);
	for (int i = 0; i < w; i++) sched_spawn(wait_thread, NULL);
	CHECK(sched_run() == w && passes == 0, "nobody passes without a signal");
	bool pulse = !automatic && FLIP();
	want = 1 + CHOOSE(2);
	if (pulse) sched_spawn(pulse_thread, NULL); else sched_spawn(notice_thread, NULL);
	if (FLIP()) {
		sched_reap();
		if (MAXT > w + 2) sched_spawn(poll_thread, NULL);
	}
	int left = sched_run();
	CHECK(passes == notices || passes >= w || !automatic, "every signal lets a waiter through");
	if (automatic && passes == notices) REACH("one each");
	if (!automatic) CHECK(left == 0, "a manual event releases all waiters");
	if (!pulse) {
		if (!automatic) { CHECK(poll_now() && poll_now(), "a manual event stays signalled"); kcond_reset(ev); CHECK(!poll_now(), "a reset event is not signalled"); }
	} else CHECK(!poll_now(), "a reset event is not signalled");
	if (left) {
		want = left;
		sched_reap();
		sched_spawn(notice_thread, NULL);
		CHECK(sched_run() == 0, "every waiter passes once signalled");
	}
	kcond_destroy(ev);
	REACH("end");
}
/* signals and waits in any order */
ENTRY(h_event_any)
{
	automatic = FLIP();
	ev = kcond_init(automatic);
	vp_spurious = 1;
	want = CHOOSE(3);
	if (FLIP()) {
		/* the signals come first */
		for (int i = 0; i < want; i++) { notices++; kcond_notice(ev); }
	} else if (want) sched_spawn(notice_thread, NULL);
	int w = 1 + CHOOSE(NT);
	for (int i = 0; i < w; i++) sched_spawn(FLIP() ? wait_thread : poll_thread, NULL);
	int left = sched_run();
	if (left) {
		CHECK(automatic || notices == 0, "a manual event holds nobody back");
		CHECK(!poll_now(), "nobody waits for a signalled event");
		CHECK(notices == 0 || passes > 0, "a signal is not lost");
		REACH("left");
		want = left;
		sched_reap();
		sched_spawn(notice_thread, NULL);
		CHECK(sched_run() == 0, "every waiter passes once signalled");
	}
	kcond_destroy(ev);
	REACH("end");
}
VP_HARNESS_END
