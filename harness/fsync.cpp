/* C13-C16: fiber mutex, read/write lock, condition, channel (kfiber_sync.c/.h, kfiber.h) */
#include "loops.h"
VP_HARNESS_BEGIN
#ifndef NF
#define NF 3
#endif
#ifndef OPS
#define OPS 1
#endif
static int nf_done;
static void *(*body_setup)(int loop);
static int per_loop[LOOPS];
static int (*fiber_body)(void *, int);
static bool fdone[NF];
static int started_;
static int fib_main(void *a, int len)
{
	int i = (int)(intptr_t)a;
	CHECK(i >= 0 && i < NF && len == 70 + i, "a fiber gets its argument");
	CHECK(kgl_get_tls_selector() == L[i % LOOPS].s, "a fiber runs on its loop");
	fiber_body(a, i);
	fdone[i] = true;
	l_running--;
	sched_event();
	return 0;
}
static void *loop_main(void *a)
{
	int k = (int)(intptr_t)a;
	l_enter(k);
	for (int i = k; i < NF; i += LOOPS)
		CHECK(kfiber_create2(L[k].s, fib_main, (void *)(intptr_t)i, 70 + i, 4096, NULL) == 0, "fiber created");
	if (body_setup) body_setup(k);
	l_loop(&L[k]);
	l_leave(k);
	return NULL;
}
static void run_all(int extra)
{
	l_running = NF + extra;
	for (int k = 0; k < LOOPS; k++) sched_spawn(loop_main, (void *)(intptr_t)k);
	int left = sched_run();
	CHECK(l_running == 0, "no fiber stays blocked");
	CHECK(left == 0, "all loops end");
	CHECK(kfiber_get_count() == 0, "all fibers are gone");
}
/* afterwards: one more fiber on the first loop */
static void *final_main(void *)
{
	l_enter(0);
	CHECK(kfiber_create2(L[0].s, fib_main, NULL, 70, 4096, NULL) == 0, "fiber created");
	CHECK(l_running == 0, "free at the end: one more fiber is not held up");
	while (l_ready(&L[0])) l_turn(&L[0]);
	l_leave(0);
	return NULL;
}
static void one_more(int (*body)(void *, int))
{
	sched_reap();
	fiber_body = body;
	l_running = 1;
	sched_spawn(final_main, NULL);
	CHECK(sched_run() == 0, "free at the end: one more fiber ends");
	CHECK(kfiber_get_count() == 0, "all fibers are gone");
}
/* ---------------------------------------------------------------- mutex */
static kfiber_mutex *mx;
static int limit_, holders, max_holders, g_count;
static void in_critical()
{
	holders++;
	CHECK(holders <= limit_, "at most the limit hold the mutex");
	if (FLIP()) { l_yield(); CHECK(holders <= limit_, "at most the limit hold the mutex"); }
	holders--;
	g_count--;
	kfiber_mutex_unlock(mx);
}
static int mutex_body(void *, int i)
{
	for (int r = 0; r < OPS; r++) {
		int how = CHOOSE(3);
		if (how == 0) {
			g_count++;
			CHECK(kfiber_mutex_lock(mx) == 0, "lock succeeds");
			in_critical();
		} else {
			/* refused exactly when `how` or more hold it or wait for it */
			int before = g_count;
			g_count++;
			int ret = kfiber_mutex_try_lock(mx, how);
			if (ret != 0) g_count--;
			if (LOOPS == 1) CHECK((ret != 0) == (before >= how), "a limited lock is refused exactly when that many hold it or wait");
			if (ret == 0) in_critical();
			else REACH("refused");
		}
		if (r + 1 < OPS && FLIP()) l_yield();
	}
	return 0;
}
static int cb_calls;
static int cb_tag, cb_data;
static kev_result mutex_cb(KOPAQUE d, void *a, int got)
{
	CHECK(d == (KOPAQUE)&cb_data && a == &cb_tag, "the waiter's data and argument");
	cb_calls++;
	CHECK(cb_calls == 1, "a callback waiter is called once");
	holders++;
	CHECK(holders <= limit_, "at most the limit hold the mutex");
	holders--;
	g_count--;
	kfiber_mutex_unlock(mx);
	l_running--;
	sched_event();
	return kev_ok;
}
static void *mutex_ask(int k)
{
	if (k == 0) {
		/* the loop itself, outside any fiber, asks for the mutex */
		g_count++;
		kfiber_mutex_lock2(mx, (KOPAQUE)&cb_data, mutex_cb, &cb_tag);
	}
	return NULL;
}
ENTRY(h_mutex)
{
	l_setup();
	limit_ = 1 + CHOOSE(2);
	mx = limit_ == 1 && FLIP() ? kfiber_mutex_init() : kfiber_mutex_init2(limit_);
	CHECK(kfiber_mutex_get_limit(mx) == limit_, "the limit is the one asked for");
	sched_watch(mx, sizeof(*mx));
	fiber_body = mutex_body;
	run_all(0);
	CHECK(kfiber_mutex_get_worker(mx) == 0 && kfiber_mutex_get_count(mx) == 0, "the mutex is free at the end");
	kfiber_mutex_destroy(mx);
	REACH("end");
}
ENTRY(h_mutex_callback)
{
	l_setup();
	limit_ = 1;
	mx = kfiber_mutex_init();
	sched_watch(mx, sizeof(*mx));
	fiber_body = mutex_body;
	body_setup = mutex_ask;
	run_all(1);
	CHECK(cb_calls == 1, "a callback waiter is called once");
	CHECK(kfiber_mutex_get_worker(mx) == 0 && kfiber_mutex_get_count(mx) == 0, "the mutex is free at the end");
	kfiber_mutex_destroy(mx);
	REACH("end");
}
/* ---------------------------------------------------------------- read/write lock */
static kfiber_rwlock *rw;
static int readers, writers;
static int rw_body(void *, int i)
{
	for (int r = 0; r < OPS; r++) {
		if (FLIP()) {
			kfiber_rwlock_wlock(rw);
			CHECK(readers == 0 && writers == 0, "a writer holds the lock alone");
			writers++;
			if (FLIP()) l_yield();
			CHECK(readers == 0 && writers == 1, "a writer holds the lock alone");
			writers--;
			kfiber_rwlock_wunlock(rw);
		} else {
			kfiber_rwlock_rlock(rw);
			CHECK(writers == 0, "a reader never holds the lock with a writer");
			readers++;
			if (readers == 2) REACH("shared");
			if (FLIP()) l_yield();
			CHECK(writers == 0, "a reader never holds the lock with a writer");
			readers--;
			kfiber_rwlock_runlock(rw);
		}
	}
	return 0;
}
static int rw_final(void *, int)
{
	kfiber_rwlock_wlock(rw);
	kfiber_rwlock_wunlock(rw);
	kfiber_rwlock_rlock(rw);
	kfiber_rwlock_runlock(rw);
	return 0;
}
ENTRY(h_rwlock)
{
	l_setup();
	rw = kfiber_rwlock_init();
	sched_watch(rw, sizeof(*rw));
	fiber_body = rw_body;
	run_all(0);
	one_more(rw_final);
	kfiber_rwlock_destroy(rw);
	REACH("end");
}
/* ---------------------------------------------------------------- condition */
#ifndef KIND
#define KIND -1
#endif
static kfiber_cond *fc;
static bool automatic;
static int tokens, waiting, due, began, notices, passes, waits, given[MAXPOST], cb_begun;
static bool is_set;
static bool blocks() { return automatic ? tokens == 0 : !is_set; }
static void do_notice()
{
	int n = began++;
	if (automatic) { if (waiting > 0) { waiting--; due++; } else tokens++; }
	else { is_set = true; due += waiting; waiting = 0; }
	fc->f->notice(fc, 100 + n);
	notices++;
}
static void start_wait(bool blk) { waits++; if (LOOPS > 1) return; if (blk) waiting++; else if (automatic) tokens--; }
static void passed(bool blk, int got, bool want)
{
	passes++;
	CHECK(automatic ? passes <= began : began > 0, "a wait returns only after a notice");
	if (LOOPS > 1) return;
	if (!blk) return;
	CHECK(due > 0, "a waiter resumes only when a notice released it");
	due--;
	if (!want) { REACH("value not asked for"); return; }
	CHECK(got >= 100 && got < 100 + began, "a blocked waiter gets the notice's value");
	CHECK(given[got - 100]++ == 0 || !automatic, "a notice of an automatic condition releases one waiter");
}
struct cwait { int used, called; bool blk; };
static struct cwait cw[NF * OPS];
static kev_result cond_cb(KOPAQUE d, void *a, int got)
{
	struct cwait *w = (struct cwait *)a;
	CHECK(w >= cw && w < cw + NF * OPS && d == (KOPAQUE)w, "a callback waiter gets its data and argument");
	CHECK(w->used && ++w->called == 1, "a callback waiter is called once");
	passed(w->blk, got, true);
	l_running--;
	sched_event();
	return kev_ok;
}
static int cond_body(void *, int i)
{
	for (int r = 0; r < OPS; r++) {
		bool blk = blocks();
		int got = -7, k, before;
		bool want;
		switch (CHOOSE(4)) {
		case 0:
			start_wait(blk);
			want = FLIP();
			CHECK(fc->f->wait(fc, want ? &got : NULL) == 0, "a wait succeeds");
			passed(blk, got, want);
			break;
		case 1:
			do_notice();
			REACH("notice");
			break;
		case 2:
			before = notices;
			if (LOOPS == 1 && !blk && automatic) tokens--;
			want = FLIP();
			if (fc->f->try_wait(fc, want ? &got : NULL) == 0) {
				waits++;
				passed(false, got, want);
				if (LOOPS == 1) CHECK(!blk, "a poll succeeds exactly when a wait would not block");
				REACH("polled");
			} else {
				if (LOOPS == 1) CHECK(blk, "a poll succeeds exactly when a wait would not block");
				CHECK(automatic || before == 0, "a manual condition stays set");
			}
			break;
		case 3:
			k = cb_begun++;
			cw[k].used = 1;
			cw[k].blk = blk;
			l_running++;
			start_wait(blk);
			fc->f->wait_callback(fc, (KOPAQUE)&cw[k], cond_cb, &cw[k]);
			break;
		}
		if (r + 1 < OPS && FLIP()) l_yield();
	}
	return 0;
}
static kev_result rescue_cb(KOPAQUE, void *, int) { do_notice(); return kev_ok; }
static void post_to(int loop, result_callback cb, void *arg)
{
	struct vloop *l = &L[loop];
	CHECK(l->n < MAXPOST, "harness: bounded posts");
	lpost *p = &l->q[l->n++];
	p->d = NULL; p->cb = cb; p->a = arg; p->got = 0;
	vp_events++;
}
static void start_loops(int extra)
{
	l_running = NF + extra;
	for (int k = 0; k < LOOPS; k++) sched_spawn(loop_main, (void *)(intptr_t)k);
}
ENTRY(h_cond)
{
	l_setup();
	automatic = FLIP();
	bool ts = LOOPS > 1 || FLIP();
	fc = ts ? kfiber_cond_init_ts(automatic) : kfiber_cond_init(automatic);
	sched_watch(fc, sizeof(kfiber_cond_ts));
	fiber_body = cond_body;
	start_loops(0);
	int left = sched_run();
	int blocked = waits - passes;
	if (LOOPS == 1) CHECK(due == 0 && blocked == waiting, "every released waiter has resumed");
	CHECK(automatic ? blocked == 0 || passes == notices : blocked == 0 || notices == 0, "no waiter stays blocked although a notice should have released it");
	CHECK((blocked != 0) == (left != 0), "no deadlock");
	while (blocked > 0) {
		REACH("blocked");
		if (LOOPS > 1) { is_set = true; }
		post_to(0, rescue_cb, NULL);
		int old = passes;
		sched_run();
		blocked = waits - passes;
		CHECK(passes > old, "a notice releases a waiter");
		CHECK(automatic || blocked == 0, "a notice releases all waiters of a manual condition");
		if (LOOPS == 1) CHECK(due == 0 && blocked == waiting, "every released waiter has resumed");
		if (OPS == 1 && automatic) CHECK(passes == old + 1, "a notice of an automatic condition releases one waiter");
	}
	CHECK(l_running == 0, "nobody is blocked at the end");
	CHECK(sched_run() == 0 && kfiber_get_count() == 0, "all fibers are gone");
	for (int k = 0; k < cb_begun; k++) CHECK(cw[k].called == 1, "a callback waiter is called once");
	fc->f->release(fc);
	REACH("end");
}
/* a thread without a loop waits, a fiber notifies */
static void *sync_waiter(void *)
{
	int got = -7;
	bool want = FLIP();
	CHECK(fc->f->wait(fc, want ? &got : NULL) == 0, "a wait succeeds");
	passes++;
	CHECK(automatic ? passes <= began : began > 0, "a wait returns only after a notice");
	CHECK(!want || (got >= 100 && got < 100 + began), "a thread gets the notice's value");
	sched_event();
	return NULL;
}
static int sync_body(void *, int)
{
	for (int r = 0; r < OPS; r++) {
		int n = began++;
		fc->f->notice(fc, 100 + n);
		notices++;
		if (FLIP()) l_yield();
	}
	return 0;
}
static void *sync_poller(void *)
{
	int got = -7;
	bool want = FLIP();
	int before = notices;
	if (fc->f->try_wait(fc, want ? &got : NULL) == 0) {
		CHECK(!want || (got >= 100 && got < 100 + began), "a thread gets the notice's value");
		REACH("polled");
		passes++;
		CHECK(automatic ? passes <= began : began > 0, "a wait returns only after a notice");
	} else CHECK(automatic || before == 0, "a manual condition stays set");
	return NULL;
}
ENTRY(h_cond_sync)
{
	l_setup();
	automatic = FLIP();
	fc = kfiber_cond_init_sync(automatic);
	fiber_body = sync_body;
	int w = 1 + CHOOSE(2);
	bool poll = w == 2 && FLIP();
	start_loops(0);
	for (int i = 0; i < w; i++) sched_spawn(i == 1 && poll ? sync_poller : sync_waiter, NULL);
	int left = sched_run();
	if (!automatic) CHECK(left == 0, "a manual condition releases everybody");
	CHECK(left == 0 || passes > 0, "a notice is not lost");
	if (left == 0) fc->f->release(fc);
	REACH("end");
}
/* ---------------------------------------------------------------- channel */
static kfiber_chan *ch;
static int nsend, sent_ok[NF * OPS], sent_fail[NF * OPS], recvd[NF * OPS];
static int swait, rwait, rdue, sdue;     /* blocked senders and receivers, those that must resume */
static bool chan_closed;
static void do_send()
{
	int k = nsend++;
	bool fail = chan_closed, blk = !fail && rwait == 0;
	if (blk) swait++;
	else if (!fail) { rwait--; rdue++; }
	int ret = kfiber_chan_send(ch, (KOPAQUE)&sent_ok[k]);
	CHECK(ret == 0 || ret == -1, "a send succeeds or fails");
	if (ret == 0) sent_ok[k] = 1; else sent_fail[k] = 1;
	if (fail) CHECK(ret != 0, "sending on a closed channel fails");
	else if (!blk) CHECK(ret == 0, "a send finds its waiting receiver");
	else {
		CHECK(sdue > 0, "a blocked sender resumes when received or closed");
		sdue--;
		CHECK(chan_closed || ret == 0, "a send fails only when the channel was closed");
	}
}
static void do_recv()
{
	KOPAQUE data = NULL;
	kfiber_waiter *sender = NULL;
	bool by_hand = FLIP();
	bool fail = swait == 0 && chan_closed, blk = !fail && swait == 0;
	if (blk) rwait++;
	else if (!fail) { swait--; if (!by_hand) sdue++; }
	int ret = kfiber_chan_recv(ch, &data, by_hand ? &sender : NULL);
	CHECK(ret == 0 || ret == -1, "a receive succeeds or fails");
	if (fail) CHECK(ret != 0, "receiving on a closed channel fails");
	else if (!blk) CHECK(ret == 0, "a receive finds its waiting sender");
	else {
		CHECK(rdue > 0, "a blocked receiver resumes when sent to or closed");
		rdue--;
		CHECK(chan_closed || ret == 0, "a receive fails only when the channel was closed");
		CHECK(!by_hand || sender == NULL, "a direct handover leaves no sender waiting");
	}
	if (ret != 0) return;
	int *v = (int *)data;
	CHECK(v >= sent_ok && v < sent_ok + nsend, "a received value was sent");
	int j = (int)(v - sent_ok);
	recvd[j]++;
	CHECK(recvd[j] == 1, "a value is received once");
	if (!blk && by_hand) {
		CHECK(sender != NULL && !sent_ok[j] && !sent_fail[j], "the sender waits until it is told");
		if (FLIP()) l_yield();
		CHECK(!sent_ok[j] && !sent_fail[j], "the sender waits until it is told");
		sdue++;
		kfiber_chan_wakeup(ch, sender, 0);
		CHECK(sent_ok[j], "the sender is told");
		REACH("told");
	}
}
static void do_close()
{
	chan_closed = true;
	rdue += rwait; rwait = 0;
	sdue += swait; swait = 0;
	kfiber_chan_close(ch);
}
static int chan_body(void *, int i)
{
	for (int r = 0; r < OPS; r++) {
		int how = CHOOSE(3);
		if (how == 0) do_send();
		else if (how == 1) do_recv();
		else { do_close(); REACH("closed"); }
		if (r + 1 < OPS && FLIP()) l_yield();
	}
	kfiber_chan_release(ch);
	return 0;
}
static kev_result close_cb(KOPAQUE, void *, int) { do_close(); return kev_ok; }
ENTRY(h_chan)
{
	l_setup();
	uint64_t heap = vp_heap_bytes();
	ch = kfiber_chan_create();
	for (int i = 0; i < NF; i++) CHECK(kfiber_chan_add_ref(ch) == ch, "a reference to the channel");
	CHECK(kfiber_chan_get_ref(ch) == NF + 1, "references are counted");
	fiber_body = chan_body;
	start_loops(0);
	int left = sched_run();
	CHECK(rdue == 0 && sdue == 0, "everybody released has resumed");
	CHECK((left != 0) == (swait + rwait != 0), "no deadlock");
	CHECK(!chan_closed || left == 0, "nobody stays blocked on a closed channel");
	CHECK(swait == 0 || rwait == 0, "no sender waits next to a receiver");
	if (left) {
		REACH("blocked");
		post_to(0, close_cb, NULL);
		CHECK(sched_run() == 0, "closing releases everybody");
	}
	CHECK(l_running == 0 && kfiber_get_count() == 0, "all fibers are gone");
	for (int k = 0; k < nsend; k++) {
		CHECK(sent_ok[k] + sent_fail[k] == 1, "every send ends once");
		CHECK(sent_ok[k] == recvd[k], "a send succeeds exactly when its value was received");
	}
	CHECK(kfiber_chan_get_ref(ch) == 1, "references are counted");
	CHECK(vp_heap_bytes() > heap, "the channel lives as long as a reference");
	kfiber_chan_close(ch);
	kfiber_chan_release(ch);
	CHECK(vp_heap_bytes() == heap, "the channel is freed with its last reference");
	REACH("end");
}
VP_HARNESS_END
