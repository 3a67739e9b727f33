/* C17: fiber lifecycle (kfiber.c) */
#define MAXT 5
#define LOOPS_KLOG
#include <signal.h>
#include "loops.h"
#include "kthread.h"
VP_HARNESS_BEGIN
extern "C" void klog(int, const char *, ...) {}
#ifndef NF
#define NF 2
#endif
/* thread pool stand-in: kfiber_thread_call only */
static int thread_calls, thread_fail;
bool kthread_pool_start(KTHREAD_FUNCTION(*work)(void *), void *param)
{
	sched_point();
	if (thread_fail > 0 && FLIP()) { thread_fail--; return false; }
	thread_calls++;
	sched_spawn((void *(*)(void *))work, param);
	return true;
}
struct child {
	int arg, runs, retval, len, loop, ended, told, exit_told;
	kfiber *h;
};
static struct child C[NF + 1];
static int nchild;
static int call_body(void *a, int len)
{
	struct child *c = (struct child *)a;
	CHECK(kgl_get_tls_selector() == NULL, "a blocking call runs off the loop");
	CHECK(len == c->len + 1, "a blocking call gets its argument");
	c->told++;
	sched_point();
	return c->retval ^ 1;
}
static kev_result exit_cb(KOPAQUE d, void *a, int got)
{
	struct child *c = (struct child *)a;
	CHECK(d == (KOPAQUE)&c->arg, "an exit callback gets its data and argument");
	CHECK(c->ended, "an exit callback is called after the fiber has ended");
	CHECK(got == c->retval, "an exit callback gets the fiber's result");
	c->exit_told++;
	l_running--;
	sched_event();
	return kev_ok;
}
/* what a fiber does */
static void act(struct child *c, int kinds)
{
	int64_t t0, before = nchild;
	int ret = 0;
	switch (CHOOSE(kinds)) {
	case 0: break;
	case 1: l_yield(); REACH("yield"); break;
	case 2: {
		int d = ND_RANGE(1, 100);
		t0 = kgl_current_msec;
		CHECK(kfiber_msleep(d) == 0, "sleeping succeeds");
		CHECK(kgl_current_msec >= t0 + d, "a fiber sleeps at least as long as asked");
		REACH("sleep");
		break;
	}
	case 3: {
		int calls = c->told, ok;
		ok = kfiber_thread_call(call_body, c, c->len + 1, &ret);
		if (ok == 0) { CHECK(c->told == calls + 1 && ret == (c->retval ^ 1), "a blocking call is made once and returns its result"); REACH("call"); }
		else CHECK(c->told == calls, "a refused blocking call is not made");
		break;
	}
	}
	(void)before;
	CHECK(kgl_get_tls_selector() == L[c->loop].s, "a fiber stays on its loop");
}
#ifndef CHILD_ACTS
#define CHILD_ACTS 4
#endif
static int child_main(void *a, int len)
{
	struct child *c = (struct child *)a;
	CHECK(c >= C && c < C + NF + 1 && c->arg == 7, "a fiber gets its argument");
	CHECK(++c->runs == 1, "a fiber runs its function once");
	CHECK(len == c->len, "a fiber gets its length");
	CHECK(kgl_get_tls_selector() == L[c->loop].s, "a fiber runs on its loop");
	CHECK(!kfiber_is_main(), "a fiber is not the loop's main context");
#ifdef EXIT_CALLBACKS
	for (int n = CHOOSE(3); n > 0; n--) { l_running++; c->exit_told--; kfiber_exit_callback((KOPAQUE)&c->arg, exit_cb, c); REACH("exit callback"); }
#endif
	act(c, CHILD_ACTS);
	CHECK(c->runs == 1, "a fiber runs its function once");
	c->ended = 1;
	l_running--;
	sched_event();
	return c->retval;
}
static struct child *new_child(int loop)
{
	struct child *c = &C[nchild++];
	c->arg = 7;
	c->len = ND_INT();
	c->retval = ND_INT();
	c->loop = loop;
	l_running++;
	return c;
}
static void join(struct child *c)
{
	int ret = -77;
	CHECK(c->h != NULL, "a handle was given");
	if (FLIP()) l_yield();
	int polls = CHOOSE(2);
	if (polls) {
		bool ended = c->ended;
		if (kfiber_try_join(c->h, &ret) == 0) {
			CHECK(c->ended && ret == c->retval, "join returns the fiber's result");
			REACH("polled");
			return;
		}
		(void)ended;
		ret = -77;
	}
	CHECK(kfiber_join(c->h, FLIP() ? &ret : NULL) == 0, "join succeeds");
	CHECK(c->ended, "join returns when the fiber has ended");
	CHECK(ret == c->retval || ret == -77, "join returns the fiber's result");
	REACH("joined");
}
/* the parent: creates children in every way and joins them in any order */
static int parent_main(void *a, int)
{
	struct child *kids[NF];
	int n = 0;
	int me = (int)(intptr_t)a;
	for (int i = 0; i < NF; i++) {
		int how = CHOOSE(LOOPS > 1 ? 5 : 4);
		struct child *c = new_child(how == 4 ? 1 - me : me);
		if (how == 0) CHECK(kfiber_create(child_main, c, c->len, 4096, &c->h) == 0, "fiber created");
		if (how == 1 || how == 4) CHECK(kfiber_create2(L[c->loop].s, child_main, c, c->len, 0, &c->h) == 0, "fiber created");
		if (how == 2) CHECK(kfiber_create(child_main, c, c->len, 4096, NULL) == 0, "fiber created");
		if (how == 3) {
			c->h = kfiber_new(child_main, c, 4096);
			CHECK(c->h != NULL && c->runs == 0, "a new fiber does not run yet");
			CHECK(kfiber_start(c->h, c->len) == 0, "fiber started");
		}
		if (how != 2 && vp_nwatch < 4) sched_watch(c->h, sizeof(kfiber));
		if (how != 2) { kids[n++] = c; CHECK(c->h != NULL, "a handle was given"); }
	}
	if (n == 2 && FLIP()) { join(kids[1]); n = 1; }
	for (int i = 0; i < n; i++) join(kids[i]);
	l_running--;
	sched_event();
	return 0;
}
static void *loop_main(void *a)
{
	int k = (int)(intptr_t)a;
	l_enter(k);
	if (k == 0) CHECK(kfiber_create2(L[0].s, parent_main, (void *)0, 0, 4096, NULL) == 0, "fiber created");
	l_loop(&L[k]);
	l_leave(k);
	return NULL;
}
static void end_checks(uint64_t heap)
{
	for (int i = 0; i < nchild; i++) CHECK(C[i].runs == 1 && C[i].ended && C[i].exit_told == 0, "a fiber runs its function once");
	CHECK(kfiber_get_count() == 0, "no fiber is counted at the end");
	CHECK(vp_heap_bytes() == heap, "every fiber's memory is released once");
	REACH("end");
}
ENTRY(h_create)
{
	static char none;
	sched_watch(&none, 1);
	l_setup();
	thread_fail = 1;
	l_running = 1;
	uint64_t heap = vp_heap_bytes();
	for (int k = 0; k < LOOPS; k++) sched_spawn(loop_main, (void *)(intptr_t)k);
	CHECK(sched_run() == 0, "every fiber ends and every join returns");
	for (int i = 0; i < nchild; i++) CHECK(C[i].runs == 1 && C[i].ended && C[i].exit_told == 0, "a fiber runs its function once");
	end_checks(heap);
}
/* the loop itself waits for a fiber */
static struct child *joined;
static int join_told;
static kev_result join_cb(KOPAQUE d, void *a, int got)
{
	CHECK(d == (KOPAQUE)&join_told && a == joined, "a join callback gets its data and argument");
	CHECK(joined->ended, "a join callback is called after the fiber has ended");
	CHECK(++join_told == 1, "a join callback is called once");
	l_running--;
	sched_event();
	return kev_ok;
}
static void *join2_main(void *a)
{
	l_enter(0);
	struct child *c = new_child(0);
	joined = c;
	if (FLIP()) kfiber_create2(L[0].s, child_main, c, c->len, 4096, &c->h);
	else kfiber_create(child_main, c, c->len, 4096, &c->h);
	for (int i = CHOOSE(4); i > 0 && l_ready(&L[0]); i--) l_turn(&L[0]);
	l_running++;
	kfiber_join2(c->h, (KOPAQUE)&join_told, join_cb, c);
	l_loop(&L[0]);
	l_leave(0);
	return NULL;
}
ENTRY(h_join_callback)
{
	l_setup();
	l_running = 0;
	uint64_t heap = vp_heap_bytes();
	sched_spawn(join2_main, NULL);
	CHECK(sched_run() == 0, "the callback is called");
	CHECK(join_told == 1, "a join callback is called once");
	end_checks(heap);
}
/* a thread without a loop creates a fiber and waits for it */
static bool with_handle;
static void *outside(void *)
{
	struct child *c = new_child(0);
	int ret = -77;
	CHECK(kfiber_create_sync(child_main, c, c->len, 4096, with_handle ? &c->h : NULL) == 0, "fiber created");
	if (with_handle) {
		if (FLIP() && kfiber_try_join(c->h, &ret) == 0) CHECK(c->ended, "join returns when the fiber has ended");
		else CHECK(kfiber_join(c->h, &ret) == 0 && c->ended, "join returns when the fiber has ended");
		CHECK(ret == c->retval, "join returns the fiber's result");
	}
	l_running--;
	sched_event();
	return NULL;
}
static void *plain_loop(void *a)
{
	int k = (int)(intptr_t)a;
	l_enter(k);
	l_loop(&L[k]);
	l_leave(k);
	return NULL;
}
ENTRY(h_sync)
{
	l_setup();
	l_running = 1;
	with_handle = FLIP();
	uint64_t heap = vp_heap_bytes();
	for (int k = 0; k < LOOPS; k++) sched_spawn(plain_loop, (void *)(intptr_t)k);
	sched_spawn(outside, NULL);
	CHECK(sched_run() == 0, "every fiber ends and every join returns");
	end_checks(heap);
}
/* a fiber hands out a reference to itself, others join it */
static kfiber *self_h[2];
static int self_main(void *a, int len)
{
	struct child *c = (struct child *)a;
	bool ts = LOOPS > 1;
	c->runs++;
	c->h = kfiber_ref_self(ts);
	CHECK(c->h == kfiber_self2(), "a reference to itself");
#ifdef TWO_REFS
	self_h[1] = kfiber_ref_self(ts);
#endif
	self_h[0] = c->h;
	sched_event();
	act(c, 3);
	c->ended = 1;
	l_running--;
	sched_event();
	return c->retval;
}
static int self_joiner(void *a, int i)
{
	CHECK(self_h[i] != NULL, "a reference was handed out");
	struct child *c = (struct child *)a;
	int ret = -77;
	CHECK(kfiber_join(self_h[i], &ret) == 0, "join succeeds");
	CHECK(c->ended && ret == c->retval, "join returns the fiber's result");
	REACH("joined");
	l_running--;
	sched_event();
	return 0;
}
static bool handed_out(void *) { return self_h[0] != NULL; }
static void *self_loop(void *a)
{
	int k = (int)(intptr_t)a;
	l_enter(k);
	if (k == 0) {
		kfiber_create2(L[0].s, self_main, &C[0], 0, 4096, NULL);
	}
	if (k == LOOPS - 1) {
		sched_block(handed_out, NULL);
		kfiber_create2(L[k].s, self_joiner, &C[0], 0, 4096, NULL);
#ifdef TWO_REFS
		kfiber_create2(L[k].s, self_joiner, &C[0], 1, 4096, NULL);
#endif
	}
	l_loop(&L[k]);
	l_leave(k);
	return NULL;
}
ENTRY(h_ref_self)
{
	l_setup();
	new_child(0);
#ifdef TWO_REFS
	l_running += 2;
#else
	l_running += 1;
#endif
	uint64_t heap = vp_heap_bytes();
	for (int k = 0; k < LOOPS; k++) sched_spawn(self_loop, (void *)(intptr_t)k);
	CHECK(sched_run() == 0, "every fiber ends and every join returns");
	end_checks(heap);
}
/* the handle of a fiber on its creator's or another loop goes to a fiber elsewhere, which joins it */
static int taker_main(void *a, int)
{
	join((struct child *)a);
	l_running--;
	sched_event();
	return 0;
}
static int giver_main(void *a, int)
{
	struct child *c = new_child(CHOOSE(2));
	CHECK(kfiber_create2(L[c->loop].s, child_main, c, c->len, 0, &c->h) == 0 && c->h != NULL, "fiber created");
#ifdef WATCH_COND
	sched_watch(c->h->close_cond, sizeof(*c->h->close_cond));
#else
	sched_watch(c->h, sizeof(kfiber));
#endif
	CHECK(kfiber_create2(L[1].s, taker_main, c, 0, 4096, NULL) == 0, "fiber created");
	l_running--;
	sched_event();
	return 0;
}
static void *giver_loop(void *a)
{
	int k = (int)(intptr_t)a;
	l_enter(k);
	if (k == 0) CHECK(kfiber_create2(L[0].s, giver_main, NULL, 0, 4096, NULL) == 0, "fiber created");
	l_loop(&L[k]);
	l_leave(k);
	return NULL;
}
#if LOOPS > 1
ENTRY(h_hand_over)
{
	static char none;
	sched_watch(&none, 1);
	l_setup();
	l_running = 2;
	uint64_t heap = vp_heap_bytes();
	for (int k = 0; k < LOOPS; k++) sched_spawn(giver_loop, (void *)(intptr_t)k);
	CHECK(sched_run() == 0, "every fiber ends and every join returns");
	end_checks(heap);
}
#endif
#ifdef STACKS
#undef make_fcontext
static char *stk_top;
static size_t stk_bytes;
static int stks;
extern "C" fcontext_t vp_make_fcontext(void *sp, size_t size, void (*fn)(transfer_t))
{
	stk_top = (char *)sp;
	stk_bytes = size;
	stks++;
	return make_fcontext(sp, size, fn);
}
/* the stack of a fiber: as much as asked for, and its own */
ENTRY(h_stack)
{
	static const int sizes[] = { 0, 4096, 8192, 40960, 65536, 262144, 1 << 20, 8 << 20, 15 << 20 };
	l_setup();
	l_running = 1;
	int k = CHOOSE(sizeof(sizes) / sizeof(sizes[0]));
	l_enter(0);
	for (int i = 0; i < 2; i++) {
		struct child *c = &C[i];
		stks = 0;
		c->h = kfiber_new(child_main, c, sizes[k]);
		if (c->h == NULL) VP_STOP();
		CHECK(stks == 1 && stk_bytes >= (size_t)sizes[k] && stk_bytes >= 4096, "a fiber's stack has the size asked for");
		char *low = stk_top - stk_bytes;
		CHECK(vp_accessible(low, stk_bytes), "a fiber's stack is memory of its own");
		CHECK(low >= (char *)c->h + sizeof(kfiber) || stk_top <= (char *)c->h, "a fiber's stack is apart from its object");
	}
	REACH("end");
}
#endif
VP_HARNESS_END
