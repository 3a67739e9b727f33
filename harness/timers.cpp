/* C07: timers, ticks and clock adjustment (kselector.c, kselector_manager.c) */
#include "vp.h"
#include "env.h"
#include "kselector.h"
#include "kselector_manager.h"
#ifndef NT
#define NT 3
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef BITS
#define BITS 16
#endif
#define BASE (BITS > 16 ? 0 : 0x18000000000LL)
/* delays and clock readings: BITS wide */
static int64_t nd_delay() { return (int64_t)vp_nd_raw((1ULL << (BITS > 31 ? 31 : BITS)) - 1); }
static int64_t nd_time() { return BASE + (int64_t)vp_nd_raw((1ULL << BITS) - 1); }
#define FAR (1LL << 47)
#define MAXT (2 * NT)
static kselector *sel;
struct T { int64_t deadline, added_round; int fired; bool child; };
static T t[MAXT];
static int nt, round_no, last_fired;
static int data_of[MAXT];
static void m_init(kselector *s) { s->ctx = NULL; }
static void m_destroy(kselector *s) { }
static struct { kselector *s; KOPAQUE d; result_callback r; void *a; int got; } posted[8];
static int n_posted;
static void m_next(kselector *s, KOPAQUE d, result_callback r, void *a, int got)
{
	CHECK(n_posted < 8, "bounded posts");
	posted[n_posted].s = s; posted[n_posted].d = d; posted[n_posted].r = r; posted[n_posted].a = a; posted[n_posted++].got = got;
}
extern "C" int klog_stub;
static kev_result on_timer(KOPAQUE data, void *arg, int got);
static void add(int64_t msec)
{
	int i = nt++;
	t[i].deadline = kgl_current_msec + msec;
	t[i].added_round = round_no;
	t[i].fired = 0;
	CHECK(kselector_add_timer(sel, on_timer, &t[i], (int)msec, (KOPAQUE)&data_of[i]) == 0, "timer accepted");
}
static int64_t prev_deadline;
static bool have_prev;
static kev_result on_timer(KOPAQUE data, void *arg, int got)
{
	T *x = (T *)arg;
	int i = (int)(x - t);
	CHECK(i >= 0 && i < nt, "callback gets its argument");
	CHECK((int *)data == &data_of[i], "callback gets its own data");
	CHECK(got == 0, "timer result is 0");
	CHECK(x->fired == 0, "timer fires only once");
	CHECK(x->deadline <= kgl_current_msec, "timer is not early");
	if (have_prev) CHECK(prev_deadline <= x->deadline, "timers fire in deadline order");
	have_prev = true;
	prev_deadline = x->deadline;
	x->fired = 1;
	if (x->child) {
		/* deliver order within the round concerns timers known before it */
		x->child = false;
		add(nd_delay());
	}
	return kev_ok;
}
static void round_(int64_t now)
{
	kgl_current_msec = now;
	have_prev = false;
	int known = nt;
	int r = kselector_check_timeout(sel, 0);
	CHECK(r > 0 && r <= 100, "loop sleeps a positive time of at most 100 ms");
	for (int i = 0; i < known; i++) CHECK((t[i].fired != 0) == (t[i].deadline <= now), "a timer fires in the first round at or after its deadline");
	round_no++;
}
static kselector_tick *first_tick;
static void start()
{
	kgl_selector_module.name = "h";
	kgl_selector_module.init = m_init;
	kgl_selector_module.destroy = m_destroy;
	kgl_selector_module.next = m_next;
	pthread_key_create(&kgl_selector_key, NULL);
	sel = kselector_new(first_tick);
	sel->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, sel);
}
ENTRY(h_timers)
{
	start();
	uint64_t heap0 = vp_heap_bytes();
	int64_t now = nd_time();
	kgl_current_msec = now;
	for (int i = 0; i < NT; i++) add(nd_delay());
	int c = CHOOSE(NT + 1);
	if (c < NT) t[c].child = true;
	for (int r = 0; r < ROUNDS; r++) {
		int64_t n2 = nd_time();
		ASSUME(n2 >= now);
		now = n2;
		round_(now);
	}
	round_(FAR);
	round_(2 * FAR);
	CHECK(sel->block_first == NULL && sel->block.rb_node == NULL, "no timer left");
	CHECK(vp_heap_bytes() == heap0, "all timers released");
	REACH("end");
}
/* timers added between rounds; the clock moves at any point, with or without a round */
static int64_t now_;
static void later() { int64_t n = nd_time(); ASSUME(n >= now_); now_ = n; }
ENTRY(h_interleave)
{
	start();
	now_ = nd_time();
	kgl_current_msec = now_;
	add(nd_delay());
	for (int r = 0; r < NT - 1; r++) {
		/* another loop keeps the time while this one is busy */
		later();
		kgl_current_msec = now_;
		add(nd_delay());
		later();
		round_(now_);
	}
	round_(FAR);
	for (int i = 0; i < nt; i++) CHECK(t[i].fired == 1, "every timer fired");
	REACH("end");
}
/* clock steps: timers with known remaining time, then the clock moves anywhere */
static int64_t remain[NT], msec0[NT];
static kev_result on_adj(KOPAQUE data, void *arg, int got)
{
	int i = (int)((T *)arg - t);
	CHECK(i >= 0 && i < NT && t[i].fired == 0, "timer fires once with its argument");
	t[i].fired = 1;
	return kev_ok;
}
static void clock_set()
{
	static const int ms[3] = { 0, 500, 999 };
	clock_sec = (BASE / 1000) + (int64_t)vp_nd_raw((1ULL << BITS) - 1);
	clock_ms = ms[CHOOSE(3)];
	clock_msec = clock_sec * 1000 + clock_ms;
}
ENTRY(h_clock)
{
	start();
	/* two event loops: this thread's and another thread's */
	selector_manager_init(2, false);
	kselector *s[2] = { get_selector_by_index(0), get_selector_by_index(1) };
	s[0]->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, s[0]);
	cur_thread = 1;
	s[1]->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, s[1]);
	cur_thread = 0;
	/* real clock reading first */
	clock_set();
	kselector_update_time();
	CHECK(kgl_current_msec == clock_msec, "the loop's time is the clock's");
	for (int i = 0; i < NT; i++) {
		int w = i & 1;
		int64_t d = (int64_t)vp_nd_raw((1ULL << (BITS + 10)) - 1);
		cur_thread = w;
		kselector_add_timer(s[w], on_adj, &t[i], (int)d, NULL);
		msec0[i] = d;
	}
	cur_thread = 0;
	int64_t before = clock_msec, before_s = clock_sec;
	clock_set();
	bool back = clock_msec < before;
	bool seen = clock_sec < before_s;
	if (FLIP()) {
		ASSUME(back);
		ASSUME(seen);
		kselector_update_time();
		/* the other loop handles what was posted to it */
		for (int i = 0; i < n_posted; i++) {
			CHECK(posted[i].s == s[1], "only the other thread's loop is told by a post");
			cur_thread = 1;
			posted[i].r(posted[i].d, posted[i].a, posted[i].got);
		}
		CHECK(kgl_current_msec == clock_msec, "the loop's time is the clock's");
		/* remaining times are unchanged */
		for (int w = 0; w < 2; w++) {
			cur_thread = w;
			int64_t adv = (int64_t)vp_nd_raw((1ULL << (BITS + 10)) - 1);
			kgl_current_msec = clock_msec + adv;
			kselector_check_timeout(s[w], 0);
			for (int i = w; i < NT; i += 2) CHECK((t[i].fired != 0) == (msec0[i] <= adv), "after a backward clock step timers fire after their remaining delay");
		}
		REACH("backward");
	} else {
		ASSUME(!back);
		kselector_update_time();
		CHECK(n_posted == 0, "a forward step adjusts nothing");
		for (int w = 0; w < 2; w++) {
			cur_thread = w;
			kselector_check_timeout(s[w], 0);
			for (int i = w; i < NT; i += 2) CHECK((t[i].fired != 0) == (before + msec0[i] <= clock_msec), "after a forward step timers fire as due");
		}
		REACH("forward");
	}
	REACH("end");
}
/* the clock set back far */
ENTRY(h_clock_far)
{
	static const int64_t by[] = { 1000, 86400000LL, 0x7fffffffLL + 1, 0x80000000LL + 90000, 0x100000000LL + 5000, 400LL * 86400000 };
	start();
	selector_manager_init(2, false);
	kselector *s[2] = { get_selector_by_index(0), get_selector_by_index(1) };
	s[0]->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, s[0]);
	cur_thread = 1;
	s[1]->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, s[1]);
	cur_thread = 0;
	clock_msec = BASE;
	clock_sec = BASE / 1000;
	clock_ms = BASE % 1000;
	kselector_update_time();
	CHECK(kgl_current_msec == clock_msec, "the loop's time is the clock's");
	for (int i = 0; i < 2; i++) {
		msec0[i] = (int64_t)vp_nd_raw(0xffff);
		cur_thread = i;
		kselector_add_timer(s[i], on_adj, &t[i], (int)msec0[i], NULL);
	}
	cur_thread = 0;
	clock_msec -= by[CHOOSE(sizeof(by) / sizeof(by[0]))];
	clock_sec = clock_msec / 1000;
	clock_ms = clock_msec % 1000;
	kselector_update_time();
	for (int i = 0; i < n_posted; i++) {
		cur_thread = 1;
		posted[i].r(posted[i].d, posted[i].a, posted[i].got);
	}
	CHECK(kgl_current_msec == clock_msec, "the loop's time is the clock's");
	for (int w = 0; w < 2; w++) {
		cur_thread = w;
		int64_t adv = (int64_t)vp_nd_raw(0xffff);
		kgl_current_msec = clock_msec + adv;
		kselector_check_timeout(s[w], 0);
		CHECK((t[w].fired != 0) == (msec0[w] <= adv), "after a backward clock step timers fire after their remaining delay");
	}
	REACH("end");
}
/* a clock step that the other loop has not been told of yet when a timer is added there */
ENTRY(h_clock_race)
{
	start();
	selector_manager_init(2, false);
	kselector *s[2] = { get_selector_by_index(0), get_selector_by_index(1) };
	for (int w = 0; w < 2; w++) {
		cur_thread = w;
		s[w]->thread_id = pthread_self();
		pthread_setspecific(kgl_selector_key, s[w]);
	}
	cur_thread = 0;
	clock_set();
	kselector_update_time();
	int64_t before_s = clock_sec;
	clock_set();
	ASSUME(clock_sec < before_s);
	kselector_update_time();
	CHECK(n_posted == 1 && posted[0].s == s[1], "the other loop is told");
	bool late = FLIP();
	cur_thread = 1;
	if (!late) posted[0].r(posted[0].d, posted[0].a, posted[0].got);
	int64_t d = (int64_t)vp_nd_raw((1ULL << (BITS + 10)) - 1);
	kselector_add_timer(s[1], on_adj, &t[0], (int)d, NULL);
	if (late) posted[0].r(posted[0].d, posted[0].a, posted[0].got);
	int64_t adv = (int64_t)vp_nd_raw((1ULL << (BITS + 10)) - 1);
	kgl_current_msec = clock_msec + adv;
	kselector_check_timeout(s[1], 0);
	if (late) CHECK(!t[0].fired || d <= adv, "a timer added before its loop has handled the step does not fire early");
	else CHECK((t[0].fired != 0) == (d <= adv), "a timer added after the step fires as due");
	REACH("end");
}
/* timers for a loop from another thread */
ENTRY(h_ts)
{
	start();
	selector_manager_init(2, false);
	kselector *s = get_selector_by_index(1);
	cur_thread = 1;
	s->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, s);
	cur_thread = FLIP();
	int64_t now = nd_time();
	kgl_current_msec = now;
	int64_t d = nd_delay();
	sel = s;
	nt = 1;
	t[0].deadline = now + d;
	kselector_add_timer_ts(s, on_timer, &t[0], (int)d, (KOPAQUE)&data_of[0]);
	/* meanwhile time passes; then the loop's thread handles posts */
	int64_t n2 = nd_time();
	ASSUME(n2 >= now);
	cur_thread = 1;
	kgl_current_msec = n2;
	for (int i = 0; i < n_posted; i++) {
		CHECK(posted[i].s == s, "the timer is posted to its loop");
		posted[i].r(posted[i].d, posted[i].a, posted[i].got);
	}
	round_(n2);
	round_(FAR);
	CHECK(t[0].fired == 1, "timer fired");
	REACH("end");
}
/* periodic callbacks */
static kselector_tick *tk[4];
static bool closed[4];
static int calls[4], action[4], target[4], ret[4];
static bool live_before[4];
static int ids[4] = { 0, 1, 2, 3 };
static int on_tick(void *arg, int n)
{
	int i = (int)((int *)arg - ids);
	CHECK(i >= 0 && i < 4 && !closed[i], "a removed periodic callback is not called");
	CHECK(n == 7, "periodic callback gets the event count");
	calls[i]++;
	if (action[i] == 1) {
		int j = target[i];
		if (!closed[j] && tk[j]) {
			closed[j] = true;
			CHECK(kselector_close_tick(tk[j]), "removal works");
		}
	} else if (action[i] == 2 && !tk[3]) {
		tk[3] = kselector_new_tick(on_tick, &ids[3]);
		CHECK(kselector_register_tick(tk[3]), "adding works");
	}
	return ret[i];
}
ENTRY(h_ticks)
{
	/* the first may be given to the loop when it is made */
	uint64_t heap0 = vp_heap_bytes();
	if (FLIP()) tk[0] = first_tick = kselector_new_tick(on_tick, &ids[0]);
	heap0 = vp_heap_bytes() - heap0;
	start();
	heap0 = vp_heap_bytes() - heap0;
	for (int i = first_tick ? 1 : 0; i < 3; i++) {
		tk[i] = kselector_new_tick(on_tick, &ids[i]);
		CHECK(kselector_register_tick(tk[i]), "registered");
	}
	for (int r = 0; r < 2; r++) {
		int mn = 100;
		for (int i = 0; i < 3; i++) {
			action[i] = closed[i] ? 0 : CHOOSE(3);
			target[i] = action[i] == 1 ? CHOOSE(3) : 0;
			ret[i] = ND_INT();
		}
		ret[3] = 0;
		for (int i = 0; i < 4; i++) { calls[i] = 0; live_before[i] = tk[i] && !closed[i]; }
		int got = kselector_check_timeout(sel, 7);
		for (int i = 0; i < 4; i++) {
			if (live_before[i] && !closed[i]) CHECK(calls[i] == 1, "a periodic callback is called once per round");
			else CHECK(calls[i] <= 1, "a periodic callback is called at most once per round");
			if (calls[i] && ret[i] > 0 && ret[i] < mn) mn = ret[i];
		}
		CHECK(got == mn, "the loop sleeps no longer than a periodic callback asks for");
	}
	for (int i = 0; i < 4; i++) if (tk[i] && !closed[i]) kselector_close_tick(tk[i]);
	CHECK(vp_heap_bytes() == heap0, "periodic callbacks released");
	REACH("end");
}
