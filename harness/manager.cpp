/* C12: the pool of event loops */
#include "vp.h"
#include "env.h"
#include "kselector.h"
#include "kselector_manager.h"
#include "kthread.h"
#ifdef INCLUDE_SOURCE
#include "kselector_manager.c"
#endif
static int inits, starts, nexts, ran;
static kselector *started[64], *next_sel[4];
static result_callback next_cb[4];
static void *next_arg[4];
static void f_init(kselector *s) { s->ctx = (void *)(intptr_t)++inits; }
static void f_next(kselector *s, KOPAQUE d, result_callback cb, void *arg, int got)
{
	CHECK(nexts < 4, "bounded");
	next_sel[nexts] = s;
	next_cb[nexts] = cb;
	next_arg[nexts++] = arg;
}
extern "C" {
bool kthread_pool_start(KTHREAD_FUNCTION(*work)(void *), void *param)
{
	CHECK(work == kselector_thread && starts < 64, "starts event loops");
	started[starts++] = (kselector *)param;
	return true;
}
}
static int expect(int n)
{
	int r = 1;
	while (r < 64 && r * 2 <= n) r *= 2;
	return r;
}
static void setup()
{
	kgl_selector_module.name = "fake";
	kgl_selector_module.init = f_init;
	kgl_selector_module.next = f_next;
	clock_msec = 1000000000;
	kgl_current_msec = clock_msec;
}
static bool in_pool(kselector *s, kselector **pool, int n)
{
	for (int i = 0; i < n; i++) if (pool[i] == s) return true;
	return false;
}
#ifndef NSEL
#define NSEL 2
#endif
static kselector *pool[64];
/* size, indices, limits */
ENTRY(h_size)
{
	setup();
	int size = ND_INT();
	selector_manager_init(size, false);
	int n = get_selector_count();
	CHECK(n >= 1 && n <= 64 && (n & (n - 1)) == 0, "a power of two from 1 to 64");
	CHECK(n == expect(size), "the largest one not above the request");
	CHECK(inits == n && is_selector_manager_init(), "each loop is set up");
	for (int i = 0; i < n; i++) {
		pool[i] = get_selector_by_index(i);
		CHECK(pool[i] != NULL && pool[i]->sid == i, "loop i has id i");
		CHECK(pool[i]->utm == (i == 0), "one loop keeps the time");
		CHECK(pool[i]->timeout[KGL_LIST_CONNECT] == 60000 && pool[i]->timeout[KGL_LIST_RW] == 60000, "default limits");
		for (int j = 0; j < i; j++) CHECK(pool[i] != pool[j], "loops are distinct");
	}
	int k = ND_INT();
	kselector *s = get_selector_by_index(k);
	CHECK(s == pool[k & (n - 1)], "any index gives a loop, by its position");
	int c = ND_RANGE(-5, 1 << 20), rw = ND_RANGE(-5, 1 << 20);
	selector_manager_set_timeout(c, rw);
	int erw = rw > 0 ? rw * 1000 : 60000, ec = c > 0 ? c * 1000 : erw;
	for (int i = 0; i < n; i++) CHECK(pool[i]->timeout[KGL_LIST_CONNECT] == ec && pool[i]->timeout[KGL_LIST_RW] == erw, "every loop gets the limits");
	for (int i = 0; i < 3; i++) CHECK(in_pool(get_perfect_selector(), pool, n), "a loop of the pool");
	REACH("end");
}
/* growing a single-loop pool */
ENTRY(h_grow)
{
	setup();
	int first = CHOOSE(2) + 1;
	selector_manager_init(first, false);
	kselector *s0 = get_selector_by_index(0);
	bool own = FLIP();
	s0->thread_id = own ? pthread_self() : pthread_self() + 1;
	int size = ND_INT();
	bool r = selector_manager_grow(size);
	int want = expect(size);
	bool ok = want > first && first == 1 && own;
	CHECK(r == ok, "grows only a single loop, from its own thread, to more loops");
	int n = get_selector_count();
	CHECK(n == (ok ? want : first), "the new size");
	CHECK(inits == n && starts == (ok ? n - 1 : 0), "the new loops are set up and started");
	for (int i = 0; i < n; i++) {
		pool[i] = get_selector_by_index(i);
		CHECK(pool[i]->sid == i, "loop i has id i");
	}
	CHECK(pool[0] == s0, "the first loop stays");
	for (int i = 0; i < starts; i++) CHECK(started[i] == pool[i + 1], "each new loop is started once");
	int k = ND_INT();
	CHECK(get_selector_by_index(k) == pool[k & (n - 1)], "any index gives a loop");
	for (int i = 0; i < 3; i++) CHECK(in_pool(get_perfect_selector(), pool, n), "a loop of the pool");
	REACH(r ? "grown" : "end");
}
/* the loop for new work, any load of the loops, and any position of the round robin counter */
ENTRY(h_pick)
{
	setup();
	int n = NSEL;
	selector_manager_init(n, false);
	CHECK(get_selector_count() == n, "size");
	for (int i = 0; i < n; i++) {
		pool[i] = get_selector_by_index(i);
		pool[i]->count = ND_RANGE(0, 0x7fffffff - 64);
	}
#ifdef INCLUDE_SOURCE
	kgl_selector_index = ND_U32();
	int p = -1;
#else
	/* any position */
	int p = CHOOSE(n);
	int64_t save[NSEL];
	for (int i = 0; i < n; i++) { save[i] = pool[i]->count; pool[i]->count = 0; }
	for (int i = 0; i < p; i++) get_perfect_selector();
	for (int i = 0; i < n; i++) pool[i]->count = save[i];
#endif
	kselector *s = get_perfect_selector();
	CHECK(in_pool(s, pool, n), "a loop of the pool");
	int i = s->sid;
	CHECK(pool[i] == s, "its id");
	CHECK(pool[i]->count < pool[(i + 1) % n]->count + 64, "not one that is far busier than the next");
	if (p >= 0)
		for (int j = p; j % n != i; j++)
			CHECK(pool[j % n]->count >= pool[(j + 1) % n]->count + 64, "skips only loops that are far busier than the next");
	/* and the round robin goes on from there */
	bool calm = pool[(i + 1) % n]->count < pool[(i + 2) % n]->count + 64;
	kselector *t = get_perfect_selector();
	CHECK(in_pool(t, pool, n), "a loop of the pool");
	CHECK((t == pool[(i + 1) % n]) == calm || n == 1, "round robin");
	REACH("end");
}
static kev_result on_ready(KOPAQUE d, void *a, int got) { return kev_ok; }
/* callbacks asked for before the pool exists */
ENTRY(h_ready)
{
	setup();
	static int a[4];
	int before = CHOOSE(3), after = CHOOSE(2);
	CHECK(!is_selector_manager_init(), "no pool yet");
	for (int i = 0; i < before; i++) selector_manager_on_ready(on_ready, &a[i]);
	CHECK(nexts == 0, "kept until the pool exists");
	selector_manager_init(2, false);
	CHECK(nexts == before, "delivered when the pool exists");
	for (int i = 0; i < after; i++) selector_manager_on_ready(on_ready, &a[before + i]);
	CHECK(nexts == before + after, "delivered at once later on");
	for (int i = 0; i < before + after; i++) {
		int seen = 0;
		for (int j = 0; j < nexts; j++) if (next_arg[j] == &a[i]) { seen++; CHECK(next_cb[j] == on_ready && (next_sel[j] == get_selector_by_index(0) || next_sel[j] == get_selector_by_index(1)), "on a loop of the pool"); }
		CHECK(seen == 1, "each exactly once");
	}
	REACH("end");
}
