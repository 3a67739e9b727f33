/* C22: name resolution (kaddr.c, kfiber_net_getaddr) */
#define MAXT 5
#include "loops.h"
#include "kaddr.h"
#include "kasync_worker.h"
#include "kthread.h"
#include <netdb.h>
VP_HARNESS_BEGIN
#ifndef STEPS
#define STEPS 4
#endif
#define MAXA 24
static const char *const names[3] = { "a.b", "A.b", "a.c" };
static int key_of(const char *h, int family) { return ((h[2] | 32) == 'c') * 2 + (family == PF_INET ? 1 : 0); }
/* ---- the system resolver: every answer is a block with a number */
static struct answer { struct addrinfo ai, more; int key, freed; } *ans[MAXA];
static int nans, asked[4], numeric, fail_left;
static int force = -1;
extern "C" int getaddrinfo(const char *host, const char *service, const struct addrinfo *h, struct addrinfo **res)
{
	CHECK(service == NULL, "only the host is looked up");
	if (h->ai_flags & AI_NUMERICHOST) {
		CHECK(h->ai_family == PF_UNSPEC, "a plain address may be of any family");
		if (!numeric) return EAI_NONAME;
	} else {
		CHECK((h->ai_family == PF_UNSPEC && h->ai_flags == 0) || (h->ai_family == PF_INET && h->ai_flags == AI_CANONNAME), "a lookup asks for the family and flags of its kind");
		asked[key_of(host, h->ai_family)]++;
		sched_point();
		if (force >= 0 ? !force : FLIP()) return EAI_AGAIN;
	}
	CHECK(nans < MAXA, "harness: answers");
	struct answer *a = (struct answer *)malloc(sizeof(*a));
	memset(a, 0, sizeof(*a));
	a->key = key_of(host, h->ai_family);
	a->ai.ai_next = &a->more;            /* several addresses, freed as one */
	ans[nans++] = a;
	*res = &a->ai;
	return 0;
}
extern "C" void freeaddrinfo(struct addrinfo *ai)
{
	CHECK(ai != NULL, "only answers are freed");
	int i = 0;
	while (i < nans && ans[i] != (struct answer *)ai) i++;
	CHECK(i < nans, "an answer is freed once");
	ans[i] = NULL;
	free(ai);
}
static int answer_no(kgl_addr *addr)
{
	CHECK(addr->addr != NULL, "an answer holds an address");
	for (int i = 0; i < nans; i++) if (ans[i] == (struct answer *)addr->addr) return i;
	CHECK(false, "an answer in use is not freed");
	return -1;
}
/* ---- requests */
struct request { int key, told, got; bool held; kgl_addr *keep; kselector *s; };
static struct request R[16];
static int nreq;
static int keep_all;
static kev_result answered(void *arg, kgl_addr *addr)
{
	struct request *r = (struct request *)arg;
	CHECK(r >= R && r < R + nreq, "a callback gets its argument");
	r->told++;
	CHECK(r->told == 1, "a request is answered once");
	CHECK(kgl_get_tls_selector() == r->s, "a request is answered on its own loop");
	r->got = -1;
	if (addr) {
		r->got = answer_no(addr);
		CHECK(ans[r->got]->key == r->key, "a request gets an answer for its own name and kind");
		if (keep_all || (r - R) == 0) { kgl_addr_refs(addr); r->keep = addr; }
	}
	l_running--;
	sched_event();
	return kev_ok;
}
static struct request *ask(int name, int type)
{
	CHECK(nreq < 16, "harness: requests");
	struct request *r = &R[nreq++];
	r->key = (name == 2) * 2 + type;
	r->s = kgl_get_tls_selector();
	l_running++;
	kgl_find_addr(names[name], type ? kgl_addr_cname : kgl_addr_ip, answered, r, r->s);
	return r;
}
static void let_go()
{
	for (int i = 0; i < nreq; i++) if (R[i].keep) {
		CHECK(answer_no(R[i].keep) == R[i].got, "an answer in use does not change");
		kgl_addr_release(R[i].keep);
		R[i].keep = NULL;
	}
}
#ifdef OWN_POOL
/* ---- the worker pool: jobs run when the history says so; urgent ones first */
static struct { void *d; kasync_worker_callback cb; } job[16];
static int njob, refuse;
kasync_worker *kasync_worker_init(int max_worker, int max_queue) { CHECK(max_worker > 0, "there is a resolver thread"); return (kasync_worker *)&job; }
bool kasync_worker_try_start(kasync_worker *w, void *d, kasync_worker_callback cb, bool high)
{
	CHECK(njob < 16, "harness: jobs");
	if (refuse > 0 && FLIP()) { refuse--; return false; }
	job[njob].d = d;
	job[njob++].cb = cb;
	return true;
}
static void run_job(int k)
{
	void *d = job[k].d;
	kasync_worker_callback cb = job[k].cb;
	njob--;
	for (int i = k; i < njob; i++) job[i] = job[i + 1];
	cur_thread = 1;
	cb(d, 1);
	cur_thread = 0;
}
#else
bool kthread_pool_start(KTHREAD_FUNCTION(*work)(void *), void *param)
{
	sched_point();
	sched_spawn((void *(*)(void *))work, param);
	return true;
}
#endif
static void posts() { while (l_ready(&L[0])) l_turn(&L[0]); }
static void nothing_left(uint64_t heap, int count)
{
	CHECK(kgl_get_addr_cache_count() == count, "the count of cached names is right");
	kgl_flush_addr_cache(clock_sec + 4000);
	CHECK(kgl_get_addr_cache_count() == 0, "names not used for an hour are forgotten");
	let_go();
	for (int i = 0; i < nans; i++) CHECK(ans[i] == NULL, "an answer is freed with its last user");
	CHECK(vp_heap_bytes() == heap, "nothing is lost");
}
static uint64_t setup()
{
	kgl_addr_init();
	kgl_addr_init();
	l_setup();
	clock_sec = 1000000;
	/* the periodic flush is looked at in h_timer only */
	int n = 0;
	for (int i = 0; i < LOOPS; i++) { n += L[i].n; L[i].n = 0; }
	CHECK(n == 1, "the periodic flush is set up once");
	return vp_heap_bytes();
}
#ifdef OWN_POOL
/* ghost of one name and kind */
static struct { int state, cur, last, errors, waiting; int64_t used, verified; } G[4];
enum { NONE, PENDING, CACHED };
static int gjob[16];           /* key of each queued job, +8 for a refresh */
/* every history of lookups, cache reads, resolver results, waits and flushes against an exact model */
static void history(int steps, int nnames, int ntypes)
{
	setup();
	l_enter(0);
	uint64_t heap = vp_heap_bytes();
	refuse = 1;
	keep_all = FLIP();
	for (int k = 0; k < 4; k++) G[k].cur = G[k].last = -1;
	for (int step = 0; step < steps; step++) {
		int op = step == 0 ? 0 : CHOOSE(5);
		if (op == 0 || op == 1) {
			int n = step == 0 ? 0 : CHOOSE(nnames), t = CHOOSE(ntypes), k = (n == 2) * 2 + t;
			int jobs = njob, ref = refuse;
			if (op == 0) {
				struct request *r = ask(n, t);
				if (G[k].state == NONE) {
					if (refuse < ref) {
						posts();
						CHECK(r->told == 1 && r->got == -1, "a request that can not be looked up is answered with nothing");
						CHECK(njob == jobs, "one lookup per request");
						continue;
					}
					CHECK(njob == jobs + 1 && r->told == 0, "an unknown name is looked up");
					G[k].state = PENDING;
					G[k].used = G[k].verified = clock_sec;
					gjob[jobs] = k;
					continue;
				}
				if (G[k].state == PENDING) {
					CHECK(njob == jobs && r->told == 0, "requests for the same name and kind share one lookup");
					continue;
				}
				REACH("cached");
				int want = G[k].cur >= 0 ? G[k].cur : G[k].last;
				CHECK(r->told == 1, "a cached answer is given at once");
				CHECK(r->got == want, "a cached answer is the latest good one");
			} else {
				kgl_addr *a = kgl_find_cache_addr(names[n], t ? kgl_addr_cname : kgl_addr_ip);
				if (G[k].state != CACHED) {
					CHECK(a == NULL && njob == jobs, "reading the cache looks nothing up");
					continue;
				}
				CHECK((a ? answer_no(a) : -1) == G[k].cur, "the cache gives the latest answer");
				if (a) kgl_addr_release(a);
			}
			G[k].used = clock_sec;
			if (clock_sec - G[k].verified > 30) {
				REACH("stale");
				G[k].verified = clock_sec;
				if (refuse < ref) CHECK(njob == jobs, "one lookup per request");
				else {
					CHECK(njob == jobs + 1, "a stale answer is looked up again");
					gjob[jobs] = k + 8;
				}
			} else CHECK(njob == jobs, "a fresh answer is not looked up again");
		} else if (op == 2) {
			if (njob == 0) VP_STOP();
			int j = CHOOSE(njob), k = gjob[j] & 3, before = nans, ask0 = asked[k];
			bool refresh = gjob[j] >= 8;
			for (int i = j; i + 1 < njob; i++) gjob[i] = gjob[i + 1];
			run_job(j);
			CHECK(asked[k] == ask0 + 1, "one lookup for one name and kind");
			int got = nans > before ? before : -1;
			if (refresh && G[k].state == PENDING) {
				/* the name was forgotten and asked again meanwhile: the old result does not matter */
				REACH("outdated");
				posts();
				continue;
			}
			if (!refresh || G[k].state == NONE) {
				G[k].state = CACHED;
				G[k].errors = 0;
				if (refresh) G[k].used = G[k].verified = clock_sec;
				else for (int i = 0; i < nreq; i++) if (R[i].key == k && R[i].told == 0) G[k].waiting |= 1 << i;
				G[k].cur = G[k].last = got;
			} else {
				G[k].cur = got;
				if (got >= 0) G[k].last = got;
			}
			posts();
			for (int i = 0; i < nreq; i++) if (R[i].key == k && !refresh) CHECK(R[i].told == 1, "every waiting request is answered");
			for (int i = 0; i < nreq; i++) if (R[i].key != k || refresh) CHECK(R[i].told == 1 || G[R[i].key].state == PENDING, "other requests wait for their own lookup");
			if (!refresh) for (int i = 0; i < nreq; i++) if (G[k].waiting >> i & 1) CHECK(R[i].got == got, "a waiting request gets the result of its lookup");
			G[k].waiting = 0;
		} else if (op == 3) {
			static const int waits[3] = { 30, 31, 3600 };
			int64_t d = waits[CHOOSE(3)];
			clock_sec += d;
		} else if (op == 4) {
			kgl_flush_addr_cache(clock_sec);
			for (int k = 0; k < 4; k++) if (G[k].state == CACHED && clock_sec - G[k].used >= 3600) {
				REACH("forgotten");
				G[k].state = NONE;
				G[k].cur = G[k].last = -1;
				G[k].errors = 0;
			}
		}
		int n = 0;
		for (int k = 0; k < 4; k++) n += G[k].state == CACHED;
		CHECK(kgl_get_addr_cache_count() == n, "the count of cached names is right");
	}
	while (njob > 0) {
		int j = 0, k = gjob[j] & 3;
		for (int i = j; i + 1 < njob; i++) gjob[i] = gjob[i + 1];
		run_job(j);
		G[k].state = CACHED;
		posts();
	}
	for (int i = 0; i < nreq; i++) CHECK(R[i].told == 1, "every request is answered");
	int n = 0;
	for (int k = 0; k < 4; k++) n += G[k].state == CACHED;
	nothing_left(heap, n);
	REACH("end");
}
ENTRY(h_history) { history(STEPS, 2, 2); }
ENTRY(h_names) { history(STEPS, 3, 1); }
/* a name that keeps failing: its last good answer is used until the tenth failure in a row */
ENTRY(h_failures)
{
	setup();
	l_enter(0);
	uint64_t heap = vp_heap_bytes();
	keep_all = 0;
	force = 1;
	ask(0, 0);
	run_job(0);
	posts();
	int good = CHOOSE(3) * 4, fails = 0, last = R[0].got;
	CHECK(last == 0, "a successful lookup gives an answer");
	for (int i = 1; i < 14; i++) {
		clock_sec += 31;
		struct request *r = ask(0, 0);
		CHECK(r->told == 1 && r->got == (fails < 10 ? last : -1), "the last good answer is used until ten lookups in a row failed");
		if (r->got < 0) REACH("given up");
		force = i == good;
		int before = nans;
		CHECK(njob == 1, "a stale answer is looked up again");
		run_job(0);
		if (nans > before) { fails = 0; last = before; } else fails++;
	}
	nothing_left(heap, 1);
	REACH("end");
}
/* a refresh that is still under way when the name is forgotten and maybe asked for again */
ENTRY(h_overtaken)
{
	setup();
	l_enter(0);
	uint64_t heap = vp_heap_bytes();
	keep_all = 1;
	ask(0, 0);
	run_job(0);
	posts();
	clock_sec += 31;
	ask(0, 0);
	CHECK(njob == 1 && R[1].told == 1, "a stale answer is looked up again");
	static const int waits[3] = { 0, 3599, 3600 };
	int w = CHOOSE(3);
	clock_sec += waits[w];
	kgl_flush_addr_cache(clock_sec);
	CHECK(kgl_get_addr_cache_count() == (w < 2), "names not used for an hour are forgotten");
	int more = CHOOSE(3);
	for (int i = 0; i < more; i++) ask(i & 1, 0);
	while (njob > 0) { run_job(CHOOSE(njob)); if (FLIP()) posts(); }
	posts();
	for (int i = 0; i < nreq; i++) CHECK(R[i].told == 1, "every request is answered");
	if (w == 2 && more) REACH("outdated");
	struct request *r = ask(0, 0);
	CHECK(r->told == 1, "a cached answer is given at once");
	while (njob > 0) run_job(0);
	nothing_left(heap, 1);
	REACH("end");
}
/* the periodic flush of the loop */
ENTRY(h_timer)
{
	kgl_addr_init();
	l_setup();
	clock_sec = 1000000;
	l_enter(0);
	posts();
	force = CHOOSE(2);
	ask(0, 0);
	run_job(0);
	posts();
	CHECK(R[0].told == 1, "every request is answered");
	for (int i = 0; i < 3; i++) {
		CHECK(kgl_get_addr_cache_count() == 1, "a name used lately is kept");
		clock_sec += 1199;
		clock_msec += 1199000;
		kgl_current_msec = clock_msec;
		kselector_check_timeout(L[0].s, 0);
	}
	clock_sec += 3;
	kgl_current_msec += 3000;
	kselector_check_timeout(L[0].s, 0);
	CHECK(kgl_get_addr_cache_count() == 0, "names not used for an hour are forgotten");
	REACH("end");
}
#else
/* several loops asking at the same time, the real worker pool */
static int want_key[LOOPS * 2];
static void *loop_thread(void *a)
{
	int i = (int)(intptr_t)a;
	l_enter(i);
	struct request *r = ask(want_key[i] & 1, want_key[i] >> 1);
	(void)r;
	l_running--;
	sched_event();
	l_loop(&L[i]);
	l_leave(i);
	return NULL;
}
ENTRY(h_loops)
{
	uint64_t heap = setup();
	int keys[4] = { 0, 0, 0, 0 }, n = 0;
	keep_all = 1;
	l_running = LOOPS;
	for (int i = 0; i < LOOPS; i++) {
		want_key[i] = i ? CHOOSE(4) : 0;
		keys[want_key[i] >> 1] = 1;
	}
	for (int i = 0; i < LOOPS; i++) sched_spawn(loop_thread, (void *)(intptr_t)i);
	CHECK(sched_run() == 0, "every thread ends");
	for (int i = 0; i < nreq; i++) CHECK(R[i].told == 1, "every request is answered");
	for (int t = 0; t < 2; t++) {
		n += keys[t];
		CHECK(asked[t] == keys[t], "requests for the same name and kind share one lookup");
	}
	for (int i = 0; i < nreq; i++) for (int j = 0; j < i; j++) if (R[i].key == R[j].key) CHECK(R[i].got == R[j].got, "requests sharing a lookup get the same answer");
	if (keys[0] + keys[1] == 1) REACH("shared");
	nothing_left(heap, n);
	REACH("end");
}
/* the clock goes on by an hour (a suspended system, a corrected clock) and the names are flushed while a lookup is under way */
static void *hour_passes(void *)
{
	clock_sec += 3600;
	kgl_flush_addr_cache(clock_sec);
	l_running--;
	sched_event();
	return NULL;
}
ENTRY(h_flushed)
{
	uint64_t heap = setup();
	keep_all = FLIP();
	l_running = LOOPS + 1;
	for (int i = 0; i < LOOPS; i++) {
		want_key[i] = 0;
		sched_spawn(loop_thread, (void *)(intptr_t)i);
	}
	sched_spawn(hour_passes, NULL);
	CHECK(sched_run() == 0, "every thread ends");
	for (int i = 0; i < nreq; i++) CHECK(R[i].told == 1, "every request is answered");
	int n = kgl_get_addr_cache_count();
	CHECK(n >= 0 && n <= 1, "the count of cached names is right");
	if (n == 0) REACH("forgotten");
	nothing_left(heap, n);
	REACH("end");
}
/* a fiber resolving a name */
static int fiber_name(void *arg, int len)
{
	kgl_addr *addr = NULL;
	int before = nans;
	numeric = CHOOSE(2);
	int r = kfiber_net_getaddr(names[0], &addr);
	CHECK((r == 0) == (nans > before || addr != NULL), "resolving succeeds exactly when there is an answer");
	CHECK((r == 0) == (addr != NULL), "resolving succeeds exactly when there is an answer");
	CHECK(nans > before ? r == 0 : true, "an answer is given to the fiber");
	int first = r;
	if (r == 0) { answer_no(addr); kgl_addr_release(addr); }
	if (!numeric) {
		addr = NULL;
		REACH("lookup");
		r = kfiber_net_getaddr(names[0], &addr);
		CHECK(r == first && (addr != NULL) == (r == 0), "a cached answer is given to the fiber");
		if (r == 0) { answer_no(addr); kgl_addr_release(addr); }
		CHECK(asked[0] == 1, "a fresh answer is not looked up again");
	}
	l_running--;
	sched_event();
	return 0;
}
static void *fiber_loop(void *)
{
	l_enter(0);
	kfiber_create(fiber_name, NULL, 0, 0, NULL);
	l_loop(&L[0]);
	l_leave(0);
	return NULL;
}
ENTRY(h_fiber)
{
	setup();
	l_running = 1;
	sched_spawn(fiber_loop, NULL);
	CHECK(sched_run() == 0, "every thread ends");
	kgl_flush_addr_cache(clock_sec + 4000);
	for (int i = 0; i < nans; i++) CHECK(ans[i] == NULL, "an answer is freed with its last user");
	REACH("end");
}
#endif
VP_HARNESS_END
