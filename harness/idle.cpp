/* C08: idle timeouts of waiting connections (kselector.c, kselectable.h) */
#include "vp.h"
#include "env.h"
#include "kselector.h"
#include "kselectable.h"
#include "kconnection.h"
#ifndef NC
#define NC 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef BITS
#define BITS 8
#endif
#define BASE 0x18000000000LL
static int64_t nd_time() { return BASE + (int64_t)vp_nd_raw((1ULL << BITS) - 1); }
static kselector *sel;
static kselectable S[NC];
static int datas[NC], args[NC];
/* what the property says */
static bool waiting[NC];
static int where[NC], left_[NC], shut[NC], told[NC];
static int64_t since[NC];
static bool in_round, cb_removes;
extern "C" int shutdown(int fd, int how)
{
	CHECK(fd >= 10 && fd < 10 + NC && how == SHUT_RDWR, "the connection's own descriptor is shut down, both ways");
	CHECK(in_round, "connections are only shut down by the timeout check");
	shut[fd - 10]++;
	return 0;
}
static void m_init(kselector *s) { s->ctx = NULL; }
static kev_result on_read(KOPAQUE d, void *a, int got)
{
	int i = (int)((int *)a - args);
	CHECK(i >= 0 && i < NC && (int *)d == &datas[i], "timeout told with the connection's data and argument");
	CHECK(got == ST_ERR_TIME_OUT, "the result says timeout");
	told[i]++;
	if (cb_removes) kselector_remove_list(sel, &S[i]);
	return kev_ok;
}
static int listed() { int n = 0; for (int i = 0; i < NC; i++) n += waiting[i]; return n; }
static void wait_(int i, int list)
{
	kselector_add_list(sel, &S[i], list);
	waiting[i] = true;
	where[i] = list;
	since[i] = kgl_current_msec;
	left_[i] = S[i].base.tmo;
}
ENTRY(h_idle)
{
	kgl_selector_module.name = "h";
	kgl_selector_module.init = m_init;
	pthread_key_create(&kgl_selector_key, NULL);
	sel = kselector_new(NULL);
	sel->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, sel);
	for (int l = 0; l <= KGL_LIST_RW; l++) {
		sel->timeout[l] = 1 + (int)vp_nd_raw((1ULL << (BITS - 2)) - 1);
	}
	int64_t now = nd_time();
	kgl_current_msec = now;
	cb_removes = FLIP();
	bool notify[NC];
	for (int i = 0; i < NC; i++) {
		S[i].base.selector = sel;
		S[i].fd = 10 + i;
		S[i].data = (KOPAQUE)&datas[i];
		S[i].e[OP_READ].arg = &args[i];
		S[i].e[OP_READ].result = on_read;
		S[i].base.tmo = CHOOSE(3);
		notify[i] = FLIP();
		if (notify[i]) KBIT_SET(S[i].base.st_flags, STF_RTIME_OUT);
		/* waiting to read, or to write only */
		KBIT_SET(S[i].base.st_flags, i == 0 || FLIP() ? STF_READ : STF_WRITE);
		wait_(i, FLIP() ? KGL_LIST_RW : KGL_LIST_CONNECT);
	}
	for (int r = 0; r < ROUNDS; r++) {
		int64_t n2 = nd_time();
		ASSUME(n2 >= now);
		now = n2;
		kgl_current_msec = now;
		/* before the round one connection may see activity and wait again, or stop waiting */
		if (r > 0) {
			int a = CHOOSE(2 * NC + 1);
			if (a < NC) { if (waiting[a]) wait_(a, where[a]); }
			else if (a < 2 * NC && waiting[a - NC]) { kselector_remove_list(sel, &S[a - NC]); waiting[a - NC] = false; }
			CHECK(sel->count == listed(), "the number of pending operations is balanced");
		}
		for (int i = 0; i < NC; i++) shut[i] = told[i] = 0;
		in_round = true;
		kselector_check_timeout(sel, 0);
		in_round = false;
		for (int i = 0; i < NC; i++) {
			if (!waiting[i] || now - since[i] < sel->timeout[where[i]]) {
				CHECK(shut[i] == 0 && told[i] == 0, "a connection that is not idle too long, or not waiting, is left alone");
				continue;
			}
			if (left_[i] > 0) {
				CHECK(shut[i] == 0 && told[i] == 0, "a connection with an extra period is left alone");
				left_[i]--;
				since[i] = now;
				continue;
			}
			if (notify[i] && (S[i].base.st_flags & STF_READ)) {
				CHECK(told[i] == 1 && shut[i] == 0, "a connection that asked for it is told once");
				since[i] = now;
				if (cb_removes) waiting[i] = false;
				REACH("told");
				continue;
			}
			CHECK(shut[i] == 1 && told[i] == 0, "an idle connection is shut down once");
			waiting[i] = false;
			REACH("shut");
		}
		CHECK(sel->count == listed(), "the number of pending operations is balanced after a round");
		for (int i = 0; i < NC; i++) CHECK((S[i].base.queue.next != NULL) == waiting[i], "exactly the waiting connections are in the loop's lists");
	}
	for (int i = 0; i < NC; i++) kselector_remove_list(sel, &S[i]);
	CHECK(sel->count == 0, "nothing is pending at the end");
	REACH("end");
}
/* the clock is set back: what is left of the allowance stays */
ENTRY(h_idle_clock)
{
	kgl_selector_module.name = "h";
	kgl_selector_module.init = m_init;
	pthread_key_create(&kgl_selector_key, NULL);
	sel = kselector_new(NULL);
	sel->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, sel);
	for (int l = 0; l <= KGL_LIST_RW; l++) sel->timeout[l] = 1 + (int)vp_nd_raw(0xffff);
	int64_t now = (int64_t)vp_nd_raw((1ULL << 40) - 1);
	kgl_current_msec = now;
	for (int i = 0; i < 2; i++) {
		S[i].base.selector = sel;
		S[i].fd = 10 + i;
		S[i].data = (KOPAQUE)&datas[i];
		KBIT_SET(S[i].base.st_flags, STF_WRITE);
		wait_(i, i ? KGL_LIST_RW : KGL_LIST_CONNECT);
	}
	int64_t idle = (int64_t)vp_nd_raw(0x1ffff);
	now += idle;
	kgl_current_msec = now;
	int64_t back = (int64_t)vp_nd_raw((1ULL << 40) - 1);
	kselector_adjust_time(sel, -back);
	kgl_current_msec = now - back;
	in_round = true;
	kselector_check_timeout(sel, 0);
	in_round = false;
	for (int i = 0; i < 2; i++)
		CHECK(shut[i] == (idle >= sel->timeout[where[i]]), "after the clock was set back a connection is shut down exactly when its allowance is used up");
	REACH("end");
}
