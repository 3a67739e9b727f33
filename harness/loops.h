/* Event loops for the fiber harnesses: each loop runs on its own scheduled thread with the real
 * kselector_check_timeout, the real fibers and a post queue standing in for the notice descriptor. */
#ifndef VP_LOOPS_H
#define VP_LOOPS_H
#include "vp_sched.h"
#include "kselector.h"
#include "kselector_manager.h"
#include "kselectable.h"
#include "kfiber.h"
#include "kfiber_sync.h"
VP_HARNESS_BEGIN
#ifndef LOOPS
#define LOOPS 1
#endif
#define MAXPOST 16
struct lpost { KOPAQUE d; result_callback cb; void *a; int got; };
static struct vloop { kselector *s; lpost q[MAXPOST]; int n; bool has_timer; } L[LOOPS];
static int l_running;            /* work that is not finished; loops end when it is 0 */
#ifndef LOOPS_OTHER
#define LOOPS_OTHER 0            /* other threads than loops may still post */
#endif
static void l_init(kselector *s) { for (int i = 0; i < LOOPS; i++) if (L[i].s == NULL) { s->ctx = &L[i]; L[i].s = s; return; } CHECK(false, "harness: loops"); }
static void l_destroy(kselector *s) { }
static void l_next(kselector *s, KOPAQUE d, result_callback cb, void *a, int got)
{
	sched_point();
	struct vloop *l = (struct vloop *)s->ctx;
	CHECK(l >= L && l < L + LOOPS && l->n < MAXPOST, "harness: bounded posts");
	lpost *p = &l->q[l->n++];
	p->d = d; p->cb = cb; p->a = a; p->got = got;
	sched_event();
}
static bool l_ready(struct vloop *l) { return l->n > 0 || !klist_empty(&l->s->list[KGL_LIST_READY]); }
static bool l_wake(void *a) { return l_running == 0 || l_ready((struct vloop *)a) || ((struct vloop *)a)->s->block_first != NULL; }
static void l_setup()
{
	kgl_selector_module.name = "loops";
	kgl_selector_module.init = l_init;
	kgl_selector_module.destroy = l_destroy;
	kgl_selector_module.next = l_next;
	pthread_key_create(&kgl_selector_key, NULL);
	kfiber_init();
	clock_msec = 1000000000;
	kgl_current_msec = clock_msec;
	selector_manager_init(LOOPS, false);
	CHECK(get_selector_count() == LOOPS, "harness: loops");
}
extern "C" void srand(unsigned) {}
#ifndef LOOPS_KLOG
extern "C" void klog(int, const char *, ...) {}
#endif
static void l_enter(int i) { kselector_step_init(i); }
static void l_leave(int i)
{
	CHECK(L[i].s->count == 0, "a loop with nothing to do counts no pending operation");
	kselector_step_exit(i);
}
/* one turn: one post (in any order) and the ready list; time moves when nothing else is left */
static void l_turn(struct vloop *l)
{
	if (l->n > 0) {
#ifdef ANY_ORDER
		int k = CHOOSE(l->n);
#else
		int k = 0;
#endif
		lpost p = l->q[k];
		l->n--;
		for (int i = k; i < l->n; i++) l->q[i] = l->q[i + 1];
		p.cb(p.d, p.a, p.got);
	} else if (klist_empty(&l->s->list[KGL_LIST_READY]) && l->s->block_first) {
		kgl_current_msec = ((kgl_block_queue *)l->s->block_first->data)->active_msec;
	}
	kselector_check_timeout(l->s, 0);
}
static void l_loop(struct vloop *l)
{
	while (l_running > 0) {
		sched_block(l_wake, l);
		if (l_running == 0) break;
		l_turn(l);
	}
	while (l_ready(l)) l_turn(l);
}
/* the current fiber lets its loop do other things */
static void l_yield()
{
	kfiber *f = kfiber_self2();
	kgl_selector_module.next(f->base.selector, (KOPAQUE)&L, kfiber_result_callback, f, 0);
	__kfiber_wait(f, (void *)&L);
}
VP_HARNESS_END
#endif
