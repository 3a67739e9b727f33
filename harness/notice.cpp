/* C11: notices posted to an event loop by any thread */
#include "vp_sched.h"
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/eventfd.h>
#include "kselector.h"
#include "kselectable.h"
#include "kepoll_selector.h"
#include "kfiber.h"
#ifndef POSTS
#define POSTS 2
#endif
#ifndef NESTED
#define NESTED 1
#endif
#define EPFD 3
static kselector *sel;
static kfiber main_fiber;
static struct { int fd; uint64_t n; void *ptr; uint32_t ev; } efd[2] = { { 4 }, { 5 } };
static int next_efd;
static bool finished_all();
static bool wake_ready(void *) { return efd[0].n || efd[1].n || finished_all(); }
extern "C" {
int epoll_create1(int) { return EPFD; }
int epoll_create(int) { return EPFD; }
int eventfd(unsigned int c, int f) { efd[next_efd].n = c; return efd[next_efd++].fd; }
long syscall(long n, ...) { CHECK(n == SYS_io_setup || n == SYS_io_destroy, "only aio setup calls here"); return 0; }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	CHECK(ep == EPFD && op == EPOLL_CTL_ADD && (fd == 4 || fd == 5), "the wake-up descriptors are watched");
	efd[fd - 4].ptr = ev->data.ptr;
	efd[fd - 4].ev = ev->events;
	return 0;
}
/* level triggered wake-up descriptors; sleeping without a bound would need a wake-up */
int epoll_wait(int ep, struct epoll_event *ev, int max, int tmo)
{
	sched_point();
	sched_block(wake_ready, NULL);
	int n = 0;
	for (int i = 0; i < 2; i++)
		if (efd[i].n && (efd[i].ev & EPOLLIN)) { ev[n].events = EPOLLIN; ev[n].data.ptr = efd[i].ptr; n++; }
	return n;
}
ssize_t read(int fd, void *b, size_t n)
{
	sched_point();
	CHECK((fd == 4 || fd == 5) && n == 8, "reads the event counter");
	CHECK(efd[fd - 4].n > 0, "does not block on an empty event counter");
	*(uint64_t *)b = efd[fd - 4].n;
	efd[fd - 4].n = 0;
	return 8;
}
ssize_t write(int fd, const void *b, size_t n)
{
	sched_point();
	CHECK((fd == 4 || fd == 5) && n == 8, "adds to the event counter");
	CHECK(*(uint64_t *)b > 0, "adds something");
	efd[fd - 4].n += *(uint64_t *)b;
	sched_event();
	return 8;
}
}
static struct post { int id; int got; int data, arg; int ran; bool posted; bool nest; } posts[8];
static int nposts, nran, nexpect;
static int loop_thread;
static bool finished_all() { return nran == nexpect; }
static void post(int i);
static kev_result on_notice(KOPAQUE d, void *a, int got)
{
	struct post *p = (struct post *)((char *)a - offsetof(struct post, arg));
	CHECK(p >= posts && p < posts + nposts, "the argument it was posted with");
	CHECK((int *)d == &p->data && got == p->got, "the data and result it was posted with");
	CHECK(p->posted, "runs after it was posted");
	CHECK(cur_thread == loop_thread, "runs on the loop's thread");
	CHECK(p->ran == 0, "runs once");
	p->ran++;
	nran++;
	if (p->nest) post(nposts++);
	return kev_ok;
}
static void post(int i)
{
	posts[i].posted = true;
	kgl_selector_module.next(sel, (KOPAQUE)&posts[i].data, on_notice, &posts[i].arg, posts[i].got);
}
static void *poster(void *a)
{
	int i = (int)(intptr_t)a;
#ifdef TWICE
	post(2 * i);
	post(2 * i + 1);
#else
	post(i);
#endif
	return NULL;
}
static void *loop(void *)
{
	loop_thread = cur_thread;
	sel->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, sel);
	while (!finished_all()) {
		int t = kselector_check_timeout(sel, 1);
		kgl_selector_module.select(sel, t);
	}
	return NULL;
}
ENTRY(h_notice)
{
	kepoll_module_init();
	pthread_key_create(&kgl_selector_key, NULL);
	sel = kselector_new(NULL);
	main_fiber.base.selector = sel;
	sel->current = &main_fiber;
	kgl_current_msec = 0x18000000000LL;
	int per = 1;
#ifdef TWICE
	per = 2;
#endif
	nposts = POSTS * per;
	nexpect = nposts;
	for (int i = 0; i < nposts; i++) {
		posts[i].got = ND_INT();
		posts[i].nest = i < NESTED && FLIP();
		nexpect += posts[i].nest;
	}
	for (int i = nposts; i < 8; i++) posts[i].got = ND_INT();
	CHECK(efd[0].ev == EPOLLIN, "the wake-up descriptor is watched level triggered");
	/* one notice posted by the loop's thread before it starts looping, or all by others */
	sched_spawn(loop, NULL);
	for (int i = 0; i < POSTS; i++) sched_spawn(poster, (void *)(intptr_t)i);
	int left = sched_run();
	CHECK(nran == nexpect, "every notice was run");
	CHECK(left == 0, "everybody goes on");
	REACH("end");
}
