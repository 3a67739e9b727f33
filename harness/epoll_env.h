/* A model of the kernel's edge-triggered epoll for one descriptor, under the real
 * epoll event loop (kepoll_selector.c). */
#include "vp.h"
#include "env.h"
#include <sys/epoll.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <stdarg.h>
#include "kselector.h"
#include "kselectable.h"
#include "kepoll_selector.h"
#include "kconnection.h"
#include "kfiber.h"
#define EPFD 3
#define NOTICE_FD 4
#define AIO_FD 5
static kselector *sel;
static kfiber main_fiber, other_fiber;
/* kernel side state of the watched socket */
static int wfd = 10;
static bool kR, kW, kRD, kHUP;       /* readable, writable, peer closed its side, both sides closed */
static bool reg, queued;             /* registered with epoll, on epoll's ready list */
static uint32_t interest;
static void *reg_ptr;
static uint32_t kmask()
{
	uint32_t m = 0;
	if (kR || kRD || kHUP) m |= EPOLLIN;
	if (kW || kHUP) m |= EPOLLOUT;
	if (kRD || kHUP) m |= EPOLLRDHUP;
	if (kHUP) m |= EPOLLHUP | EPOLLERR;
	return m;
}
static uint32_t kreport() { return kmask() & (interest | EPOLLHUP | EPOLLERR); }
static void kwake() { if (reg && kreport()) queued = true; }
static int next_efd = NOTICE_FD;
static int last_wait_tmo;
static bool ctl_fails;
static void *aio_ptr;                /* the loop's descriptor for finished file transfers */
static bool aio_signal;
extern "C" {
int epoll_create1(int) { return EPFD; }
int epoll_create(int) { return EPFD; }
int eventfd(unsigned int c, int f) { CHECK(c == 0, "event counter starts at 0"); return next_efd++; }
#ifndef EPOLL_OWN_SYSCALL
long syscall(long n, ...) { CHECK(n == SYS_io_setup || n == SYS_io_destroy, "only aio setup calls here"); return 0; }
#endif
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	CHECK(ep == EPFD, "own epoll descriptor");
	if (fd == AIO_FD) aio_ptr = ev->data.ptr;
	if (fd == NOTICE_FD || fd == AIO_FD) return 0;
	CHECK(fd == wfd, "own socket descriptor");
	if (op == EPOLL_CTL_DEL) { CHECK(reg, "a descriptor that is not registered is not removed"); reg = queued = false; interest = 0; return 0; }
	if (ctl_fails) { errno = ENOMEM; return -1; }
	CHECK((op == EPOLL_CTL_ADD) == !reg, "added when unknown, modified when known");
	reg = true;
	interest = ev->events;
	CHECK(interest & EPOLLET, "edge triggered");
	reg_ptr = ev->data.ptr;
	queued = false;
	kwake();
	return 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int tmo)
{
	CHECK(ep == EPFD && max >= 1, "own epoll descriptor");
	last_wait_tmo = tmo;
#ifdef EPOLL_TURN
	EPOLL_TURN();
#endif
	if (aio_signal) { aio_signal = false; ev[0].events = EPOLLIN; ev[0].data.ptr = aio_ptr; return 1; }
	if (!queued) return 0;
	queued = false;
	if (!kreport()) return 0;
	ev[0].events = kreport();
	ev[0].data.ptr = reg_ptr;
	return 1;
}
}
static void env_start(bool in_main)
{
	kepoll_module_init();
	pthread_key_create(&kgl_selector_key, NULL);
	sel = kselector_new(NULL);
	sel->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, sel);
	main_fiber.base.selector = sel;
	other_fiber.base.selector = sel;
	other_fiber.switch_from = &main_fiber;
	sel->current = in_main ? &main_fiber : &other_fiber;
	kgl_current_msec = 0x18000000000LL;
}
/* one turn of the event loop; callbacks run from the loop's own context */
static int loop_turn()
{
	kfiber *was = sel->current;
	sel->current = &main_fiber;
	int r = kselector_check_timeout(sel, 1);
	CHECK(r > 0 && r <= 100, "bounded sleep");
	r = kgl_selector_module.select(sel, r);
	sel->current = was;
	return r;
}
static bool ready_list_empty() { return sel->list[KGL_LIST_READY].next == &sel->list[KGL_LIST_READY]; }
