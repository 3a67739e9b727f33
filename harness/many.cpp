/* C09: several descriptors reported in the same turn, acting on each other */
#include "vp.h"
#include "env.h"
#include <sys/epoll.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include "kselector.h"
#include "kselectable.h"
#include "kepoll_selector.h"
#include "kfiber.h"
#ifndef ND
#define ND 2
#endif
#define EPFD 3
static kselector *sel;
static kfiber main_fiber;
struct desc {
	kselectable s;
	bool kR, kW, kRD, reg, queued;
	uint32_t interest;
	void *ptr;
	int data, r_arg[4], w_arg[4], h_arg[4], r_n, w_n, h_n;
	bool r_pend, w_pend, h_pend, r_tried, w_tried;
	int r_last, w_last;
	char rbuf[4], wbuf[4];
	kgl_iovec riov, wiov, rb, wb;
	int shut;
	int act;                 /* what its first completion does */
} D[ND];
static struct { uint64_t n; void *ptr; } efd[2];
static int next_efd;
static int batches;
static uint32_t mask(desc *d)
{
	return (d->kR || d->kRD ? EPOLLIN : 0) | (d->kW ? EPOLLOUT : 0) | (d->kRD ? EPOLLRDHUP : 0);
}
static void wake(desc *d) { if (d->reg && (mask(d) & d->interest)) d->queued = true; }
extern "C" {
int epoll_create1(int) { return EPFD; }
int epoll_create(int) { return EPFD; }
int eventfd(unsigned int c, int f) { efd[next_efd].n = c; return 4 + next_efd++; }
long syscall(long n, ...) { CHECK(n == SYS_io_setup || n == SYS_io_destroy, "only aio setup calls here"); return 0; }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	CHECK(ep == EPFD, "own epoll descriptor");
	if (fd == 4 || fd == 5) { efd[fd - 4].ptr = ev->data.ptr; return 0; }
	CHECK(fd >= 10 && fd < 10 + ND, "own socket descriptor");
	desc *d = &D[fd - 10];
	if (op == EPOLL_CTL_DEL) { CHECK(d->reg, "a descriptor that is not registered is not removed"); d->reg = d->queued = false; d->interest = 0; return 0; }
	CHECK((op == EPOLL_CTL_ADD) == !d->reg, "added when unknown, modified when known");
	d->reg = true;
	d->interest = ev->events;
	CHECK(d->interest & EPOLLET, "edge triggered");
	d->ptr = ev->data.ptr;
	d->queued = false;
	wake(d);
	return 0;
}
/* everything at once, in either order, the wake-ups in front or behind */
int epoll_wait(int ep, struct epoll_event *ev, int max, int tmo)
{
	CHECK(ep == EPFD && max >= ND + 2 && vp_accessible(ev, max * sizeof *ev), "own epoll descriptor, room for the events");
	int n = 0, any = 0;
	for (int i = 0; i < ND; i++) any += D[i].queued;
	bool back = any > 1 && FLIP(), last = efd[0].n && any && FLIP();
	for (int k = 0; k < 2; k++) {
		if ((k == 0) == last) {
			for (int j = 0; j < ND; j++) {
				desc *d = &D[back ? ND - 1 - j : j];
				if (!d->queued) continue;
				d->queued = false;
				if (!(mask(d) & d->interest)) continue;
				ev[n].events = mask(d) & d->interest;
				ev[n++].data.ptr = d->ptr;
			}
		} else
			for (int i = 0; i < 2; i++) if (efd[i].n) { ev[n].events = EPOLLIN; ev[n++].data.ptr = efd[i].ptr; }
	}
	if (n > 1) batches++;
	return n;
}
ssize_t read(int fd, void *b, size_t n)
{
	CHECK(fd == 4 && n == 8 && efd[0].n, "reads the wake-up counter");
	*(uint64_t *)b = efd[0].n;
	efd[0].n = 0;
	return 8;
}
ssize_t write(int fd, const void *b, size_t n)
{
	CHECK(fd == 4 && n == 8, "wakes the loop");
	efd[0].n += *(const uint64_t *)b;
	return 8;
}
int shutdown(int fd, int how)
{
	CHECK(fd >= 10 && fd < 10 + ND && how == SHUT_RDWR, "own socket descriptor, both ways");
	D[fd - 10].shut++;
	return 0;
}
ssize_t readv(int fd, const struct iovec *v, int n)
{
	CHECK(fd >= 10 && fd < 10 + ND, "own socket descriptor");
	desc *d = &D[fd - 10];
	CHECK(v == (struct iovec *)&d->riov && n == 1, "reads the caller's buffer");
	CHECK(d->r_pend, "reads only for a pending read");
	d->r_tried = true;
	if (d->kR) { d->kR = false; return d->r_last = 3 + fd; }
	if (d->kRD) return d->r_last = 0;
	errno = EAGAIN;
	return d->r_last = -1;
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
	CHECK(fd >= 10 && fd < 10 + ND, "own socket descriptor");
	desc *d = &D[fd - 10];
	CHECK(v == (struct iovec *)&d->wiov && n == 1, "writes the caller's buffer");
	CHECK(d->w_pend, "writes only for a pending write");
	d->w_tried = true;
	if (d->kW) { d->kW = false; return d->w_last = 5 + fd; }
	errno = EAGAIN;
	return d->w_last = -1;
}
}
static void start(desc *d, int what);
static int posted, ran;
static kev_result on_post(KOPAQUE data, void *a, int got)
{
	CHECK((int *)data == &posted && a == NULL && got == 9, "a posted callback gets what it was posted with");
	ran++;
	return kev_ok;
}
/* what the first completion of a descriptor does: something with the next one, or with itself */
static void acts(desc *d)
{
	int a = d->act;
	d->act = 0;
	desc *o = &D[(d - D + 1) % ND];
	switch (a) {
	case 0: break;
	case 1: case 2: start(d, a); break;
	case 3: case 4: start(o, a - 2); break;
	case 5:
		if (o->r_pend || o->w_pend) break;
		selectable_remove_readhup(&o->s);
		o->h_pend = false;
		break;
	case 6:
		posted++;
		kgl_selector_module.next(sel, (KOPAQUE)&posted, on_post, NULL, 9);
		break;
	}
	if (a >= 3 && a <= 5) REACH("on another");
}
static kev_result on_r(KOPAQUE x, void *a, int got)
{
	desc *d = (desc *)((char *)x - offsetof(desc, data));
	CHECK(d >= D && d < D + ND && d->r_pend, "a read that is not pending is not completed");
	CHECK((int *)a == &d->r_arg[d->r_n], "the read completes with its own data and argument");
	CHECK(d->r_tried && got == d->r_last, "the read completes with the system call's result");
	d->r_pend = false;
	acts(d);
	return kev_ok;
}
static kev_result on_w(KOPAQUE x, void *a, int got)
{
	desc *d = (desc *)((char *)x - offsetof(desc, data));
	CHECK(d >= D && d < D + ND && d->w_pend, "a write that is not pending is not completed");
	CHECK((int *)a == &d->w_arg[d->w_n], "the write completes with its own data and argument");
	if (d->w_tried) CHECK(got == d->w_last, "the write completes with the system call's result");
	else CHECK(got < 0 && d->kRD, "a write only fails untried when the peer hung up");
	d->w_pend = false;
	acts(d);
	return kev_ok;
}
static kev_result on_h(KOPAQUE x, void *a, int got)
{
	desc *d = (desc *)((char *)x - offsetof(desc, data));
	CHECK(d >= D && d < D + ND && d->h_pend, "a hang-up watch that is not pending is not completed");
	CHECK((int *)a == &d->h_arg[d->h_n], "the watch completes with its own data and argument");
	CHECK(d->kRD, "the watch completes only after a hang-up");
	d->h_pend = false;
	acts(d);
	return kev_ok;
}
static void start(desc *d, int what)
{
	switch (what) {
	case 1:
		if (d->r_pend || d->r_n >= 3) return;
		d->r_n++;
		d->r_pend = true;
		d->h_pend = d->r_tried = false;
		selectable_read(&d->s, on_r, &d->rb, &d->r_arg[d->r_n]);
		break;
	case 2:
		if (d->w_pend || d->w_n >= 3) return;
		d->w_n++;
		d->w_pend = true;
		d->h_pend = d->w_tried = false;
		selectable_write(&d->s, on_w, &d->wb, &d->w_arg[d->w_n]);
		break;
	case 3:
		d->h_n++;
		d->h_pend = true;
		CHECK(selectable_readhup(&d->s, on_h, &d->h_arg[d->h_n]), "a watch starts when nothing is pending");
		break;
	}
}
static bool busy()
{
	for (int i = 0; i < ND; i++) if (D[i].queued) return true;
	return sel->list[KGL_LIST_READY].next != &sel->list[KGL_LIST_READY] || efd[0].n;
}
static void turn()
{
	int r = kselector_check_timeout(sel, 1);
	CHECK(r > 0 && r <= 100, "bounded sleep");
	kgl_selector_module.select(sel, r);
}
ENTRY(h_many)
{
	kepoll_module_init();
	pthread_key_create(&kgl_selector_key, NULL);
	sel = kselector_new(NULL);
	sel->thread_id = pthread_self();
	pthread_setspecific(kgl_selector_key, sel);
	main_fiber.base.selector = sel;
	sel->current = &main_fiber;
	kgl_current_msec = 0x18000000000LL;
	int base = sel->count;
	for (int i = 0; i < ND; i++) {
		desc *d = &D[i];
		d->s.base.selector = sel;
		d->s.fd = 10 + i;
		d->s.data = (KOPAQUE)&d->data;
		d->riov.iov_base = d->rbuf; d->riov.iov_len = 4;
		d->wiov.iov_base = d->wbuf; d->wiov.iov_len = 4;
		d->rb.iov_base = (char *)&d->riov; d->rb.iov_len = 1;
		d->wb.iov_base = (char *)&d->wiov; d->wb.iov_len = 1;
		/* nothing, a read, a write, both or a hang-up watch */
		switch (CHOOSE(i == 0 || ND == 2 ? 4 : 3)) {
		case 0: start(d, 1); break;
		case 1: start(d, 2); break;
		case 2: start(d, 3); break;
		case 3: start(d, 1); start(d, 2); break;
		}
		d->act = i < 2 ? CHOOSE(7) : 0;
	}
	turn();
	for (int i = 0; i < ND; i++) {
		desc *d = &D[i];
		int k = CHOOSE(5);
		d->kR = k == 1 || k == 3;
		d->kW = k == 2 || k == 3;
		d->kRD = k == 4;
		wake(d);
	}
	for (int i = 0; i < 10 && busy(); i++) turn();
	CHECK(!busy(), "the loop becomes idle");
	/* and what was not reported then is reported later */
	if (FLIP()) {
		bool room = FLIP();
		for (int i = 0; i < ND; i++) { D[i].kR = true; if (room) D[i].kW = true; wake(&D[i]); }
		for (int i = 0; i < 10 && busy(); i++) turn();
		CHECK(!busy(), "the loop becomes idle");
		REACH("later");
	}
	if (batches) REACH("together");
#ifdef IDLE
	/* what is still pending is ended when its time is up, not earlier, and nothing else is */
	bool waits = false;
	for (int i = 0; i < ND; i++) if (D[i].r_pend || D[i].w_pend) waits = true;
	if (waits) REACH("waits");
	kgl_current_msec += 60 * 1000 - 1;
	turn();
	for (int i = 0; i < ND; i++) CHECK(D[i].shut == 0, "nothing is ended before its time");
	kgl_current_msec++;
	turn();
	turn();
	for (int i = 0; i < ND; i++) CHECK(D[i].shut == (D[i].r_pend || D[i].w_pend), "exactly what waited its whole time is ended, once");
	REACH("end");
	return;
#endif
	CHECK(ran == posted, "a posted callback runs once");
	int waiting = 0;
	for (int i = 0; i < ND; i++) {
		desc *d = &D[i];
		if (d->r_pend) CHECK(!d->kR && !d->kRD, "no read stays pending when there is something to read");
		if (d->w_pend) CHECK(!d->kW, "no write stays pending when there is room to write");
		if (d->h_pend) CHECK(!d->kRD, "no hang-up watch stays pending after a hang-up");
		waiting += d->s.base.queue.next != NULL;
	}
	CHECK(sel->count == base + waiting, "the number of pending operations is balanced");
	REACH("end");
}
