/* C09: readiness reports and pending operations (kepoll_selector.c, kselectable.c) */
#include "epoll_env.h"
#ifndef STEPS
#define STEPS 4
#endif
static kselectable S;
static int data_;
static char rbuf[8], wbuf[8];
static kgl_iovec riov = { rbuf, 8 }, wiov = { wbuf, 8 }, rb = { (char *)&riov, 1 }, wb = { (char *)&wiov, 1 };
static int r_arg[4], w_arg[4], h_arg[4];
static int r_n, w_n, h_n;                 /* operations started */
static bool r_pend, w_pend, h_pend;
static int r_last, w_last;                /* result of the last system call for it */
static bool r_tried, w_tried;
static int again_r, again_w;              /* operations the callbacks start */
static bool takes;
extern "C" {
ssize_t readv(int fd, const struct iovec *v, int n)
{
	CHECK(fd == wfd && v == (struct iovec *)&riov && n == 1, "reads the caller's buffer");
	CHECK(r_pend, "reads only for a pending read");
	r_tried = true;
	if (kR) { if (takes) kR = false; return r_last = 5; }
	if (kRD || kHUP) return r_last = 0;
	errno = EAGAIN;
	return r_last = -1;
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
	CHECK(fd == wfd && v == (struct iovec *)&wiov && n == 1, "writes the caller's buffer");
	CHECK(w_pend, "writes only for a pending write");
	w_tried = true;
	if (kHUP) { errno = EPIPE; return w_last = -1; }
	if (kW) { if (takes) kW = false; return w_last = 6; }
	errno = EAGAIN;
	return w_last = -1;
}
}
static void start_read();
static void start_write();
static kev_result on_r(KOPAQUE d, void *a, int got)
{
	CHECK(r_pend, "a read that is not pending is not completed");
	CHECK((int *)d == &data_ && (int *)a == &r_arg[r_n], "the read completes with its own data and argument");
	CHECK(r_tried && got == r_last, "the read completes with the system call's result");
	r_pend = false;
	if (again_r > 0) { again_r--; start_read(); }
	REACH("read");
	return kev_ok;
}
static kev_result on_w(KOPAQUE d, void *a, int got)
{
	CHECK(w_pend, "a write that is not pending is not completed");
	CHECK((int *)d == &data_ && (int *)a == &w_arg[w_n], "the write completes with its own data and argument");
	if (w_tried) CHECK(got == w_last, "the write completes with the system call's result");
	else CHECK(got < 0 && (kRD || kHUP), "a write only fails untried when the peer hung up");
	w_pend = false;
	if (again_w > 0) { again_w--; start_write(); }
	REACH("write");
	return kev_ok;
}
static kev_result on_h(KOPAQUE d, void *a, int got)
{
	CHECK(h_pend, "a hang-up watch that is not pending is not completed");
	CHECK((int *)d == &data_ && (int *)a == &h_arg[h_n], "the watch completes with its own data and argument");
	CHECK(kRD || kHUP, "the watch completes only after a hang-up");
	h_pend = false;
	REACH("hup");
	return kev_ok;
}
static void start_read()
{
	r_n++;
	r_pend = true;
	h_pend = false;
	r_tried = false;
	selectable_read(&S, on_r, &rb, &r_arg[r_n]);
}
static void start_write()
{
	w_n++;
	w_pend = true;
	h_pend = false;
	w_tried = false;
	selectable_write(&S, on_w, &wb, &w_arg[w_n]);
}
static bool h_reported;
static void stepk(int k)
{
	switch (k) {
	case 0: if (!r_pend && r_n < 3) start_read(); break;
	case 1: if (!w_pend && w_n < 3) start_write(); break;
	case 2:
		if (h_pend || h_n >= 2) break;
		h_n++;
		h_pend = true;
		h_reported = (kRD || kHUP) && reg && !queued;
		if (!selectable_readhup(&S, on_h, &h_arg[h_n])) {
			CHECK(r_pend || w_pend, "a watch is refused only while another operation is pending");
			h_pend = false;
		}
		break;
	case 3:
		if (r_pend || w_pend) break;
		selectable_remove_readhup(&S);
		h_pend = false;
		break;
	case 4: if (!kR && !kRD) { kR = true; kwake(); } break;
	case 5: if (!kW) { kW = true; kwake(); } break;
	case 6: if (!kRD) { kRD = true; kwake(); } break;
	case 7: if (!kHUP) { kHUP = true; kwake(); } break;
	case 8: loop_turn(); break;
	}
}
ENTRY(h_ready)
{
	env_start(FLIP());
	S.base.selector = sel;
	S.fd = wfd;
	S.data = (KOPAQUE)&data_;
	int base = sel->count;
	kW = FLIP();
	takes = FLIP();
	again_r = CHOOSE(2);
	again_w = CHOOSE(2);
#ifdef FIRST
	stepk(FIRST);
#else
	stepk(CHOOSE(9));
#endif
	for (int i = 1; i < STEPS; i++) stepk(CHOOSE(9));
	/* the loop keeps running while there is something to do */
	sel->current = &main_fiber;
	for (int i = 0; i < 6; i++) {
		if (ready_list_empty() && !queued) break;
		loop_turn();
	}
	CHECK(ready_list_empty() && !queued, "the loop becomes idle");
	if (r_pend) CHECK(!kR && !kRD && !kHUP, "no read stays pending when there is something to read");
	if (w_pend) CHECK(!kW && !kHUP, "no write stays pending when there is room to write");
	if (h_pend && !h_reported) CHECK(!kRD && !kHUP, "no hang-up watch stays pending after a hang-up");
	CHECK(sel->count == base + (S.base.queue.next ? 1 : 0), "the number of pending operations is balanced");
	if (!r_pend && !w_pend) {
		KBIT_CLR(S.base.st_flags, STF_RDHUP);
		selectable_remove(&S);
		CHECK(sel->count == base && !reg, "a removed descriptor leaves no trace in the loop");
		REACH("removed");
	}
	REACH("end");
}
