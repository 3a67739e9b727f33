/* C10: one operation against every outcome of its system call */
#include "epoll_env.h"
#include "kudp.h"
#include "kasync_file.h"
#ifndef SERIES
#define SERIES 2
#endif
#ifndef TRIES
#define TRIES 3
#endif
enum { RD, WR, SF, UDP };
static kconnection C;
static kudp_extend U;
static kasync_file F;
static int data_, arg_;
static char b0[8], b1[8];
static kgl_iovec iov[2] = { { b0, 8 }, { b1, 8 } };
static kgl_iovec buf;
static int kind, calls, last, last_errno;
static bool done, in_op;
static int done_got;
static int64_t f_off;
static size_t f_len;
static bool would_block;
static int outcome()
{
	if (would_block) { errno = EAGAIN; return -1; }
	CHECK(in_op && !done, "no system call for an operation that is not pending");
	CHECK(calls < TRIES, "bounded");
	calls++;
	if (FLIP()) {
		last = ND_INT();
		ASSUME(last >= 0);
		return last;
	}
	last = -1;
	/* the last attempt does not block again */
	last_errno = ND_RANGE(1, 133);
	if (calls == TRIES) ASSUME((last_errno != EAGAIN) & (last_errno != EINTR));
	/* an interrupted datagram receive counts as one that would block */
	errno = last_errno;
	return -1;
}
static bool blocked() { return last < 0 && (last_errno == EAGAIN || (kind == UDP && last_errno == EINTR)); }
extern "C" {
ssize_t readv(int fd, const struct iovec *v, int n)
{
	CHECK(kind == RD && fd == wfd && v == iov && n == (int)buf.iov_len, "reads into exactly the caller's buffers");
	return outcome();
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
	CHECK(kind == WR && fd == wfd && v == iov && n == (int)buf.iov_len, "writes exactly the caller's buffers");
	return outcome();
}
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
	CHECK(kind == SF && out == wfd && in == 77, "sends from the file to the socket");
	CHECK(off != NULL && *off == f_off && n == f_len, "sends the asked range of the file");
	return outcome();
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
	CHECK(kind == UDP && fd == wfd && flags == 0, "receives from the socket");
	CHECK(m->msg_iov == iov && m->msg_iovlen == buf.iov_len, "receives into exactly the caller's buffers");
	CHECK(m->msg_name == &C.addr && m->msg_namelen >= sizeof(struct sockaddr_in6), "room for any source address");
	CHECK(vp_accessible(m->msg_name, m->msg_namelen), "the source address fits");
	if (C.udp) CHECK(m->msg_control == (void *)&U && m->msg_controllen <= sizeof(U) && m->msg_controllen >= CMSG_SPACE(sizeof(struct in_pktinfo)), "room for the destination address");
	else CHECK(m->msg_controllen == 0, "no control data asked for");
	return outcome();
}
}
static kev_result on_done(KOPAQUE d, void *a, int got)
{
	CHECK(in_op && !done, "the operation completes once");
	CHECK((int *)d == &data_ && (int *)a == &arg_, "with its own data and argument");
	CHECK(calls > 0 && !blocked(), "not while it would block");
	if (last >= 0) CHECK(got == last, "with the number of bytes transferred");
	else CHECK(got < 0, "with an error");
	CHECK(!KBIT_TEST(C.st.base.st_flags, kind == RD || kind == UDP ? STF_READ : STF_WRITE | STF_SENDFILE), "the operation is over when it completes");
	done = true;
	REACH(got < 0 ? "failed" : "completed");
	return kev_ok;
}
ENTRY(h_ops)
{
	env_start(FLIP());
	kind = KIND;
	C.st.base.selector = sel;
	C.st.fd = wfd;
	C.st.data = (KOPAQUE)&data_;
	if (kind == UDP) {
		KBIT_SET(C.st.base.st_flags, STF_UDP);
		if (FLIP()) C.udp = &U;
	}
	buf.iov_base = (char *)iov;
	buf.iov_len = 1 + CHOOSE(2);
	int base = sel->count;
	/* what is known about the descriptor beforehand */
	if (FLIP()) {
		/* registered earlier; readiness reported while nothing was pending */
		kgl_selector_module.readhup(sel, &C.st, [](KOPAQUE, void *, int) { CHECK(false, "no hang-up was reported"); return kev_ok; }, &arg_);
		kR = FLIP();
		kW = FLIP();
		kwake();
		loop_turn();
		kgl_selector_module.remove_readhup(sel, &C.st);
		REACH("registered");
	}
	else kW = FLIP();
	in_op = true;
	kev_result r = kev_ok;
	switch (kind) {
	case RD: case UDP: r = selectable_read(&C.st, on_done, &buf, &arg_); break;
	case WR: r = selectable_write(&C.st, on_done, &buf, &arg_); break;
	case SF:
		F.st.fd = 77;
		f_off = F.st.offset = ND_RANGE64(0, 1LL << 60);
		f_len = ND_U32();
		buf.iov_base = (char *)&F;
		buf.iov_len = f_len;
		r = selectable_sendfile(&C.st, on_done, &buf, &arg_);
		break;
	}
	for (int i = 0; i < 2 * TRIES + 2 && !done; i++) {
		bool pend = KBIT_TEST(C.st.base.st_flags, kind == RD || kind == UDP ? STF_READ : STF_WRITE) != 0;
		CHECK(pend, "an operation that did not complete is pending");
		if (calls && blocked() && ready_list_empty()) {
			/* nothing happens: no further attempt */
			int c = calls;
			queued = false;
			loop_turn();
			loop_turn();
			CHECK(calls == c && !done, "an operation that would block is not retried before the descriptor is ready");
			REACH("blocked");
		}
		if (ready_list_empty()) {
			kR = kW = true;
			kwake();
		}
		loop_turn();
	}
	loop_turn();
	CHECK(done, "the operation completes in the end");
	CHECK(sel->count == base, "the number of pending operations is balanced");
	REACH("end");
}
static void set_kind(int k);
static bool begin(int k, result_callback cb);
/* operations of any kind after each other on one descriptor */
ENTRY(h_series)
{
	env_start(true);
	C.st.base.selector = sel;
	C.st.fd = wfd;
	C.st.data = (KOPAQUE)&data_;
	int base = sel->count;
	for (int k = 0; k < SERIES; k++) {
		set_kind(CHOOSE(3));
		calls = 0;
		done = false;
		f_off = F.st.offset = ND_RANGE64(0, 1LL << 60);
		kW = FLIP();
		kR = kind == RD && kW;
		kwake();
		in_op = true;
		begin(kind, on_done);
		for (int i = 0; i < 2 * TRIES + 2 && !done; i++) {
			if (calls && blocked() && ready_list_empty()) {
				int c = calls;
				queued = false;
				loop_turn();
				CHECK(calls == c && !done, "an operation that would block is not retried before the descriptor is ready");
				REACH("blocked");
			}
			if (ready_list_empty()) {
				kR = kW = true;
				kwake();
			}
			loop_turn();
		}
		in_op = false;
		CHECK(done, "the operation completes in the end");
		if (FLIP()) loop_turn();
		CHECK(sel->count == base, "the number of pending operations is balanced");
	}
	loop_turn();
	REACH("end");
}
/* epoll registration fails */
static kev_result on_fail(KOPAQUE d, void *a, int got)
{
	CHECK(!done && got < 0 && (int *)a == &arg_, "a failed registration is reported once");
	done = true;
	return kev_ok;
}
static int seen_read;
static bool begin(int k, result_callback cb)
{
	if (k == RD) selectable_read(&C.st, cb, &buf, &arg_);
	else if (k == WR) selectable_write(&C.st, cb, &buf, &arg_);
	else if (k == SF) selectable_sendfile(&C.st, cb, &buf, &arg_);
	else if (k == 4) return kgl_selector_module.connect(sel, &C.st, cb, &arg_);
	else return kgl_selector_module.readhup(sel, &C.st, cb, &arg_);
	return true;
}
static void set_kind(int k)
{
	kind = k;
	F.st.fd = 77;
	f_len = k == SF ? 5 : 1;
	buf.iov_base = k == SF ? (char *)&F : (char *)iov;
	buf.iov_len = f_len;
}
ENTRY(h_refused)
{
	env_start(FLIP());
	C.st.base.selector = sel;
	C.st.fd = wfd;
	C.st.data = (KOPAQUE)&data_;
	int base = sel->count;
	set_kind(CHOOSE(5));
	if (kind >= 3) kind++;               /* 4: connecting, 5: watching for a hang-up */
	/* a read that waits meanwhile */
	bool reading = (kind == WR || kind == SF) && FLIP();
	if (reading) {
		kgl_selector_module.read(sel, &C.st, [](KOPAQUE, void *, int got) { CHECK(got == 0, "ready"); seen_read++; return kev_ok; }, NULL, &arg_);
		CHECK(reg, "known to epoll");
		REACH("reading");
	}
	int waiting = sel->count;
	ctl_fails = would_block = true;
	if (!begin(kind, on_fail)) { CHECK(!done, "reported once"); done = true; }
	loop_turn();
	CHECK(done, "a failed registration is reported");
	CHECK(!KBIT_TEST(C.st.base.st_flags, (STF_EVENT | STF_SENDFILE) & ~(reading ? STF_READ : 0)) && sel->count == waiting, "nothing stays pending");
	/* it succeeds later, with any operation */
	ctl_fails = would_block = false;
	done = false;
	set_kind(CHOOSE(3));
	f_off = F.st.offset = 0;
	if (reading && kind == RD) { reading = false; kR = true; kwake(); loop_turn(); loop_turn(); CHECK(seen_read == 1, "the read that waited is told"); kR = false; }
	in_op = true;
	begin(kind, on_done);
	loop_turn();
	kR = kW = true;
	for (int i = 0; i < 2 * TRIES + 2 && !done; i++) {
		if (ready_list_empty()) kwake();
		loop_turn();
	}
	CHECK(done, "an operation started after a failed registration completes");
	if (reading) CHECK(seen_read == 1, "the read that waited is told");
	in_op = false;
	loop_turn();
	CHECK(sel->count == base, "the number of pending operations is balanced");
	REACH("end");
}
/* operations without a system call: run from the loop, once */
ENTRY(h_next)
{
	env_start(true);
	kind = CHOOSE(3);
	C.st.base.selector = sel;
	C.st.fd = wfd;
	C.st.data = (KOPAQUE)&data_;
	int base = sel->count;
	static int got_r, got_w;
	if (kind != 1) selectable_next_read(&C.st, [](KOPAQUE d, void *a, int got) { CHECK((int *)d == &data_ && a == &got_r && got == 0, "own data and argument"); got_r++; return kev_ok; }, &got_r);
	if (kind != 0) selectable_next_write(&C.st, [](KOPAQUE d, void *a, int got) { CHECK((int *)d == &data_ && a == &got_w && got == 0, "own data and argument"); got_w++; return kev_ok; }, &got_w);
	CHECK(got_r == 0 && got_w == 0, "not run from the caller");
	loop_turn();
	loop_turn();
	CHECK(got_r == (kind != 1) && got_w == (kind != 0), "run exactly once each");
	CHECK(!KBIT_TEST(C.st.base.st_flags, STF_EVENT), "the operation is over when it completes");
	CHECK(sel->count == base, "the number of pending operations is balanced");
	REACH("end");
}
