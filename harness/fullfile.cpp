/* C25: read-fully and write-fully helpers of files, from the file's loop or another (kfiber.h, kfiber.c) */
#define MAXT 4
#include "loops.h"
#include "kasync_file.h"
VP_HARNESS_BEGIN
#ifndef N
#define N 3
#endif
static char msg_[8], in_[8];
static int op_, total, pos;
static bool over, in_flight;
static kfiber_file F;
static int outcome(int n)
{
	CHECK(!over, "nothing is transferred after a failure");
	CHECK(pos < total, "nothing is transferred after everything was");
	CHECK(n == total - pos, "exactly the missing bytes are asked for");
	CHECK(F.st.offset == 1000 + pos, "the file position advances by the bytes transferred");
	CHECK(cur_thread == LOOPS, "a file is used from its own loop only");
	int got = CHOOSE(n + 2) - 1;
	if (got <= 0) over = true;
	else if (got < n) REACH("short");
	return got;
}
static bool f_read(kasync_file *f, result_callback cb, char *buf, int len, void *arg)
{
	CHECK(f == &F && buf == in_ + pos, "the bytes go on where the last transfer ended");
	int got = outcome(len);
	if (got < 0 && FLIP()) return false;
	for (int i = 0; i < got; i++, pos++) in_[pos] = msg_[pos];
	kgl_selector_module.next(f->st.base.selector, f->st.data, cb, arg, got);
	return true;
}
static bool f_write(kasync_file *f, result_callback cb, const char *buf, int len, void *arg)
{
	CHECK(f == &F && buf == msg_ + pos, "the bytes go on where the last transfer ended");
	int got = outcome(len);
	if (got < 0 && FLIP()) return false;
	if (got > 0) pos += got;
	kgl_selector_module.next(f->st.base.selector, f->st.data, cb, arg, got);
	return true;
}
static int body(void *, int)
{
	int len = total;
	bool r;
	switch (op_) {
	case 0: r = kfiber_file_write_full(&F, msg_, &len); break;
	case 1: r = kfiber_file_read_full(&F, in_, &len); break;
	case 2: r = kfiber_file_safe_write_full(&F, msg_, &len); break;
	default: {
		if (total == 0) { total = 1; }
		int got = kfiber_file_safe_read(&F, in_, total);
		CHECK(over ? got <= 0 : got == pos && got > 0, "a read returns the bytes transferred");
		l_running--;
		sched_event();
		return 0;
	}
	}
	CHECK(r == (pos == total), "success exactly when every byte was transferred");
	CHECK(len == total - pos, "the count left is right");
	CHECK(F.st.offset == 1000 + pos, "the file position advances by the bytes transferred");
	REACH(r ? "all" : "some");
	l_running--;
	sched_event();
	return 0;
}
static void *loop_thread(void *a)
{
	int i = (int)(intptr_t)a;
	l_enter(i);
	if (i == 0) kfiber_create(body, NULL, 0, 0, NULL);
	l_loop(&L[i]);
	l_leave(i);
	return NULL;
}
ENTRY(h_file)
{
	l_setup();
	kgl_selector_module.aio_read = f_read;
	kgl_selector_module.aio_write = f_write;
	for (int i = 0; i < N; i++) msg_[i] = 'a' + i;
	/* with two loops the file belongs to the other one */
	F.st.base.selector = L[LOOPS - 1].s;
	F.st.offset = 1000;
	op_ = LOOPS == 1 ? CHOOSE(4) : 2 + CHOOSE(2);
	total = CHOOSE(N + 1);
	l_running = 1;
	for (int i = 0; i < LOOPS; i++) sched_spawn(loop_thread, (void *)(intptr_t)i);
	CHECK(sched_run() == 0, "every thread ends");
	for (int i = 0; i < 8; i++) CHECK(in_[i] == ((op_ & 1) && i < pos ? msg_[i] : 0), "exactly the transferred bytes are stored");
	REACH("end");
}
VP_HARNESS_END
