/* C25: read-fully and write-fully helpers with amounts up to the limits of the types; no byte is looked at, only positions */
#include "epoll_env.h"
#include "kselector_manager.h"
#include "kasync_file.h"
#include "kbuf.h"
#ifndef KIND
#define KIND 0
#endif
#ifndef CALLS
#define CALLS 3
#endif
enum { WRITE, WRITEV, READ, SENDFILE, FWRITE, FREAD };
#ifndef PIECES
#define PIECES 1
#endif
#define MOST (KIND == 1 ? 0x1ffff : 0x7fffffff)
/* the i-th piece's memory; nothing is there, so a byte touched is an error */
#define BASE(i) ((char *)(uintptr_t)(0x100000000000ull + 0x1000000000ull * (i)))
static const int kind = KIND;
static int64_t pos, start_off;
static int piece[PIECES], total, left_;
static char *at[PIECES];           /* what is missing of each piece, and from where */
static int np = 1, calls;
static bool over, done_;
static kconnection C;
static kasync_file F;
extern "C" void srand(unsigned) {}
extern "C" void klog(int, const char *, ...) {}
static int outcome(int n)
{
	CHECK(!over, "nothing is transferred after a failure");
	CHECK(left_ != 0, "nothing is transferred after everything was");
	CHECK(n == left_, "exactly the missing bytes are asked for");
	ASSUME(calls < CALLS);
	calls++;
	if (FLIP()) { over = true; errno = EPIPE; return FLIP() ? -1 : 0; }
	int got = (int)(ND_U32() & 0x7fffffff);
	if (FLIP()) got = left_;
	else {
		ASSUME(got > 0 && got < left_);
		REACH("short");
	}
	left_ -= got;
	pos += got;
	return got;
}
extern "C" {
ssize_t writev(int fd, const struct iovec *v, int n)
{
	CHECK(fd == wfd && kind <= WRITEV, "writes to the socket");
	int k = 0;
	for (int i = 0; i < np; i++) {
		if (piece[i] == 0) continue;
		while (k < n && v[k].iov_len == 0) k++;      /* an empty buffer changes nothing */
		CHECK(k < n && v[k].iov_base == at[i] && v[k].iov_len == (size_t)piece[i], "the bytes go on where the last transfer ended");
		k++;
	}
	for (; k < n; k++) CHECK(v[k].iov_len == 0, "no byte that was not asked for is written");
	int got = outcome(left_), l = got;
	for (int i = 0; i < np && l > 0; i++) {
		if (l < piece[i]) { at[i] += l; piece[i] -= l; break; }
		l -= piece[i];
		piece[i] = 0;
	}
	return got;
}
ssize_t readv(int fd, const struct iovec *v, int n)
{
	CHECK(fd == wfd && kind == READ && n == 1, "reads from the socket");
	CHECK((char *)v->iov_base == BASE(0) + pos, "the bytes go on where the last transfer ended");
	int got = outcome((int)v->iov_len);
	return got;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
	CHECK(kind == SENDFILE && out == wfd && in == 77 && *off == start_off + pos, "the bytes go on where the last transfer ended");
	int got = outcome((int)n);
	return got;
}
}
static int file_io(kasync_file *f, const char *buf, int len)
{
	CHECK(f == &F && buf == BASE(0) + pos && f->st.offset == start_off + pos, "the bytes go on where the last transfer ended");
	int got = outcome(len);
	return got;
}
static result_callback post_cb;
static void *post_arg;
static KOPAQUE post_data;
static int post_got;
static bool f_read(kasync_file *f, result_callback cb, char *buf, int len, void *arg)
{
	CHECK(kind == FREAD, "reads");
	int got = file_io(f, buf, len);
	if (got < 0 && FLIP()) return false;
	post_cb = cb; post_data = f->st.data; post_arg = arg; post_got = got;
	return true;
}
static bool f_write(kasync_file *f, result_callback cb, const char *buf, int len, void *arg)
{
	CHECK(kind == FWRITE, "writes");
	int got = file_io(f, buf, len);
	if (got < 0 && FLIP()) return false;
	post_cb = cb; post_data = f->st.data; post_arg = arg; post_got = got;
	return true;
}
static int body(void *, int)
{
	int len = total;
	bool r = false;
	switch (kind) {
	case WRITE: r = kfiber_net_write_full(&C, BASE(0), &len); break;
	case READ: r = kfiber_net_read_full(&C, BASE(0), &len); break;
	case SENDFILE: r = kfiber_sendfile_full(&C, &F, &len); break;
	case FWRITE: r = kfiber_file_write_full(&F, BASE(0), &len); break;
	case FREAD: r = kfiber_file_read_full(&F, BASE(0), &len); break;
	case WRITEV: {
		kgl_iovec v[PIECES];
		for (int i = 0; i < np; i++) { v[i].iov_base = BASE(i); v[i].iov_len = piece[i]; }
		int bc = np;
		size_t w = kfiber_net_writev_full(&C, v, &bc);
		CHECK((int64_t)w == pos, "the number of bytes transferred is returned");
		r = bc == 0;
		len = left_;
		break;
	}
	}
	CHECK(r == (left_ == 0), "success exactly when every byte was transferred");
	CHECK(len == left_, "the count left is right");
	if (kind >= SENDFILE) CHECK(F.st.offset == start_off + pos, "the file position advances by the bytes transferred");
	CHECK(over == (left_ != 0), "stops only at an error or the end");
	if (total > (KIND == 1 ? 0x10000 : 0x40000000)) REACH("large");
	REACH(r ? "all" : "some");
	done_ = true;
	return 0;
}
ENTRY(h_big)
{
	pthread_key_create(&kgl_selector_key, NULL);
	kfiber_init();
	kepoll_module_init();
	selector_manager_init(1, false);
	sel = get_selector_by_index(0);
	kselector_step_init(0);
	kgl_selector_module.aio_read = f_read;
	kgl_selector_module.aio_write = f_write;
	C.st.base.selector = sel;
	C.st.fd = wfd;
	start_off = ND_U64() & 0xffffffffffffffull;
	F.st.fd = 77;
	F.st.base.selector = sel;
	F.st.offset = start_off;
	if (kind == WRITEV) np = 1 + CHOOSE(PIECES);
	for (int i = 0; i < np; i++) {
		piece[i] = (int)(ND_U32() & MOST);
		at[i] = BASE(i);
		total += piece[i];
	}
	left_ = total;
	kfiber_create(body, NULL, 0, 0, NULL);
	for (int i = 0; i < 2 * CALLS + 2 && !done_; i++) {
		kR = kW = true;
		kwake();
		kselector_check_timeout(sel, 0);
		if (post_cb) { result_callback cb = post_cb; post_cb = NULL; cb(post_data, post_arg, post_got); }
		else kgl_selector_module.select(sel, 0);
	}
	CHECK(done_, "the fiber goes on");
	REACH("end");
}
