/* C25: read-fully and write-fully helpers over the real event loop (kfiber.h, kselectable.c) */
#include "epoll_env.h"
#include "kselector_manager.h"
#include "kasync_file.h"
#include "kbuf.h"
#ifndef KIND
#define KIND 0
#endif
#ifndef N
#define N 4
#endif
enum { WRITE, WRITEV, READ, SENDFILE };
static char msg_[16], in_[16];
static int kind, total, pos, eagains;
static bool over, done_;
static kconnection C;
static kasync_file F;
extern "C" void srand(unsigned) {}
extern "C" void klog(int, const char *, ...) {}
/* what one system call does with the n bytes it is asked to transfer */
static int outcome(int n)
{
	CHECK(!over, "nothing is transferred after a failure");
	CHECK(pos < total, "nothing is transferred after everything was");
	CHECK(n == total - pos, "exactly the missing bytes are asked for");
	if (eagains > 0 && FLIP()) {
		eagains--;
		REACH("blocked");
		errno = EAGAIN;
		return -1;
	}
	int got = CHOOSE(n + 2) - 1;
	if (got <= 0) { over = true; errno = EPIPE; return got; }
	if (got < n) REACH("short");
	return got;
}
extern "C" {
ssize_t writev(int fd, const struct iovec *v, int n)
{
	CHECK(fd == wfd && kind <= WRITEV, "writes to the socket");
	int sum = 0;
	for (int i = 0; i < n; i++) {
		CHECK(sum + (int)v[i].iov_len <= total - pos, "no byte that was not asked for is written");
		for (int k = 0; k < (int)v[i].iov_len; k++) CHECK(((char *)v[i].iov_base)[k] == msg_[pos + sum + k], "the bytes go on where the last transfer ended");
		sum += v[i].iov_len;
	}
	int got = outcome(sum);
	if (got > 0) pos += got;
	return got;
}
ssize_t readv(int fd, const struct iovec *v, int n)
{
	CHECK(fd == wfd && kind == READ && n == 1, "reads from the socket");
	CHECK((char *)v->iov_base == in_ + pos, "the bytes go on where the last transfer ended");
	int got = outcome((int)v->iov_len);
	for (int i = 0; i < got; i++, pos++) in_[pos] = msg_[pos];
	return got;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
	CHECK(kind == SENDFILE && out == wfd && in == 77 && *off == 1000 + pos, "the bytes go on where the last transfer ended");
	int got = outcome((int)n);
	if (got > 0) pos += got;
	return got;
}
}
static int body(void *, int)
{
	int len = total;
	switch (kind) {
	case WRITE: {
		bool r = kfiber_net_write_full(&C, msg_, &len);
		CHECK(r == (pos == total), "success exactly when every byte was transferred");
		CHECK(len == total - pos, "the count left is right");
		break;
	}
	case WRITEV: {
		/* the message in up to 4 pieces, empty ones too */
		kgl_iovec v[4];
		static char part[4][8];
		int n = 0, at = 0;
		while (n < 4 && (at < total || FLIP())) {
			int l = n == 3 ? total - at : CHOOSE(total - at + 1);
			memcpy(part[n], msg_ + at, l);
			v[n].iov_base = part[n];
			v[n].iov_len = l;
			if (l == 0) REACH("empty piece");
			at += l;
			n++;
		}
		int bc = n;
		size_t r = kfiber_net_writev_full(&C, v, &bc);
		CHECK((int)r == pos, "the number of bytes transferred is returned");
		CHECK((bc == 0) == (pos == total), "no buffer is left exactly when every byte was transferred");
		break;
	}
	case READ: {
		bool r = kfiber_net_read_full(&C, in_, &len);
		CHECK(r == (pos == total), "success exactly when every byte was transferred");
		CHECK(len == total - pos, "the count left is right");
		break;
	}
	case SENDFILE: {
		bool r = kfiber_sendfile_full(&C, &F, &len);
		CHECK(r == (pos == total), "success exactly when every byte was transferred");
		CHECK(len == total - pos, "the count left is right");
		CHECK(F.st.offset == 1000 + pos, "the file position advances by the bytes transferred");
		break;
	}
	}
	CHECK((pos == total) != over || (pos == total && !over), "stops only at an error or the end");
	REACH(pos == total ? "all" : "some");
	done_ = true;
	return 0;
}
static void start()
{
	pthread_key_create(&kgl_selector_key, NULL);
	kfiber_init();
	kepoll_module_init();
	selector_manager_init(1, false);
	sel = get_selector_by_index(0);
	kselector_step_init(0);
	C.st.base.selector = sel;
	C.st.fd = wfd;
	F.st.fd = 77;
	F.st.base.selector = sel;
	F.st.offset = 1000;
	for (int i = 0; i < N; i++) msg_[i] = 'a' + i;
}
ENTRY(h_net)
{
	start();
	kind = KIND;
	total = CHOOSE(N + 1);
	eagains = 1;
	kfiber_create(body, NULL, 0, 0, NULL);
	for (int i = 0; i < 2 * N + 4 && !done_; i++) {
		kR = kW = true;
		kwake();
		kselector_check_timeout(sel, 0);
		kgl_selector_module.select(sel, 0);
	}
	CHECK(done_, "the fiber goes on");
	for (int i = 0; i < 16; i++) CHECK(in_[i] == (kind == READ && i < pos ? msg_[i] : 0), "exactly the transferred bytes are stored");
	REACH("end");
}
/* advancing a vector or a chunk list */
ENTRY(h_seek)
{
	int n = CHOOSE(5), sum = 0;
	kgl_iovec v[5];
	kbuf b[5], hb;
	static char mem[5][16];
	for (int i = 0; i < n; i++) {
		int l = ND_RANGE(0, 8);
		v[i].iov_base = mem[i];
		v[i].iov_len = l;
		b[i].used = l;
		b[i].data = mem[i];
		b[i].flags = 0;
		b[i].next = i + 1 < n ? &b[i + 1] : NULL;
		sum += l;
	}
	int off = ND_RANGE(0, 40);
	ASSUME(off <= sum);
	int bc = n;
	/* expected first position: pieces wholly skipped are gone */
	int at = 0, left = off;
	while (left > 0) {
		int l = (int)v[at].iov_len;
		if (l > left) break;
		left -= l;
		at++;
	}
	const kbuf *k = kbuf_seek(n ? b : NULL, off, &hb);
	for (int i = at; i < n; i++) {
		int skip = i == at ? left : 0;
		CHECK(k != NULL && k->used == (int)v[i].iov_len - skip && k->data == mem[i] + skip, "the chunks left are exactly the bytes not skipped");
		CHECK(b[i].used == (int)v[i].iov_len && b[i].data == mem[i], "the chunks themselves are unchanged");
		k = k->next;
	}
	CHECK(k == NULL, "the chunks left are exactly the bytes not skipped");
	int keep = at < n ? (int)v[at].iov_len : 0;
	kgl_iovec *p = kgl_iovec_seek(v, &bc, off);
	CHECK(p == v + at && bc == n - at, "the buffers left are exactly those not skipped");
	if (at < n) CHECK((int)p->iov_len == keep - left && (char *)p->iov_base == mem[at] + left, "the first buffer left starts at the position");
	for (int i = at + 1; i < n; i++) CHECK(v[i].iov_base == mem[i] && (int)v[i].iov_len == b[i].used, "the others are unchanged");
	REACH("end");
}
