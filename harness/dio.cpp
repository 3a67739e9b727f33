/* C24: asynchronous and direct file I/O (kasync_file.[ch], kepoll_selector.c, kfiber.c) */
#define EPOLL_OWN_SYSCALL
#include "epoll_env.h"
#include <linux/aio_abi.h>
#include <fcntl.h>
#include "kasync_file.h"
#include "kmalloc.h"
#include "kselector_manager.h"
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef NFILES
#define NFILES 1
#endif
static struct iocb *sub[4];
static int nsub, refuse;
static int nop;
/* a file in flight: what was asked and what the system does */
static struct op {
	kasync_file f;
	char *buf;
	int len, cap, write, told, want, submitted;
	int64_t off, size, k_off, k_len, res;
} O[2];
static int64_t align_;
static int efd_count, ready_n;
static struct op *ready_[4];
static struct op *op_of(struct iocb *cb)
{
	for (int i = 0; i < 2; i++) if (&O[i].f.iocb == cb) return &O[i];
	CHECK(false, "a transfer belongs to a file");
	return NULL;
}
static void submit(struct iocb *cb)
{
	struct op *o = op_of(cb);
	CHECK(!o->submitted, "one transfer per operation");
	o->submitted = 1;
	CHECK((int)cb->aio_fildes == o->f.st.fd, "the transfer is for the file");
	CHECK(cb->aio_lio_opcode == (o->write ? IOCB_CMD_PWRITE : IOCB_CMD_PREAD), "reads read and writes write");
	CHECK((cb->aio_flags & IOCB_FLAG_RESFD) && cb->aio_resfd == AIO_FD, "the loop is told when it is finished");
	o->k_off = cb->aio_offset;
	o->k_len = (int64_t)cb->aio_nbytes;
	CHECK(cb->aio_buf == (uintptr_t)o->buf, "to or from the caller's memory");
	CHECK(o->k_len > 0 && o->k_len <= o->cap, "a transfer fits the caller's memory");
	if (o->f.st.direct_io) {
		CHECK(o->k_off % align_ == 0, "the offset of a direct transfer is aligned");
		if (!o->write) CHECK(o->k_len % align_ == 0, "the length of a direct read is aligned");
		CHECK(cb->aio_buf % align_ == 0, "the memory of a direct transfer is aligned");
	}
	if (!o->write && o->f.st.direct_io) {
		CHECK(o->k_off <= o->off && o->off < o->k_off + o->k_len, "a direct read covers the asked offset");
		CHECK(o->k_len >= o->len, "a direct read is as long as asked at least");
	} else CHECK(o->k_off == o->off && o->k_len == o->len, "exactly the asked range");
	/* what the system will answer: an error, or all there is */
	if (FLIP()) { o->res = -ND_RANGE(1, 133); REACH("failed"); }
	else if (o->write) o->res = ND_RANGE64(0, o->k_len);
	else {
		o->size = ND_RANGE64(0, 1LL << 60);
		int64_t there = o->size - o->k_off;
		o->res = there <= 0 ? 0 : there < o->k_len ? there : o->k_len;
		/* ordinary reads may be short */
		if (!o->f.st.direct_io && FLIP()) {
			int64_t shorter = ND_RANGE64(0, o->k_len);
			ASSUME((shorter > 0) & (shorter < o->res));
			o->res = shorter;
		}
	}
	ready_[ready_n++] = o;
	efd_count++;
}
extern "C" {
void perror(const char *) {}
void srand(unsigned) {}
void klog(int, const char *, ...) {}
long syscall(long n, ...)
{
	va_list ap;
	va_start(ap, n);
	long r = 0;
	if (n == SYS_io_setup) { va_arg(ap, long); *va_arg(ap, aio_context_t *) = 7; }
	else if (n == SYS_io_submit) {
		CHECK(va_arg(ap, aio_context_t) == 7, "own transfer queue");
		CHECK(va_arg(ap, long) == 1, "one transfer at a time");
		struct iocb **p = va_arg(ap, struct iocb **);
		if (refuse) { refuse = 0; r = -1; errno = EAGAIN; }
		else { submit(p[0]); r = 1; }
	} else if (n == SYS_io_getevents) {
		CHECK(va_arg(ap, aio_context_t) == 7, "own transfer queue");
		va_arg(ap, long);
		long max = va_arg(ap, long);
		struct io_event *ev = va_arg(ap, struct io_event *);
		/* any number of finished transfers, in any order */
		r = ready_n == 0 ? 0 : 1 + CHOOSE(ready_n < max ? ready_n : (int)max);
		for (int i = 0; i < r; i++) {
			int k = CHOOSE(ready_n);
			struct op *o = ready_[k];
			ready_[k] = ready_[--ready_n];
			memset(&ev[i], 0, sizeof(ev[i]));
			ev[i].data = o->f.iocb.aio_data;
			ev[i].obj = (uintptr_t)&o->f.iocb;
			ev[i].res = o->res;
		}
	} else CHECK(n == SYS_io_destroy, "only aio calls here");
	va_end(ap);
	return r;
}
ssize_t read(int fd, void *p, size_t n)
{
	CHECK(fd == AIO_FD && n == 8, "the finished transfers are counted");
	*(uint64_t *)p = efd_count;
	efd_count = 0;
	return 8;
}
}
static int fl, fl_ret, fl_fd;
extern "C" int fcntl(int fd, int cmd, ...)
{
	CHECK(fd == fl_fd, "the given file");
	if (cmd == F_GETFL) return fl;
	CHECK(cmd == F_SETFL, "only the file's flags are touched");
	va_list ap;
	va_start(ap, cmd);
	int v = va_arg(ap, int);
	va_end(ap);
	if (fl_ret == 0) fl = v;
	return fl_ret;
}
static void expect(struct op *o, int r)
{
	int64_t skip = o->write || !o->f.st.direct_io ? 0 : o->off - o->k_off;
	if (o->res < 0) CHECK(r < 0, "an error is reported");
	else {
		int64_t avail = o->res - skip;
		if (avail < 0) avail = 0;
		if (avail > o->len) avail = o->len;
		CHECK(r == avail, "exactly the asked bytes that are there are counted, none at the end of the file");
		if (r == 0) REACH("end of file");
		if (r > 0 && skip) REACH("skipped");
	}
	CHECK(kfiber_file_adjust((&o->f), o->buf) == o->buf + skip, "the bytes are those at the asked offset");
}
static kev_result told(KOPAQUE d, void *a, int got)
{
	struct op *o = (struct op *)a;
	CHECK(d == (KOPAQUE)o, "the file's own data");
	CHECK(o->submitted && !o->told, "an operation completes once");
	o->told = 1;
	expect(o, got);
	return kev_ok;
}
static void prepare(struct op *o, int fd)
{
	o->write = FLIP();
	o->len = ND_RANGE(1, 1 << 28);
	o->off = ND_RANGE64(0, 1LL << 59);
	kgl_selector_module.aio_open(sel, &o->f, fd);
	kasync_file_bind_opaque(&o->f, o);
	fl_fd = fd;
	fl_ret = 0;
	if (NFILES == 1 && FLIP()) { fl = -1; CHECK(!kasync_file_direct(&o->f, true), "a failure is reported"); }
	fl = ND_RANGE(0, INT32_MAX);
	int before = fl;
	if (FLIP()) {
		CHECK(kasync_file_direct(&o->f, true) && fl == (before | O_DIRECT), "direct transfers are turned on");
		if (NFILES == 1 && FLIP()) {
			CHECK(kasync_file_direct(&o->f, false) && fl == (before & ~O_DIRECT), "direct transfers are turned off");
			if (FLIP()) {
				fl_ret = -1;
				CHECK(!kasync_file_direct(&o->f, true), "a failure is reported");
			}
		}
	}
	/* memory as the library's own allocator gives it */
	char *mem = (char *)(uintptr_t)(ND_U64() & ~(uint64_t)65535);
	o->buf = mem;
	o->cap = (int)((o->len + align_ - 1) / align_ * align_);
	if (o->f.st.direct_io) {
		REACH("direct");
		/* direct writes start at an aligned offset */
		if (o->write) ASSUME(o->off % align_ == 0);
	}
	o->f.st.offset = o->off;
}
static void aio_event()
{
	/* the loop's own descriptor becomes readable */
	aio_signal = true;
	kgl_selector_module.select(sel, 0);
	kselector_check_timeout(sel, 0);
}
ENTRY(h_transfer)
{
	align_ = 512LL << (NFILES == 1 ? CHOOSE(8) : 3);
	kgl_aio_align_size = (int)align_;
	env_start(true);
	for (int i = 0; i < NFILES; i++) prepare(&O[i], 20 + i);
	for (int i = 0; i < NFILES; i++) {
		struct op *o = &O[i];
		refuse = FLIP();
		bool refused = refuse;
		bool r = o->write ? kgl_selector_module.aio_write(&o->f, told, o->buf, o->len, o) : kgl_selector_module.aio_read(&o->f, told, o->buf, o->len, o);
		CHECK(r == !refused && o->submitted == r, "success exactly when the transfer was started");
		CHECK(!o->told, "an operation does not complete before its transfer");
		if (refused) { REACH("refused"); o->submitted = 2; }
		if (i == 0 && FLIP() && efd_count) aio_event();
	}
	if (efd_count) aio_event();
	CHECK(ready_n == 0, "every finished transfer is collected");
	for (int i = 0; i < NFILES; i++) CHECK(O[i].told == (O[i].submitted == 1), "every started operation completes once");
	REACH("end");
}
/* one file, several transfers after each other */
static void choose_op(struct op *o)
{
	o->write = FLIP();
	o->len = ND_RANGE(1, 1 << 28);
	o->off = ND_RANGE64(0, 1LL << 59);
	o->cap = (int)((o->len + align_ - 1) / align_ * align_);
	o->submitted = o->told = 0;
	if (o->f.st.direct_io && o->write) ASSUME(o->off % align_ == 0);
	o->f.st.offset = o->off;
}
ENTRY(h_again)
{
	align_ = 4096;
	kgl_aio_align_size = (int)align_;
	env_start(true);
	struct op *o = &O[0];
	kgl_selector_module.aio_open(sel, &o->f, 20);
	kasync_file_bind_opaque(&o->f, o);
	fl_fd = 20;
	o->buf = (char *)(uintptr_t)0x10000;
	for (int k = 0; k < ROUNDS; k++) {
		bool direct = FLIP();
		CHECK(kasync_file_direct(&o->f, direct), "switched");
		choose_op(o);
		CHECK(o->write ? kgl_selector_module.aio_write(&o->f, told, o->buf, o->len, o) : kgl_selector_module.aio_read(&o->f, told, o->buf, o->len, o), "started");
		CHECK(o->submitted == 1 && !o->told, "an operation does not complete before its transfer");
		aio_event();
		CHECK(o->told == 1, "every started operation completes once");
		if (direct) REACH("direct"); else REACH("not direct");
	}
	REACH("end");
}
/* from a fiber: the file's position follows */
static int done_;
static int fiber_ops(void *a, int)
{
	struct op *o = (struct op *)a;
	kfiber_file *f = &o->f;
	CHECK(kfiber_file_seek(f, seekBegin, o->off) == 0 && kfiber_file_tell(f) == o->off, "seeking from the start sets the position");
	int64_t by = ND_RANGE64(-(1LL << 59), 1LL << 59);
	CHECK(kfiber_file_seek(f, seekCur, by) == 0 && kfiber_file_tell(f) == o->off + by, "seeking from the position moves it");
	CHECK(kfiber_file_seek(f, seekCur, -by) == 0 && kfiber_file_tell(f) == o->off, "seeking from the position moves it");
	CHECK(kfiber_file_seek(f, seekEnd, by) != 0 && kfiber_file_tell(f) == o->off, "an unknown seek is refused and moves nothing");
	refuse = FLIP();
	int refused = refuse;
	int r = o->write ? kfiber_file_write(f, o->buf, o->len) : kfiber_file_read(f, o->buf, o->len);
	if (refused) CHECK(r < 0 && kfiber_file_tell(f) == o->off, "a transfer that can not start is an error and moves nothing");
	else {
		expect(o, r);
		CHECK(kfiber_file_tell(f) == o->off + (r > 0 ? r : 0), "the position advances by the bytes transferred");
	}
	done_++;
	return 0;
}
ENTRY(h_fiber)
{
	align_ = 512LL << CHOOSE(8);
	kgl_aio_align_size = (int)align_;
	pthread_key_create(&kgl_selector_key, NULL);
	kfiber_init();
	kepoll_module_init();
	selector_manager_init(1, false);
	sel = get_selector_by_index(0);
	kselector_step_init(0);
	prepare(&O[0], 20);
	O[0].f.st.offset = 12345;
	kfiber_create(fiber_ops, &O[0], 0, 0, NULL);
	for (int i = 0; i < 4; i++) {
		kselector_check_timeout(sel, 0);
		if (efd_count) aio_event();
	}
	CHECK(done_ == 1, "the fiber goes on when its transfer is finished");
	REACH("end");
}

/* a fiber's file: opening, size, closing */
#ifdef FILES
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <linux/fs.h>
#include <mntent.h>
#include <unistd.h>
static int opens, closes, open_fd, open_flags, st_result;
static int64_t st_size_;
static const char *open_path;
/* the mounted file systems */
static int mounts, next_mount, mnt_open, dev_bs[4], dev_fds;
static bool dev_opens[4], dev_is_block[4], has_mounts;
static struct mntent mnt_;
static char mnt_name[4][3];
static FILE *const MNT = (FILE *)0x1230;
extern "C" {
int open(const char *path, int flags, ...)
{
	if (path != open_path) {
		int i = path[1] - '0';
		CHECK(mnt_open && i >= 0 && i < mounts, "a mounted device");
		CHECK((flags & O_ACCMODE) == O_RDONLY, "only looked at");
		if (!dev_opens[i]) return -1;
		dev_fds++;
		return 100 + i;
	}
	opens++;
	open_flags = flags;
	return open_fd;
}
int close(int fd)
{
	if (fd >= 100) { dev_fds--; return 0; }
	CHECK(fd == open_fd && open_fd >= 0 && opens == 1, "closes what it opened");
	closes++;
	return 0;
}
int fstat(int fd, struct stat *s)
{
	CHECK(fd == open_fd, "the file");
	if (st_result == 0) { memset(s, 0, sizeof(*s)); s->st_size = st_size_; }
	return st_result;
}
FILE *setmntent(const char *, const char *) { if (!has_mounts) return NULL; mnt_open++; return MNT; }
struct mntent *getmntent(FILE *f)
{
	CHECK(f == MNT && mnt_open == 1, "the open list");
	if (next_mount >= mounts) return NULL;
	mnt_.mnt_fsname = mnt_name[next_mount++];
	return &mnt_;
}
int endmntent(FILE *f) { CHECK(f == MNT && mnt_open == 1, "the open list"); mnt_open--; return 1; }
int ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	int *v = va_arg(ap, int *);
	va_end(ap);
	CHECK(fd >= 100 && req == BLKSSZGET, "the block size of a device");
	if (!dev_is_block[fd - 100]) return -1;
	*v = dev_bs[fd - 100];
	return 0;
}
}
ENTRY(h_open)
{
	env_start(false);
	bool loop = FLIP();
	open_path = "name";
	open_fd = ND_RANGE(-1, 1 << 20);
	if (open_fd >= 100) ASSUME(false);
	st_result = CHOOSE(2) - 1;
	st_size_ = ND_RANGE64(0, INT64_MAX);
	if (!loop) pthread_setspecific(kgl_selector_key, NULL);
	uint64_t heap = vp_heap_bytes();
	kfiber_file *f = kfiber_file_open(open_path, fileRead, 0);
	CHECK((f != NULL) == (loop && open_fd >= 0), "a file on the calling thread's loop, when the system opened it");
	CHECK(closes == (opens && open_fd >= 0 && f == NULL), "a file nobody gets is closed");
	if (!f) {
		CHECK(vp_heap_bytes() == heap, "and leaves nothing behind");
		REACH("refused");
	} else {
		CHECK((open_flags & O_ACCMODE) == O_RDONLY, "as asked");
		CHECK(kasync_file_get_selector(f) == sel && kasync_file_get_handle(f) == open_fd, "the file belongs to the loop");
		CHECK(kfiber_file_tell(f) == 0, "at its start");
		CHECK(kfiber_file_size(f) == (st_result == 0 ? st_size_ : 0), "the size is the system's");
		kfiber_file_close(f);
		CHECK(closes == 1 && vp_heap_bytes() == heap, "closing releases everything, once");
		REACH("closed");
	}
	REACH("end");
}
/* the alignment direct transfers get */
ENTRY(h_align)
{
	has_mounts = FLIP();
	mounts = CHOOSE(4);
	int most = 0;
	for (int i = 0; i < mounts; i++) {
		mnt_name[i][0] = 'd';
		mnt_name[i][1] = '0' + i;
		dev_opens[i] = FLIP();
		dev_is_block[i] = dev_opens[i] ? FLIP() : 0;
		dev_bs[i] = 256 << CHOOSE(6);
		if (dev_is_block[i] && dev_bs[i] > most) most = dev_bs[i];
	}
	init_aio_align_size();
	CHECK(mnt_open == 0 && dev_fds == 0, "nothing stays open");
	size_t a = kgl_aio_align_size;
	CHECK(a >= 512 && (a & (a - 1)) == 0, "a power of two of at least 512");
	if (has_mounts) CHECK((int)a >= most, "enough for every device");
	CHECK(a <= 16384, "and not more than needed");
	uint64_t heap = vp_heap_bytes();
	static const int sizes[] = { 1, 512, 700, 9000, 70000 };
	int n = sizes[CHOOSE(5)];
	char *b = (char *)aio_alloc_buffer(n);
	CHECK(b != NULL && (uintptr_t)b % a == 0, "memory for direct transfers is aligned");
	size_t whole = (n + a - 1) / a * a;    /* whole blocks can be read into it */
	if (n <= 9000) memset(b, 1, whole);
	else b[0] = b[n - 1] = b[whole - 1] = 1;
	aio_free_buffer(b);
	CHECK(vp_heap_bytes() == heap, "and given back");
	REACH(has_mounts ? "mounts" : "no list");
	REACH("end");
}
#endif
