/* C23: opening, seeking and reading files (kfile.c, kfile.h) */
#include "vp.h"
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/stat.h>
#include "kfile.h"
#ifndef N
#define N 5
#endif
static int calls, ret_fd, ret_errno;
static const char *want_path;
static int flags_, mode_;
static int64_t sk_off, sk_ret;
static int sk_whence;
static struct stat st_;
static int st_ret;
/* reads */
static char file_[N + 1], out_[N + 2];
static int fpos, asked_len;
static bool over;
extern "C" {
int open(const char *path, int flags, ...)
{
	CHECK(path == want_path, "the named file is opened");
	flags_ = flags;
	mode_ = 0;
	if (flags & O_CREAT) {
		va_list ap;
		va_start(ap, flags);
		mode_ = va_arg(ap, int);
		va_end(ap);
	}
	calls++;
	errno = ret_errno;
	return ret_fd;
}
off_t lseek64(int fd, off_t off, int whence)
{
	CHECK(fd == ret_fd, "the given file");
	calls++;
	sk_off = off;
	sk_whence = whence;
	return sk_ret;
}
off_t lseek(int fd, off_t off, int whence) { return lseek64(fd, off, whence); }
int fstat(int fd, struct stat *s)
{
	CHECK(fd == ret_fd, "the given file");
	calls++;
	if (st_ret == 0) *s = st_;
	return st_ret;
}
int lstat(const char *p, struct stat *s)
{
	CHECK(p == want_path, "the named file");
	calls++;
	if (st_ret == 0) *s = st_;
	return st_ret;
}
static struct timespec ft[2];
int futimens(int fd, const struct timespec *t)
{
	CHECK(fd == ret_fd, "the given file");
	ft[0] = t[0];
	ft[1] = t[1];
	return st_ret;
}
ssize_t read(int fd, void *buf, size_t n)
{
	CHECK(fd == ret_fd, "the given file");
	CHECK(!over, "nothing is read after the end or an error");
	CHECK(n >= 1 && (int)n <= asked_len - fpos, "never more than what is missing");
	CHECK((char *)buf == out_ + fpos, "bytes go behind the ones read before");
	int got = CHOOSE((int)n + 2) - 1;
	if (got <= 0) { over = true; errno = EIO; return got; }
	memcpy(buf, file_ + fpos, got);
	fpos += got;
	return got;
}
}
ENTRY(h_open)
{
	want_path = "some/file";
	ret_fd = ND_INT();
	ret_errno = ND_RANGE(1, 133);
	int model = CHOOSE(6), flag = ND_RANGE(0, 63);
	int r = kfopen(want_path, (fileModel)model, flag);
	CHECK(calls == 1 && r == ret_fd, "the result of the system is returned");
	CHECK(kflike(r) == (ret_fd >= 0), "a failure is told from a file");
	if (ret_fd < 0) CHECK(errno == ret_errno, "the error number is kept");
	static const int access_[6] = { O_RDONLY, O_WRONLY, O_WRONLY, O_RDWR, O_RDWR, O_WRONLY };
	CHECK((flags_ & O_ACCMODE) == access_[model], "opened for exactly the requested access");
	bool creates = model == fileWrite || model == fileModify || model == fileWriteRead || model == fileAppend;
	bool truncates = model == fileWrite || model == fileWriteRead;
	CHECK(!!(flags_ & O_CREAT) == creates, "created exactly when the mode says so");
	CHECK(!!(flags_ & O_TRUNC) == truncates, "emptied exactly when the mode says so");
	CHECK(!!(flags_ & O_APPEND) == (model == fileAppend), "writes go to the end exactly when the mode says so");
	CHECK(flags_ & O_CLOEXEC, "closed on exec");
	CHECK(!!(flags_ & O_NOFOLLOW) == !!(flag & KFILE_NOFOLLOW), "links are refused exactly when asked");
	CHECK(((flags_ & O_SYNC) != 0) == !!(flag & KFILE_DSYNC), "writes are synchronous exactly when asked");
	CHECK(!!(flags_ & O_NOATIME) == !!(flag & KFILE_NOATIME), "the access time is left alone exactly when asked");
	int known = O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC | O_NOFOLLOW | O_SYNC | O_DSYNC | O_NOATIME | O_LARGEFILE | 0100000;
	CHECK((flags_ & ~known) == 0, "nothing else is asked for");
	if (creates) CHECK(mode_ == 0644, "new files are writable by their owner only");
	REACH("end");
}
ENTRY(h_seek)
{
	ret_fd = ND_RANGE(0, 1 << 20);
	sk_ret = ND_I64();
	ASSUME(sk_ret >= -1);
	int64_t off = ND_I64();
	int p = CHOOSE(3);
	static const int want[3] = { SEEK_SET, SEEK_END, SEEK_CUR };
	bool r = kfseek(ret_fd, off, (seekPosion)p);
	CHECK(calls == 1 && sk_off == off && sk_whence == want[p], "seeks to exactly the asked position");
	CHECK(r == (sk_ret != -1), "success exactly when the system moved the position");
	REACH("end");
}
ENTRY(h_stat)
{
	want_path = "some/file";
	ret_fd = ND_RANGE(0, 1 << 20);
	st_.st_size = ND_RANGE64(0, INT64_MAX);
	st_.st_mtime = ND_I64();
	st_.st_mode = ND_U32();
	st_ret = CHOOSE(2) - 1;
	CHECK(kfsize(ret_fd) == (st_ret == 0 ? st_.st_size : 0), "the size is the system's");
	CHECK(kftime(ret_fd) == (st_ret == 0 ? st_.st_mtime : 0), "the time is the system's");
	CHECK(kfile_last_modified(want_path) == (st_ret == 0 && S_ISREG(st_.st_mode) ? st_.st_mtime : 0), "the time of a regular file is the system's");
	time_t t = ND_I64();
	CHECK(kfutime(ret_fd, t) == (st_ret == 0), "setting the time reports success exactly when it worked");
	CHECK(ft[0].tv_sec == t && ft[1].tv_sec == t && ft[0].tv_nsec == 0 && ft[1].tv_nsec == 0, "exactly the asked time is set");
	REACH("end");
}
ENTRY(h_read_all)
{
	ret_fd = 5;
	for (int i = 0; i < N; i++) file_[i] = ND_CHAR();
	memset(out_, 0x5a, sizeof(out_));
	asked_len = CHOOSE(N + 1);
	bool r = kfread_all(ret_fd, out_, asked_len);
	CHECK(r == (fpos == asked_len), "success exactly when every byte was read");
	CHECK(r != over || asked_len == fpos, "stops at the first error or end of file");
	for (int i = 0; i < fpos; i++) CHECK(out_[i] == file_[i], "the bytes are those of the file, in order");
	for (int i = asked_len; i < N + 2; i++) CHECK(out_[i] == 0x5a, "nothing behind the asked length is written");
	REACH(r ? "all" : "some");
	REACH("end");
}
