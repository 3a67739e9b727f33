/* C35: the life of an event loop: setting up, turning, running a main function on one, taking down */
#define MAXT 4
#include "vp.h"
#include "env.h"
#include <signal.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/eventfd.h>
#include <unistd.h>
#include "kselector.h"
#include "kselector_manager.h"
#include "kselectable.h"
#include "kfiber.h"
#include "kfiber_sync.h"
#include "kthread.h"
#include "kaddr.h"
#include "kgl_ssl.h"
#include "kasync_worker.h"
/* the system's descriptors */
#define MAXFD 16
enum kind { CLOSED, EP, COUNTER };
static struct kfd { kind k; uint64_t n; int ep; void *ptr; } F[MAXFD];
static int used = 3, aio_open, aio_next;
/* what happens to the clock while the loop sleeps */
static void (*sleeping)(int tmo);
static void clock_set(int64_t sec, int64_t ms) { clock_sec = sec; clock_ms = ms; clock_msec = sec * 1000 + ms; }
extern "C" {
static int fd_new(kind k) { CHECK(used < MAXFD, "harness: descriptors"); F[used].k = k; F[used].n = 0; F[used].ep = 0; return used++; }
int epoll_create1(int fl) { return fd_new(EP); }
int epoll_create(int) { return fd_new(EP); }
int eventfd(unsigned int c, int f) { int r = fd_new(COUNTER); F[r].n = c; return r; }
long syscall(long n, ...)
{
	va_list ap;
	va_start(ap, n);
	if (n == SYS_io_setup) {
		va_arg(ap, unsigned);
		unsigned long *c = va_arg(ap, unsigned long *);
		CHECK(*c == 0, "a new context is set up in cleared memory");
		*c = 0x7000 + ++aio_next;
		aio_open++;
	} else {
		CHECK(n == SYS_io_destroy, "aio contexts only");
		unsigned long c = va_arg(ap, unsigned long);
		CHECK(c > 0x7000 && c <= 0x7000ul + aio_next && aio_open > 0, "its own context");
		aio_open--;
	}
	va_end(ap);
	return 0;
}
int close(int fd) { CHECK(fd > 2 && fd < used && F[fd].k != CLOSED, "closes what it opened, once"); F[fd].k = CLOSED; return 0; }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	CHECK(F[ep].k == EP && F[fd].k == COUNTER, "open descriptors");
	if (op == EPOLL_CTL_DEL) { CHECK(F[fd].ep == ep, "watched there"); F[fd].ep = 0; return 0; }
	CHECK(op == EPOLL_CTL_ADD && F[fd].ep == 0 && (ev->events & EPOLLIN), "watched for reading");
	F[fd].ep = ep;
	F[fd].ptr = ev->data.ptr;
	return 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int tmo)
{
	CHECK(F[ep].k == EP, "an open descriptor");
	CHECK(tmo >= 0 && tmo <= 1000, "bounded sleep");
	int n = 0;
	for (int i = 3; i < used; i++) if (F[i].k == COUNTER && F[i].ep == ep && F[i].n) { CHECK(n < max, "harness"); ev[n].events = EPOLLIN; ev[n++].data.ptr = F[i].ptr; }
	if (n == 0) sleeping(tmo);
	return n;
}
ssize_t read(int fd, void *b, size_t n) { CHECK(F[fd].k == COUNTER && n == 8 && F[fd].n, "reads a counter that is not empty"); *(uint64_t *)b = F[fd].n; F[fd].n = 0; return 8; }
ssize_t write(int fd, const void *b, size_t n) { CHECK(F[fd].k == COUNTER && n == 8, "adds to a counter"); F[fd].n += *(const uint64_t *)b; return 8; }
sighandler_t signal(int s, sighandler_t h) { return SIG_DFL; }
int sigemptyset(sigset_t *s) { return 0; }
int sigaddset(sigset_t *s, int) { return 0; }
int pthread_attr_init(pthread_attr_t *) { return 0; }
int pthread_attr_setdetachstate(pthread_attr_t *, int) { return 0; }
unsigned int sleep(unsigned int) { return 0; }
void srand(unsigned) {}
void klog(int, const char *, ...) {}
}
static int ssl_inits, flushes, starts;
static kselector *started[64];
void kssl_init2() { ssl_inits++; }
static int last_flush;
void kthread_flush(int keep) { last_flush = keep; flushes++; }
bool kthread_pool_start(KTHREAD_FUNCTION(*work)(void *), void *param)
{
	CHECK(work == kselector_thread && starts < 64, "starts event loops");
	started[starts++] = (kselector *)param;
	return true;
}
static int open_fds() { int n = 0; for (int i = 3; i < used; i++) n += F[i].k != CLOSED; return n; }
static void by_timeout(int tmo) { int64_t ms = clock_ms + tmo; if (ms >= 1000) clock_set(clock_sec + 1, ms - 1000); else clock_set(clock_sec, ms); }
static void any_time(int tmo) { int64_t s = clock_sec + CHOOSE(3), ms = ND_RANGE(0, 999); ASSUME(s > clock_sec || ms >= clock_ms); clock_set(s, ms); }
static void begin()
{
	clock_set(1700000000LL, 123);
	sleeping = by_timeout;
	kasync_init();
	CHECK(selector_manager_event_name() != NULL, "set up");
}
/* a main function on its own loop, once or several times, one after the other */
static int runs, want_ret, want_argc, posted_ran, timers_ran, child_ret;
static bool main_done;
static int the_arg;
static kev_result on_post(KOPAQUE d, void *a, int got) { CHECK((int *)d == &posted_ran && a == &the_arg && got == 7, "as posted"); CHECK(!main_done, "before the end"); posted_ran++; return kev_ok; }
static kev_result on_timer(KOPAQUE d, void *a, int got) { CHECK((int *)d == &timers_ran && a == &the_arg, "as asked"); timers_ran++; return kev_ok; }
static int on_child(void *a, int len) { CHECK(a == &child_ret && len == 3, "a fiber's arguments"); if (FLIP()) kfiber_msleep(1); return child_ret; }
static int prog(void *a, int argc)
{
	runs++;
	CHECK(a == &the_arg && argc == want_argc, "the main function gets its arguments");
	CHECK(kgl_get_tls_selector() != NULL && !kfiber_is_main(), "on a fiber of the loop");
	for (int k = 0; k < MAIN_OPS; k++) switch (CHOOSE(5)) {
	case 0: break;
	case 1: {
		int d = ND_RANGE(0, 250);
		int64_t t0 = kgl_current_msec;
		CHECK(kfiber_msleep(d) == 0, "sleeps");
		CHECK(kgl_current_msec >= t0 + d && kgl_current_msec <= t0 + d + 100, "for the time asked");
		REACH("slept");
		break;
	}
	case 2: {
		kfiber *f = NULL;
		int r = 0;
		child_ret = ND_INT();
		CHECK(kfiber_create(on_child, &child_ret, 3, 0, &f) == 0 && f != NULL, "another fiber");
		CHECK(kfiber_join(f, &r) == 0 && r == child_ret, "is waited for");
		REACH("joined");
		break;
	}
	case 3: {
		int before = posted_ran;
		kgl_selector_module.next(kgl_get_tls_selector(), (KOPAQUE)&posted_ran, on_post, &the_arg, 7);
		CHECK(posted_ran == before, "not from inside");
		kfiber_msleep(1);
		CHECK(posted_ran == before + 1, "a posted callback runs");
		REACH("posted");
		break;
	}
	case 4: {
		int before = timers_ran, d = ND_RANGE(0, 150);
		CHECK(kselector_add_timer(kgl_get_tls_selector(), on_timer, &the_arg, d, (KOPAQUE)&timers_ran) == 0, "a timer");
		kfiber_msleep(d + 1);
		CHECK(timers_ran == before + 1, "that runs");
		REACH("timer");
		break;
	}
	}
	main_done = true;
	return want_ret;
}
ENTRY(h_main)
{
	begin();
	for (int k = 0; k < MAIN_RUNS; k++) {
		uint64_t heap = vp_heap_bytes();
		int fds = open_fds(), fibers = kfiber_get_count();
		want_ret = ND_INT();
		want_argc = ND_INT();
		main_done = false;
		int r = kasync_main(prog, &the_arg, want_argc);
		CHECK(main_done && runs == k + 1, "the main function runs to its end, once");
		CHECK(r == want_ret, "its result is returned");
		CHECK(kgl_get_tls_selector() == NULL, "the thread has no loop any more");
		CHECK(kfiber_get_count() == fibers, "its fiber is gone");
		CHECK(open_fds() == fds && aio_open == 0, "everything opened for it is closed");
		CHECK(vp_heap_bytes() == heap, "and all memory is returned");
	}
	CHECK(ssl_inits == 1, "the library is set up once");
	REACH("end");
}
/* a clock set back while a main function sleeps on its own loop */
static bool went_back;
static int64_t slept_real;
static void sets_back(int tmo)
{
	slept_real += tmo;
	by_timeout(tmo);
	if (!went_back && FLIP()) { went_back = true; clock_set(clock_sec - ND_RANGE(2, 1 << 26), clock_ms); }
}
static int sleeper(void *a, int argc)
{
	int d = ND_RANGE(0, 250);
	slept_real = 0;
	CHECK(kfiber_msleep(d) == 0, "sleeps");
	CHECK(slept_real >= d, "not shorter than asked");
	CHECK(slept_real <= d + 1100, "and wakes up within its delay, wherever the clock goes");
	REACH(went_back ? "clock set back" : "clock not set back");
	return 0;
}
ENTRY(h_main_clock)
{
	begin();
	sleeping = sets_back;
	kasync_main(sleeper, NULL, 0);
	REACH("end");
}
/* a pool's loop turned by the application; callbacks of the thread's start and end; timers from before the pool */
static int hello[2][2], bye[2][2], cb_data[2];   /* by thread and callback */
static kev_result on_thread(KOPAQUE d, void *a, int got)
{
	int i = (int *)a - cb_data;
	CHECK(i == 0 || i == 1, "its argument");
	CHECK(kgl_get_tls_selector() != NULL, "on the loop's thread");
	int *h = &hello[cur_thread][i], *b = &bye[cur_thread][i];
	if (got == 0) { CHECK(*h == *b, "start, then end"); ++*h; }
	else { CHECK(got == 1 && *h == *b + 1, "start, then end"); ++*b; }
	return kev_ok;
}
struct tm_ { int64_t due; int fired; kselector *on; } T[4];
static int nT;
static kev_result on_T(KOPAQUE d, void *a, int got)
{
	struct tm_ *t = (struct tm_ *)a;
	CHECK(t >= T && t < T + nT && (void *)d == &t->fired, "its argument and data");
	CHECK(t->fired++ == 0, "once");
	CHECK(kgl_current_msec >= t->due, "not early");
	CHECK(!t->on || kgl_get_tls_selector() == t->on, "on the loop asked for");
	return kev_ok;
}
static struct tm_ *timer_new(int *d) { *d = ND_RANGE(0, 300); struct tm_ *t = &T[nT++]; t->due = kgl_current_msec + *d; return t; }
static void turns(int loops, int n)
{
	for (int k = 0; k < n; k++)
		for (int i = 0; i < loops; i++) { cur_thread = i; kselector_step(i); }
	cur_thread = 0;
}
ENTRY(h_step)
{
	begin();
	int d, cbs = CHOOSE(3), early = CHOOSE(2), loops = FLIP() ? 2 : 1;
	for (int i = 0; i < cbs; i++) CHECK(selector_manager_thread_init(on_thread, &cb_data[i]) == 0, "before the pool");
	for (int i = 0; i < early; i++) { struct tm_ *t = timer_new(&d); selector_manager_add_timer(on_T, t, d, (KOPAQUE)&t->fired); }
	selector_manager_init(loops, false);
	CHECK(selector_manager_thread_init(on_thread, &cb_data[0]) != 0, "not any more");
	for (int i = 0; i < loops; i++) { cur_thread = i; kselector_step_init(i); CHECK(kgl_get_tls_selector() == get_selector_by_index(i), "the thread's loop"); }
	for (int i = 0; i < cbs; i++) for (int k = 0; k < loops; k++) CHECK(hello[k][i] == 1 && bye[k][i] == 0, "told of each loop's start");
	cur_thread = 0;
	if (FLIP()) { struct tm_ *t = timer_new(&d); selector_manager_add_timer(on_T, t, d, (KOPAQUE)&t->fired); }
	if (FLIP()) {
		struct tm_ *t = timer_new(&d);
		cur_thread = CHOOSE(loops);
		int to = CHOOSE(loops);
		t->on = get_selector_by_index(to);
		kselector_add_timer_ts(t->on, on_T, t, d, (KOPAQUE)&t->fired);
		REACH(cur_thread == to ? "own loop" : "another loop");
	}
	turns(loops, 12);
	for (int i = 0; i < nT; i++) CHECK(T[i].fired == 1, "every timer fires");
	if (early) REACH("timer from before the pool");
	for (int i = 0; i < loops; i++) {
		cur_thread = i;
		kselector_step_exit(i);
		CHECK(kgl_get_tls_selector() == NULL && get_selector_by_index(i)->thread_id == 0, "the thread has no loop any more");
	}
	for (int i = 0; i < cbs; i++) for (int k = 0; k < loops; k++) CHECK(hello[k][i] == 1 && bye[k][i] == 1, "told of each loop's end");
	/* and the same threads may start again */
	cur_thread = 0;
	kselector_step_init(0);
	CHECK(kgl_get_tls_selector() == get_selector_by_index(0) && !(cbs && hello[0][0] != 2), "again");
	nT = 0;
	memset(T, 0, sizeof(T));
	struct tm_ *t = timer_new(&d);
	kselector_add_timer(get_selector_by_index(0), on_T, t, d, (KOPAQUE)&t->fired);
	turns(1, 6);
	CHECK(t->fired == 1, "and timers work as before");
	kselector_step_exit(0);
	REACH("end");
}
/* starting the pool's threads, the clock of the process and the hook called every second */
static int hooks;
static int64_t hook_sec;
static void on_second() { hooks++; CHECK(kgl_current_sec != hook_sec, "when the second has changed"); hook_sec = kgl_current_sec; }
ENTRY(h_start)
{
	begin();
	int n = 1 << CHOOSE(3);
	selector_manager_init(n, false);
	bool hook = FLIP();
	hook_sec = kgl_current_sec;
	selector_manager_start(hook ? on_second : NULL, true);
	CHECK(starts == n, "every loop is started");
	for (int i = 0; i < n; i++) { int seen = 0; for (int j = 0; j < starts; j++) seen += started[j] == get_selector_by_index(i); CHECK(seen == 1, "once"); }
	for (int i = 0; i < n; i++) { cur_thread = i; kselector_step_init(i); }
	sleeping = any_time;
	for (int k = 0; k < 3; k++) {
		int i = CHOOSE(n);
		int64_t before = kgl_current_msec, sec = kgl_current_sec;
		int h = hooks;
		cur_thread = i;
		kselector_step(i);
		if (i != 0) { CHECK(kgl_current_msec == before && hooks == h, "only the first loop keeps the time"); continue; }
		CHECK(kgl_current_msec == clock_msec && kgl_current_sec == clock_sec, "the time is the system's");
		CHECK(hooks == h + (hook && clock_sec != sec), "the hook is called once for each new second");
		if (hooks > h) REACH("hook");
	}
	REACH("end");
}
/* idle threads are flushed every minute */
static void long_time(int tmo) { clock_set(clock_sec + ND_RANGE(0, 70), clock_ms); }
ENTRY(h_flush)
{
	begin();
	bool reg = FLIP();
	selector_manager_init(1, reg);
	kselector_step_init(0);
	sleeping = long_time;
	int64_t t0 = kgl_current_msec;
	for (int k = 0; k < 4; k++) {
		int f = flushes;
		int64_t t = kgl_current_msec;
		kselector_step(0);
		if (k == 0) { CHECK(flushes == 0, "not at the start"); continue; }     /* the timer starts */
		CHECK(flushes - f == (reg && t >= t0 + 60000), "every minute, when asked for");
		if (flushes > f) { CHECK(last_flush == 0, "down to none"); t0 = t; REACH("flush"); }
	}
	REACH("end");
}
