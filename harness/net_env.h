/* A model of the kernel's sockets and epoll for any number of descriptors and event loops:
 * descriptor numbers are reused as soon as they are closed; listeners queue connections,
 * edge-triggered interest is reported once per edge, event counters as long as they are not 0. */
#ifndef NET_ENV_H
#define NET_ENV_H
#include "vp_sched.h"
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netdb.h>
#include <stdarg.h>
#include "kselector.h"
#include "kselector_manager.h"
#include "kselectable.h"
#include "kepoll_selector.h"
#include "kconnection.h"
#include "kserver.h"
#include "kfiber.h"
VP_HARNESS_BEGIN
#define FD0 3
#define NFDS 24
enum { K_FREE, K_EPOLL, K_EVENT, K_SOCK, K_LISTEN, K_CONN };
static struct nfd {
	int kind, ep, family;
	uint32_t interest;
	void *ptr;
	bool queued, bound, shut;
	int pending;                 /* connections waiting to be accepted */
	uint64_t count;
} nfd_[NFDS];
static int net_accepted, net_conns_open, net_listeners, net_socks;
static int net_faults;               /* system calls that may still fail */
static int net_backlog;              /* connections not yet accepted, all listeners */
static bool net_over;                /* nothing more will come: loops may end */
static nfd *at_(int fd) { CHECK(fd >= FD0 && fd < FD0 + NFDS && nfd_[fd - FD0].kind != K_FREE, "the descriptor is open"); return &nfd_[fd - FD0]; }
static int new_fd(int kind)
{
	for (int i = 0; i < NFDS; i++) if (nfd_[i].kind == K_FREE) { memset(&nfd_[i], 0, sizeof(nfd)); nfd_[i].kind = kind; return FD0 + i; }
	CHECK(false, "harness: descriptors");
	return -1;
}
enum { C_SOCKET = 1, C_BIND, C_LISTEN, C_ACCEPT, C_CTL, C_OTHER };
static int net_dead;                 /* a kind of call that always fails */
static bool net_fails(int kind, int e)
{
	if (kind == net_dead) { errno = e; return true; }
	if (net_faults <= 0 || !FLIP()) return false;
	net_faults--;
	errno = e;
	return true;
}
static uint32_t net_mask(nfd *f)
{
	switch (f->kind) {
	case K_EVENT: return f->count ? EPOLLIN : 0;
	case K_LISTEN: return f->shut ? EPOLLIN | EPOLLHUP | EPOLLRDHUP : f->pending ? EPOLLIN : 0;
	}
	return 0;
}
static uint32_t net_report(nfd *f) { return net_mask(f) & (f->interest | EPOLLHUP | EPOLLERR); }
static void net_wake(nfd *f) { if (f->ep && net_report(f)) { f->queued = true; sched_event(); } }
static void net_drop(nfd *f) { f->ep = 0; f->queued = false; }
/* a client connects; false when nobody listens there */
static bool net_connect_to(int fd)
{
	nfd *f = &nfd_[fd - FD0];
	if (f->kind != K_LISTEN || f->shut) return false;
	f->pending++;
	net_backlog++;
	net_wake(f);
	return true;
}
static int net_nth_listener(int k)
{
	for (int i = 0; i < NFDS; i++) if (nfd_[i].kind == K_LISTEN && k-- == 0) return FD0 + i;
	return -1;
}
static bool net_ep_ready(int ep)
{
	for (int i = 0; i < NFDS; i++)
		if (nfd_[i].kind != K_FREE && nfd_[i].ep == ep && (nfd_[i].kind == K_EVENT ? net_report(&nfd_[i]) != 0 : nfd_[i].queued)) return true;
	return false;
}
static bool net_wait_ready(void *a) { return net_over || net_ep_ready((int)(intptr_t)a); }
#ifndef NET_PEER
#define NET_PEER(addr, len, f) do { } while (0)
#endif
#ifndef NET_BIND
#define NET_BIND(addr, len, f) do { } while (0)
#endif
extern "C" {
int epoll_create1(int) { return new_fd(K_EPOLL); }
int epoll_create(int) { return new_fd(K_EPOLL); }
int eventfd(unsigned int c, int) { int fd = new_fd(K_EVENT); nfd_[fd - FD0].count = c; return fd; }
long syscall(long n, ...) { CHECK(n == SYS_io_setup || n == SYS_io_destroy, "only aio setup calls here"); return 0; }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	sched_point();
	CHECK(at_(ep)->kind == K_EPOLL, "an epoll descriptor");
	nfd *f = at_(fd);
	if (op == EPOLL_CTL_DEL) { CHECK(f->ep == ep, "a descriptor that is not registered is not removed"); net_drop(f); return 0; }
	if (f->kind == K_LISTEN && net_fails(C_CTL, ENOMEM)) return -1;
	CHECK(op == EPOLL_CTL_ADD ? f->ep == 0 : f->ep == ep, "added when unknown, modified when known");
	f->ep = ep;
	f->interest = ev->events;
	f->ptr = ev->data.ptr;
	f->queued = false;
	net_wake(f);
	return 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int)
{
	sched_point();
	if (vp_in_thread) sched_block(net_wait_ready, (void *)(intptr_t)ep);
	int who[NFDS], n = 0, k = 0;
	for (int i = 0; i < NFDS; i++) {
		nfd *f = &nfd_[i];
		if (f->kind == K_FREE || f->ep != ep || (f->kind != K_EVENT && !f->queued) || !net_report(f)) continue;
		who[n++] = i;
	}
	bool back = n > 1 && FLIP();         /* in either order */
	for (; k < n && k < max; k++) {
		nfd *f = &nfd_[who[back ? n - 1 - k : k]];
		f->queued = false;
		ev[k].events = net_report(f);
		ev[k].data.ptr = f->ptr;
	}
	return k;
}
ssize_t read(int fd, void *b, size_t n)
{
	sched_point();
	nfd *f = at_(fd);
	CHECK(f->kind == K_EVENT && n == 8 && f->count > 0, "reads an event counter that is not 0");
	*(uint64_t *)b = f->count;
	f->count = 0;
	return 8;
}
ssize_t write(int fd, const void *b, size_t n)
{
	sched_point();
	nfd *f = at_(fd);
	CHECK(f->kind == K_EVENT && n == 8 && *(uint64_t *)b > 0, "adds to an event counter");
	f->count += *(uint64_t *)b;
	sched_event();
	return 8;
}
int socket(int family, int type, int)
{
	CHECK((type & 0xf) == SOCK_STREAM && (type & SOCK_CLOEXEC), "a stream socket that is not inherited");
	if (net_fails(C_SOCKET, EMFILE)) return -1;
	int fd = new_fd(K_SOCK);
	nfd_[fd - FD0].family = family;
	CHECK(type & SOCK_NONBLOCK, "operations do not block the loop");
	net_socks++;
	return fd;
}
int setsockopt(int fd, int, int, const void *, socklen_t) { at_(fd); return 0; }
int bind(int fd, const struct sockaddr *a, socklen_t len)
{
	nfd *f = at_(fd);
	CHECK(f->kind == K_SOCK && !f->bound && a->sa_family == f->family, "binds a new socket of the address's family");
	if (net_fails(C_BIND, EADDRINUSE)) return -1;
	NET_BIND(a, len, f);
	f->bound = true;
	return 0;
}
int listen(int fd, int)
{
	nfd *f = at_(fd);
	CHECK(f->kind == K_SOCK && f->bound, "listens after binding");
	if (net_fails(C_LISTEN, EADDRINUSE)) return -1;
	f->kind = K_LISTEN;
	net_listeners++;
	return 0;
}
int accept4(int fd, struct sockaddr *a, socklen_t *len, int flags)
{
	sched_point();
	nfd *f = at_(fd);
	CHECK((flags & SOCK_NONBLOCK) && (flags & SOCK_CLOEXEC), "accepted descriptors do not block and are not inherited");
	if (f->shut || f->kind != K_LISTEN) { errno = EINVAL; return -1; }
	if (f->pending == 0) { errno = EAGAIN; return -1; }
	if (net_fails(C_ACCEPT, EMFILE)) return -1;
	f->pending--;
	net_backlog--;
	int c = new_fd(K_CONN);
	NET_PEER(a, len, f);
	net_conns_open++;
	net_accepted++;
	return c;
}
int shutdown(int fd, int)
{
	sched_point();
	if (fd == -1) { errno = EBADF; return -1; }
	nfd *f = at_(fd);
	CHECK(f->kind == K_LISTEN || f->kind == K_CONN || f->kind == K_SOCK, "a socket is shut down");
	if (f->kind == K_LISTEN) {
		net_backlog -= f->pending;
		f->pending = 0;
		f->shut = true;
		net_wake(f);
	}
	return 0;
}
int close(int fd)
{
	nfd *f = at_(fd);
	net_conns_open -= f->kind == K_CONN;
	net_listeners -= f->kind == K_LISTEN;
	net_socks -= f->kind == K_SOCK || f->kind == K_LISTEN;
	net_backlog -= f->pending;
	f->kind = K_FREE;
	sched_event();
	sched_point();
	return 0;
}
void srand(unsigned) {}
void klog(int, const char *, ...) {}
}
VP_HARNESS_END
#endif
