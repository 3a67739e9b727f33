/* C31: socket address helpers (ksocket.h, ksocket.c) */
#include <stdarg.h>
#include "vp.h"
#include "env.h"
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netdb.h>
#include <fcntl.h>
#include <poll.h>
#include "ksocket.h"
static sockaddr_i want;
static int family_, opened_, closed_, infos, frees;
static bool nonblock_, named_ok, fail_open;
static int opts, polls, poll_tmo;
static struct sockaddr_in6 ai_sa;
static struct addrinfo ai_;
static int fails_;                   /* which call fails, 0: none */
enum { F_SOCKET = 1, F_BIND, F_CONNECT, F_WAIT, F_LISTEN };
static int want_type;
static bool bind_given;
static int sock_type, waits_for;
static int ip_family() { return FLIP() ? AF_INET : AF_INET6; }
static void make(sockaddr_i *a, int family)
{
	memset(a, 0, sizeof(*a));
	a->v4.sin_family = family;
	if (family == AF_INET) { a->v4.sin_port = ND_U16(); a->v4.sin_addr.s_addr = ND_U32(); return; }
	a->v6.sin6_port = ND_U16();
	for (int i = 0; i < 16; i++) a->v6.sin6_addr.s6_addr[i] = ND_U8();
}
static void make_ip(ip_addr *a, int family)
{
	memset(a, 0xaa, sizeof(*a));         /* what an address does not use may hold anything */
	a->sin_family = family;
	for (int i = 0; i < 4; i++) if (i == 0 || family == AF_INET6) a->addr32[i] = ND_U32(); else a->addr32[i] = ND_U32();
}
static bool same_ip(const sockaddr_i *a, const sockaddr_i *b)
{
	if (a->v4.sin_family != b->v4.sin_family) return false;
	if (a->v4.sin_family == AF_INET) return a->v4.sin_addr.s_addr == b->v4.sin_addr.s_addr;
	return !memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, 16);
}
static bool same_ia(const ip_addr *a, const ip_addr *b)
{
	if (a->sin_family != b->sin_family) return false;
	if (a->addr32[0] != b->addr32[0]) return false;
	if (a->sin_family == AF_INET) return true;
	return (a->addr32[1] == b->addr32[1]) & (a->addr32[2] == b->addr32[2]) & (a->addr32[3] == b->addr32[3]);
}
extern "C" {
int getaddrinfo(const char *host, const char *, const struct addrinfo *h, struct addrinfo **res)
{
	CHECK(!strcmp(host, "name") , "the host asked for");
	if (fail_open) { *res = NULL; return FLIP() ? EAI_NONAME : EAI_AGAIN; }
	memset(&ai_sa, 0, sizeof(ai_sa));
	memset(&ai_, 0, sizeof(ai_));
	ai_.ai_family = family_;
	ai_.ai_addr = (struct sockaddr *)&ai_sa;
	ai_.ai_addrlen = family_ == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6);
	memcpy(&ai_sa, &want, ai_.ai_addrlen);
	ai_sa.sin6_port = 0;
	*res = &ai_;
	infos++;
	return 0;
}
void freeaddrinfo(struct addrinfo *a) { CHECK(a == &ai_ && frees < infos, "released once"); frees++; }
int getnameinfo(const struct sockaddr *a, socklen_t len, char *h, socklen_t n, char *s, socklen_t, int flags)
{
	CHECK(same_ip((const sockaddr_i *)a, &want), "the address asked about");
	CHECK(len == (family_ == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)), "with its own length");
	CHECK((flags & NI_NUMERICHOST) && s == NULL, "no name is looked up");
	CHECK(n == 40 && vp_accessible(h, n), "room for the text");
	if (!named_ok) return EAI_FAIL;
	strcpy(h, "text");
	return 0;
}
int socket(int family, int type, int)
{
	CHECK(family == family_ && (type & 0xf) == want_type && (type & SOCK_CLOEXEC), "a socket of the address's family that is not inherited");
	sock_type = type;
	if (fails_ == F_SOCKET) { errno = EMFILE; return -1; }
	opened_++;
	nonblock_ = (type & SOCK_NONBLOCK) != 0;
	return 9;
}
int setsockopt(int fd, int, int, const void *, socklen_t) { CHECK(fd == 9, "own descriptor"); opts++; return 0; }
int bind(int fd, const struct sockaddr *a, socklen_t len)
{
	CHECK(fd == 9 && (int)len == ksocket_addr_len((sockaddr_i *)a), "own descriptor");
	return fails_ == F_BIND ? -1 : 0;
}
int listen(int fd, int) { return fails_ == F_LISTEN ? -1 : 0; }
int connect(int fd, const struct sockaddr *a, socklen_t len)
{
	CHECK(fd == 9 && same_ip((const sockaddr_i *)a, &want) && (int)len == ksocket_addr_len(&want), "the address asked for");
	if (fails_ == F_CONNECT) { errno = ECONNREFUSED; return -1; }
	if (nonblock_) { errno = EINPROGRESS; return -1; }
	return 0;
}
int poll(struct pollfd *p, nfds_t n, int tmo) { CHECK(n == 1 && p->fd == 9, "own descriptor"); p->revents = 0; return fails_ == F_WAIT ? 0 : 1; }
int select(int n, fd_set *, fd_set *, fd_set *, struct timeval *) { CHECK(n == 10, "own descriptor"); return fails_ == F_WAIT ? 0 : 1; }
int close(int fd) { CHECK(fd == 9 && closed_ < opened_, "closed once"); closed_++; return 0; }
int fcntl(int fd, int cmd, ...) { CHECK(fd == 9 && cmd == F_GETFL, "asks for the flags"); return O_RDWR | (nonblock_ ? O_NONBLOCK : 0); }
int ioctl(int fd, unsigned long r, ...)
{
	va_list ap;
	va_start(ap, r);
	int *p = va_arg(ap, int *);
	va_end(ap);
	CHECK(fd == 9 && r == FIONBIO, "sets the mode");
	nonblock_ = *p != 0;
	return 0;
}
}
/* text to address and back */
ENTRY(h_text)
{
	family_ = ip_family();
	make(&want, family_);
	uint16_t port = ND_U16();
	fail_open = FLIP();
	named_ok = FLIP();
	sockaddr_i a;
	memset(&a, 0x33, sizeof(a));
	bool r = ksocket_getaddr("name", port, AF_UNSPEC, AI_NUMERICHOST, &a);
	CHECK(r == !fail_open && frees == infos, "success as the system says, and nothing is left behind");
	if (!r) { REACH("unknown"); return; }
	CHECK(same_ip(&a, &want) && ksocket_addr_port(&a) == port, "address, family and port are kept");
	CHECK(ksocket_addr_len(&a) == (int)(family_ == AF_INET ? sizeof(a.v4) : sizeof(a.v6)), "length of the family");
	ip_addr ia;
	memset(&ia, 0x44, sizeof(ia));
	CHECK(ksocket_get_ipaddr("name", &ia), "the same for plain addresses");
	CHECK(ia.sin_family == family_ && !memcmp(ia.addr8, family_ == AF_INET ? (void *)&want.v4.sin_addr : (void *)&want.v6.sin6_addr, family_ == AF_INET ? 4 : 16), "address and family are kept");
	CHECK(frees == infos, "nothing is left behind");
	char buf[40];
	memset(buf, 'x', sizeof(buf));
	bool n = ksocket_sockaddr_ip(&a, buf, sizeof(buf));
	CHECK(n == named_ok && !strcmp(buf, named_ok ? "text" : ""), "text exactly when there is one");
	memset(buf, 'x', sizeof(buf));
	n = ksocket_ipaddr_ip(&ia, buf, sizeof(buf));
	CHECK(n == named_ok && !strcmp(buf, named_ok ? "text" : ""), "text exactly when there is one");
	REACH("end");
}
/* comparing and hashing socket addresses */
ENTRY(h_compare)
{
	sockaddr_i a, b, c;
	make(&a, ip_family());
	make(&b, ip_family());
	make(&c, ip_family());
	int ab = ksocket_addr_compare(&a, &b), ba = ksocket_addr_compare(&b, &a);
	CHECK((ab == 0) == same_ip(&a, &b), "equal exactly when family and address are");
	CHECK((ab < 0) == (ba > 0) && (ab > 0) == (ba < 0), "a before b exactly when b after a");
	if (ab == 0) { CHECK(ksocket_addr_hash(&a) == ksocket_addr_hash(&b), "equal addresses hash alike"); REACH("equal"); }
	if (ab < 0 && ksocket_addr_compare(&b, &c) < 0) { CHECK(ksocket_addr_compare(&a, &c) < 0, "ordered"); REACH("ordered"); }
	REACH("end");
}
/* the same for plain addresses */
ENTRY(h_ipaddr)
{
	ip_addr a, b, c;
	make_ip(&a, ip_family());
	make_ip(&b, ip_family());
	make_ip(&c, ip_family());
	int ab = ksocket_ipaddr_compare(&a, &b), ba = ksocket_ipaddr_compare(&b, &a);
	bool eq = same_ia(&a, &b);
	CHECK((ab == 0) == eq && (a == b) == eq, "equal exactly when family and address are");
	CHECK((ab < 0) == (ba > 0) && (ab > 0) == (ba < 0), "a before b exactly when b after a");
	CHECK(!(a < b) || !(b < a), "one order");
	CHECK(eq == (!(a < b) && !(b < a)), "ordered unless equal");
	if (a < b && b < c) { CHECK(a < c, "ordered"); REACH("ordered"); }
	if (eq) { CHECK(a.get_hash() == b.get_hash(), "equal addresses hash alike"); REACH("equal"); }
	REACH("end");
}
ENTRY(h_hash_of_converted)
{
	sockaddr_i s;
	make(&s, ip_family());
	ip_addr a, b;
	memset(&a, 0x11, sizeof(a));
	memset(&b, 0x77, sizeof(b));
	ksocket_ipaddr(&s, &a);
	ksocket_ipaddr(&s, &b);
	CHECK(a == b && ksocket_ipaddr_compare(&a, &b) == 0, "the same address");
	CHECK(a.get_hash() == b.get_hash(), "equal addresses hash alike");
	REACH("end");
}
/* masking */
ENTRY(h_mask)
{
	int f = ip_family();
	ip_addr a, m, r, o;
	make_ip(&a, f);
	make_ip(&m, f);
	memset(&r, 0x55, sizeof(r));
	ksocket_ipaddr_and(&a, &m, &r);
	o = a & m;
	for (int i = 0; i < (f == AF_INET ? 1 : 4); i++) {
		CHECK(r.addr32[i] == (a.addr32[i] & m.addr32[i]), "exactly the mask's bits are kept");
		CHECK(o.addr32[i] == (a.addr32[i] & m.addr32[i]), "exactly the mask's bits are kept");
	}
	CHECK(r.sin_family == f && o.sin_family == f, "of the same family");
	/* in place */
	ip_addr k = a;
	ksocket_ipaddr_and(&a, &m, &a);
	CHECK(a == r, "the same in place");
	CHECK((k & m) == ((k & m) & m), "masking again changes nothing");
	REACH("end");
}
/* every way to get a socket: its descriptor is returned or closed */
ENTRY(h_sockets)
{
	family_ = ip_family();
	make(&want, family_);
	fails_ = CHOOSE(6);
	sockaddr_i b;
	int flag = 0;
	SOCKET s = -1;
	bind_given = FLIP();
	if (bind_given) make(&b, family_);
	bool may_fail = fails_ == F_SOCKET;
	want_type = SOCK_STREAM;
	bool block = FLIP();
	if (block) flag |= KSOCKET_BLOCK;
	if (FLIP()) flag |= KSOCKET_REUSEPORT;
	switch (CHOOSE(4)) {
	case 0:
		want_type = SOCK_DGRAM;
		s = ksocket_new_udp(family_, flag);
		CHECK(s < 0 || nonblock_ == !block, "blocks as asked for");
		break;
	case 1:
		s = ksocket_listen(&want, flag);
		may_fail |= fails_ == F_BIND || fails_ == F_LISTEN;
		CHECK(s < 0 || nonblock_ == !block, "blocks as asked for");
		break;
	case 2: {
		int tmo = ND_RANGE(0, 100);
		s = ksocket_connect(&want, bind_given ? &b : NULL, tmo);
		may_fail |= (fails_ == F_BIND && bind_given) || fails_ == F_CONNECT || (fails_ == F_WAIT && tmo > 0);
		break;
	}
	case 3:
		s = ksocket_half_connect(&want, bind_given ? &b : NULL, 0);
		may_fail |= (fails_ == F_BIND && bind_given) || fails_ == F_CONNECT;
		CHECK(s < 0 || nonblock_, "does not block");
		break;
	}
	CHECK(ksocket_opened(s) == !may_fail, "fails exactly when the system does");
	CHECK(s == (may_fail ? -1 : 9) && opened_ - closed_ == (may_fail ? 0 : 1), "the descriptor is returned or closed");
	if (may_fail) REACH("failed");
	REACH("end");
}
/* blocking mode */
ENTRY(h_mode)
{
	nonblock_ = FLIP();
	for (int i = 0; i < 2; i++) {
		CHECK(ksocket_is_block(9) == !nonblock_, "the mode is told");
		if (FLIP()) { ksocket_no_block(9); CHECK(nonblock_, "does not block any more"); }
		else { ksocket_block(9); CHECK(!nonblock_, "blocks"); }
	}
	CHECK(ksocket_is_block(9) == !nonblock_, "the mode is told");
	REACH("end");
}
