/* C33: datagram sockets: options, addresses, sending and receiving (kudp.c, ksocket.c, kselectable.c) */
#include "epoll_env.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "kselector_manager.h"
#include "kudp.h"
#ifndef GRAMS
#define GRAMS 2
#endif
union any_addr { struct sockaddr sa; struct sockaddr_in v4; struct sockaddr_in6 v6; sockaddr_i i; };
static int flags_, opened_, closed_, sends, binds;
static bool reuse, only6, info4, info6, member;
static any_addr peer_, local_;
static uint32_t group_;
static char data_[4], room_[4];
static kgl_iovec iov[2], desc;
static int got_len, recvs, fin, fin_got;
static bool was_info;
static int op_data, op_arg;
static int family() { return flags_ & KSOCKET_ONLY_IPV6 ? AF_INET6 : AF_INET; }
static socklen_t full_len(int f) { return f == AF_INET6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in); }
static void make(any_addr *a, int f)
{
	memset(a, 0, sizeof(*a));
	a->sa.sa_family = f;
	if (f == AF_INET) { a->v4.sin_port = ND_U16(); a->v4.sin_addr.s_addr = ND_U32(); return; }
	a->v6.sin6_port = ND_U16();
	a->v6.sin6_scope_id = ND_U32();
	for (int i = 0; i < 16; i++) a->v6.sin6_addr.s6_addr[i] = ND_U8();
}
static bool same(const struct sockaddr *a, const any_addr *b)
{
	if (a->sa_family != b->sa.sa_family) return false;
	if (a->sa_family == AF_INET) return ((struct sockaddr_in *)a)->sin_port == b->v4.sin_port && ((struct sockaddr_in *)a)->sin_addr.s_addr == b->v4.sin_addr.s_addr;
	struct sockaddr_in6 *v = (struct sockaddr_in6 *)a;
	return v->sin6_port == b->v6.sin6_port && v->sin6_scope_id == b->v6.sin6_scope_id && !memcmp(&v->sin6_addr, &b->v6.sin6_addr, 16);
}
static int any_flags()
{
	int f = 0;
	if (FLIP()) f |= KSOCKET_ONLY_IPV6;
	if (FLIP()) f |= KSOCKET_IP_PKTINFO;
	if (FLIP()) f |= KSOCKET_REUSEPORT;
	if (FLIP()) f |= KSOCKET_BLOCK;
	return f;
}
extern "C" {
void srand(unsigned) {}
void klog(int, const char *, ...) {}
int socket(int f, int type, int)
{
	CHECK(f == family() && (type & 0xf) == SOCK_DGRAM && (type & SOCK_CLOEXEC), "a datagram socket of the family asked for");
	CHECK(!(type & SOCK_NONBLOCK) == !!(flags_ & KSOCKET_BLOCK), "blocks exactly when asked for");
	if (FLIP()) { errno = EMFILE; return -1; }
	opened_++;
	return wfd;
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t len)
{
	CHECK(fd == wfd && opened_ == closed_ + 1 && vp_accessible(v, len), "own descriptor");
	if (level == SOL_SOCKET && name == SO_REUSEPORT) reuse = *(const int *)v != 0;
	else if (level == IPPROTO_IPV6 && name == IPV6_V6ONLY) only6 = *(const int *)v != 0;
	else if (level == IPPROTO_IP && name == IP_PKTINFO) info4 = *(const int *)v != 0;
	else if (level == IPPROTO_IPV6 && name == IPV6_RECVPKTINFO) info6 = *(const int *)v != 0;
	else if (level == IPPROTO_IP && name == IP_ADD_MEMBERSHIP) {
		const struct ip_mreq *m = (const struct ip_mreq *)v;
		CHECK(len == sizeof(*m) && m->imr_interface.s_addr == htonl(INADDR_ANY) && m->imr_multiaddr.s_addr == group_, "joins the group asked for, on any interface");
		if (FLIP()) { errno = EINVAL; return -1; }
		member = true;
	}
	return 0;
}
int bind(int fd, const struct sockaddr *a, socklen_t len)
{
	CHECK(fd == wfd && opened_ == closed_ + 1 && same(a, &local_) && len == full_len(a->sa_family), "binds the address asked for");
	if (FLIP()) { errno = EADDRINUSE; return -1; }
	binds++;
	return 0;
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t len)
{
	CHECK(fd == wfd && opened_ == closed_ + 1 && fl == 0, "own descriptor");
	CHECK(b == data_ && (int)n == got_len, "sends exactly the packet");
	CHECK(same(a, &peer_) && len == full_len(a->sa_family), "to the address asked for");
	if (FLIP()) { errno = EAGAIN; return -1; }
	sends++;
	return n;
}
in_addr_t inet_addr(const char *s) { CHECK(s[0] == 'g' && s[1] == 0, "the group's name"); return group_; }
int shutdown(int fd, int) { CHECK(fd == wfd && opened_ == closed_ + 1, "own descriptor"); return -1; }
int close(int fd) { CHECK(fd == wfd && opened_ == closed_ + 1, "the descriptor is closed once"); closed_++; reg = queued = false; return 0; }
/* one datagram: its source, its contents and, when asked for, the address it was sent to */
ssize_t recvmsg(int fd, struct msghdr *m, int fl)
{
	CHECK(fd == wfd && fl == 0 && !fin, "receives for a pending operation");
	CHECK(recvs < 2 * GRAMS + 2, "bounded");
	recvs++;
	if (!kR) { errno = EAGAIN; return -1; }
	CHECK(m->msg_iov == iov && m->msg_iovlen == (size_t)desc.iov_len, "into the caller's buffers");
	make(&peer_, family());
	make(&local_, family());
	socklen_t n = full_len(family());
	CHECK(m->msg_name != NULL && m->msg_namelen >= n && vp_accessible(m->msg_name, m->msg_namelen), "room for the source address");
	memcpy(m->msg_name, &peer_, n);
	m->msg_namelen = n;
	m->msg_flags = 0;
	size_t room = m->msg_control ? m->msg_controllen : 0;
	m->msg_controllen = 0;
	was_info = (family() == AF_INET ? info4 : info6) && FLIP();
	if (was_info && room >= sizeof(struct cmsghdr)) {
		CHECK(vp_accessible(m->msg_control, room), "room for the control data");
		struct cmsghdr *h = (struct cmsghdr *)m->msg_control;
		struct { struct in_pktinfo p4; struct in6_pktinfo p6; } u;
		memset(&u, 0, sizeof(u));
		u.p4.ipi_ifindex = 2;
		u.p4.ipi_spec_dst.s_addr = ND_U32();
		u.p4.ipi_addr = local_.v4.sin_addr;
		u.p6.ipi6_addr = local_.v6.sin6_addr;
		u.p6.ipi6_ifindex = 2;
		size_t len = CMSG_LEN(family() == AF_INET ? sizeof(u.p4) : sizeof(u.p6));
		if (len > room) { len = room; m->msg_flags |= MSG_CTRUNC; }
		h->cmsg_level = family() == AF_INET ? IPPROTO_IP : IPPROTO_IPV6;
		h->cmsg_type = family() == AF_INET ? IP_PKTINFO : IPV6_PKTINFO;
		h->cmsg_len = len;
		memcpy(CMSG_DATA(h), family() == AF_INET ? (void *)&u.p4 : (void *)&u.p6, len - sizeof(*h));
		m->msg_controllen = len;
	}
	if (!was_info && room >= CMSG_LEN(sizeof(int)) && FLIP()) {
		/* another message, which the application asked for itself */
		struct cmsghdr *h = (struct cmsghdr *)m->msg_control;
		h->cmsg_level = family() == AF_INET ? IPPROTO_IP : IPPROTO_IPV6;
		h->cmsg_type = family() == AF_INET ? IP_TTL : IPV6_HOPLIMIT;
		h->cmsg_len = CMSG_LEN(sizeof(int));
		*(int *)CMSG_DATA(h) = 64;
		m->msg_controllen = h->cmsg_len;
		REACH("other message");
	}
	got_len = CHOOSE(4);
	int at = 0;
	for (int i = 0; i < (int)m->msg_iovlen; i++)
		for (int j = 0; j < (int)m->msg_iov[i].iov_len && at < got_len; j++) ((char *)m->msg_iov[i].iov_base)[j] = 'a' + recvs + at++;
	return got_len;
}
}
static void start()
{
	pthread_key_create(&kgl_selector_key, NULL);
	kfiber_init();
	kepoll_module_init();
	selector_manager_init(1, false);
	sel = get_selector_by_index(0);
	kselector_step_init(0);
}
static kconnection *make_socket(bool by_default)
{
	kconnection *c = by_default ? kudp_new(flags_) : kudp_new2(flags_, sel);
	if (c == NULL) { CHECK(opened_ == 0, "nothing is made only when there is no socket"); REACH("no socket"); return NULL; }
	CHECK(opened_ == 1 && c->st.fd == wfd && c->st.base.selector == sel, "an open socket on the loop");
	CHECK(only6 == !!(flags_ & KSOCKET_ONLY_IPV6) && reuse == !!(flags_ & KSOCKET_REUSEPORT), "the options asked for");
	CHECK((family() == AF_INET ? info4 : info6) == !!(flags_ & KSOCKET_IP_PKTINFO), "the destination of packets is asked for when wanted");
	return c;
}
ENTRY(h_new)
{
	start();
	flags_ = any_flags();
	uint64_t heap = vp_heap_bytes();
	kconnection *c = make_socket(FLIP());
	if (c == NULL) { CHECK(vp_heap_bytes() == heap, "nothing is left behind"); return; }
	switch (CHOOSE(4)) {
	case 0: {
		make(&local_, family());
		bool r = kudp_bind(c, &local_.i);
		CHECK(r == (binds == 1), "tells whether it is bound");
		REACH(r ? "bound" : "not bound");
		break;
	}
	case 1: {
		make(&peer_, family());
		got_len = (int)(ND_U32() & 0xffff);
		bool r = kudp_send_to(c, &peer_.i, data_, got_len);
		CHECK(r == (sends == 1), "tells whether it is sent");
		REACH(r ? "sent" : "not sent");
		break;
	}
	case 2: {
		make(&peer_, family());
		got_len = (int)(ND_U32() & 0xffff);
		int r = kudp_send(c, &peer_.sa, full_len(family()), data_, got_len);
		CHECK(r == (sends == 1 ? got_len : -1), "tells how much is sent");
		break;
	}
	case 3: {
		group_ = ND_U32();
		bool r = kudp_add_multicast(c, "g");
		CHECK(r == member, "tells whether the group is joined");
		REACH(r ? "joined" : "not joined");
		break;
	}
	}
	kconnection_destroy(c);
	CHECK(closed_ == 1 && vp_heap_bytes() == heap, "closing releases the socket and its memory");
	REACH("end");
}
static kev_result on_done(KOPAQUE d, void *a, int got)
{
	CHECK((int *)d == &op_data && (int *)a == &op_arg && !fin, "own data and argument, once");
	fin = 1;
	fin_got = got;
	return kev_ok;
}
ENTRY(h_recv)
{
	start();
	flags_ = any_flags() & ~(KSOCKET_BLOCK | KSOCKET_REUSEPORT);
	uint64_t heap = vp_heap_bytes();
	kconnection *c = make_socket(false);
	if (c == NULL) return;
	c->st.data = (KOPAQUE)&op_data;
	for (int k = 0; k < GRAMS; k++) {
		iov[0].iov_base = room_;
		iov[0].iov_len = 1;
		iov[1].iov_base = room_ + 1;
		iov[1].iov_len = 3;
		desc.iov_base = (char *)iov;
		desc.iov_len = 2;
		fin = 0;
		kR = FLIP();
		if (kR) kwake();
		selectable_read(&c->st, on_done, (buffer_callback)&desc, &op_arg);
		for (int i = 0; i < 4 && !fin; i++) {
			if (!kR && ready_list_empty()) {
				int n = recvs;
				loop_turn();
				loop_turn();
				CHECK(!fin && (recvs == n || recvs == n + 1), "waits for a packet");
				kR = true;
				kwake();
				REACH("waits");
			}
			loop_turn();
		}
		kselector_check_timeout(sel, 0);
		CHECK(fin && fin_got == got_len, "completes with the packet's length");
		for (int i = 0; i < got_len; i++) CHECK(room_[i] == 'a' + recvs + i, "and its contents");
		CHECK(same((struct sockaddr *)&c->addr, &peer_), "the source address is the sender's");
		any_addr a;
		memset(&a, 0, sizeof(a));
		bool other = FLIP();
		a.sa.sa_family = !other ? family() : family() == AF_INET ? AF_INET6 : AF_INET;
		int r = kudp_get_recvaddr(c, &a.sa);
		CHECK(r == (was_info && !other ? 0 : -1), "the destination is known exactly when it came with the packet");
		if (r == 0) {
			CHECK(family() == AF_INET ? a.v4.sin_addr.s_addr == local_.v4.sin_addr.s_addr : !memcmp(&a.v6.sin6_addr, &local_.v6.sin6_addr, 16), "and is the address it was sent to");
			REACH(family() == AF_INET ? "destination" : "destination 6");
		} else REACH("no destination");
	}
	kconnection_destroy(c);
	CHECK(closed_ == 1 && vp_heap_bytes() == heap, "closing releases the socket and its memory");
	REACH("end");
}
