/* C30: connections: their address, connecting, destruction (kconnection.c, ksocket.c, kfiber.c) */
#include "epoll_env.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netdb.h>
#include "kselector_manager.h"
#include "kserver.h"
#include "kgl_ssl.h"
union any_addr { struct sockaddr sa; struct sockaddr_in v4; struct sockaddr_in6 v6; struct sockaddr_un un; };
static any_addr A, B;
static int family_, opened_, closed_, connects, shuts, tls_frees, frees;
static bool refused, connected, has_bind, hopeless;   /* hopeless: no socket to connect with */
static char tls_obj[16], opaque_;
static int sni_obj, sni_frees;
/* any address of a family; local paths of any length, terminated or not */
static socklen_t make_addr(any_addr *a, int family)
{
	memset(a, 0, sizeof(*a));
	a->sa.sa_family = family;
	switch (family) {
	case AF_INET: a->v4.sin_port = ND_U16(); a->v4.sin_addr.s_addr = ND_U32(); return sizeof(a->v4);
	case AF_INET6:
		a->v6.sin6_port = ND_U16();
		a->v6.sin6_flowinfo = ND_U32();
		a->v6.sin6_scope_id = ND_U32();
		for (int i = 0; i < 16; i++) a->v6.sin6_addr.s6_addr[i] = ND_U8();
		return sizeof(a->v6);
	}
	static const int lens[] = { 1, 13, 14, 26, 27, 40, 107, 108 };
	int n = lens[CHOOSE(8)];
	for (int i = 0; i < n; i++) a->un.sun_path[i] = 'a' + i % 26;
	a->un.sun_path[0] = ND_CHAR();
	a->un.sun_path[n - 1] = n > 1 ? ND_CHAR() : a->un.sun_path[0];
	return offsetof(struct sockaddr_un, sun_path) + n;
}
static int any_family() { static const int f[] = { AF_INET, AF_INET6, AF_UNIX }; return f[CHOOSE(3)]; }
static socklen_t full_len(int family) { return family == AF_INET ? sizeof(A.v4) : family == AF_INET6 ? sizeof(A.v6) : sizeof(A.un); }
static bool same(const struct sockaddr *a, const any_addr *b)
{
	if (a->sa_family != b->sa.sa_family) return false;
	switch (a->sa_family) {
	case AF_INET: return ((struct sockaddr_in *)a)->sin_port == b->v4.sin_port && ((struct sockaddr_in *)a)->sin_addr.s_addr == b->v4.sin_addr.s_addr;
	case AF_INET6: {
		struct sockaddr_in6 *v = (struct sockaddr_in6 *)a;
		return v->sin6_port == b->v6.sin6_port && v->sin6_scope_id == b->v6.sin6_scope_id && !memcmp(&v->sin6_addr, &b->v6.sin6_addr, 16);
	}
	}
	return !memcmp(((struct sockaddr_un *)a)->sun_path, b->un.sun_path, sizeof(b->un.sun_path));
}
extern "C" {
void ERR_clear_error(void) {}
void srand(unsigned) {}
void klog(int, const char *, ...) {}
int socket(int family, int type, int)
{
	CHECK(family == family_ && (type & 0xf) == SOCK_STREAM && (type & SOCK_CLOEXEC) && (type & SOCK_NONBLOCK), "a stream socket of the peer's family that does not block");
	if (FLIP()) { errno = EMFILE; hopeless = true; return -1; }
	opened_++;
	return wfd;
}
int setsockopt(int fd, int, int, const void *, socklen_t) { CHECK(fd == wfd, "own descriptor"); return 0; }
int bind(int fd, const struct sockaddr *a, socklen_t len)
{
	CHECK(fd == wfd && connects == 0 && has_bind && same(a, &B) && len == full_len(B.sa.sa_family), "binds the address asked for before connecting");
	if (FLIP()) { errno = EADDRINUSE; hopeless = true; return -1; }
	return 0;
}
int connect(int fd, const struct sockaddr *a, socklen_t len)
{
	CHECK(fd == wfd && opened_ == closed_ + 1, "own descriptor");
	CHECK(same(a, &A), "connects to the recorded address");
	CHECK(len == full_len(family_), "of the family's length");
	CHECK(vp_accessible(a, len), "and no further");
	connects++;
	switch (CHOOSE(3)) {
	case 0: connected = true; kW = true; kwake(); return 0;
	case 1: errno = EINPROGRESS; return -1;
	}
	errno = ND_RANGE(1, 133);
	ASSUME(errno != EINPROGRESS);
	refused = true;
	return -1;
}
int shutdown(int fd, int) { CHECK(fd == wfd && closed_ < opened_, "own descriptor"); shuts++; connected = false; kHUP = true; kwake(); return 0; }
int close(int fd) { CHECK(fd == wfd && closed_ < opened_, "the descriptor is closed once"); closed_++; reg = queued = false; return 0; }
void SSL_free(SSL *s) { CHECK(s == (SSL *)tls_obj && !tls_frees, "the session is released once"); tls_frees++; }
int SSL_shutdown(SSL *) { return 1; }
}
static void free_sni(void *p) { CHECK(p == &sni_obj && !sni_frees, "the server name's data is released once"); sni_frees++; }
static void start()
{
	pthread_key_create(&kgl_selector_key, NULL);
	kfiber_init();
	kepoll_module_init();
	selector_manager_init(1, false);
	sel = get_selector_by_index(0);
	kselector_step_init(0);
}
/* the address of a new connection, from a block of memory that ends with the address */
static kconnection *create(int how, socklen_t len)
{
	kconnection *c = NULL;
	switch (how) {
	case 0: {
		socklen_t n = family_ == AF_UNIX ? sizeof(A.un) : sizeof(sockaddr_i);
		void *p = malloc(n);
		memcpy(p, &A, n);
		c = kconnection_new((sockaddr_i *)p);
		memset(p, 0x5a, n);
		free(p);
		break;
	}
	case 1: {
		void *p = malloc(len);
		memcpy(p, &A, len);
		c = kconnection_new3((struct sockaddr *)p, len);
		memset(p, 0x5a, len);
		free(p);
		break;
	}
	case 2: {
		struct addrinfo ai;
		memset(&ai, 0, sizeof(ai));
		void *p = malloc(len);
		memcpy(p, &A, len);
		((struct sockaddr_in *)p)->sin_port = 0;
		ai.ai_family = family_;
		ai.ai_addr = (struct sockaddr *)p;
		ai.ai_addrlen = len;
		c = kconnection_new2(&ai, ntohs(A.v4.sin_port));
		memset(p, 0x5a, len);
		free(p);
		break;
	}
	}
	return c;
}
ENTRY(h_new)
{
	family_ = any_family();
	socklen_t len = make_addr(&A, family_);
	int how = CHOOSE(3);
	if (how == 2) ASSUME(family_ != AF_UNIX);
	size_t h0 = vp_heap_bytes();
	kconnection *c = create(how, len);
	CHECK(c->st.fd == -1 && c->st.base.selector == NULL && c->server == NULL && c->st.ssl == NULL, "a new connection has nothing open");
	if (family_ == AF_UNIX) {
		CHECK(c->addr.u.sin_family == AF_UNIX && c->addr.u.size == sizeof(struct sockaddr_un) && same(c->addr.u.addr, &A), "the peer's path is recorded");
		REACH("path");
	} else CHECK(same((struct sockaddr *)&c->addr, &A), "the peer's address is recorded");
	kconnection_real_destroy(c);
	CHECK(vp_heap_bytes() == h0, "no memory stays behind");
	REACH("end");
}
static kconnection *C;
static bool fin;
static int fin_got;
static int op_data, op_arg;
static void finished(int got)
{
	CHECK(!fin, "completes once");
	fin = true;
	fin_got = got;
}
static int fiber_connect(void *, int)
{
	finished(kfiber_net_connect(C, has_bind ? (sockaddr_i *)&B : NULL, 0));
	return 0;
}
ENTRY(h_connect)
{
	start();
	family_ = any_family();
	socklen_t len = make_addr(&A, family_);
	has_bind = family_ != AF_UNIX && FLIP();
	if (has_bind) make_addr(&B, family_);
	size_t h0 = vp_heap_bytes();
	C = create(CHOOSE(2), len);
	C->st.data = (KOPAQUE)&op_data;
	ctl_fails = FLIP();
	bool in_fiber = FLIP();
	if (in_fiber) kfiber_create(fiber_connect, NULL, 0, 0, NULL);
	else {
		bool half = kconnection_half_connect(C, has_bind ? (sockaddr_i *)&B : NULL, 0);
		CHECK(half == (connects == 1 && !refused), "a connection is under way exactly when the system says so");
		if (half) {
			selectable_bind(&C->st, sel);
			kconnection_connect(C, [](KOPAQUE d, void *a, int got) {
				CHECK((int *)d == &op_data && (int *)a == &op_arg, "own data and argument");
				finished(got);
				return kev_ok;
			}, &op_arg);
		} else finished(-1);
	}
	kselector_check_timeout(sel, 0);
	CHECK(connects == 1 || hopeless, "the peer is asked");
	if (!fin && !connected) {
		kgl_selector_module.select(sel, 0);
		kselector_check_timeout(sel, 0);
		CHECK(!fin, "nothing is reported while connecting");
		switch (CHOOSE(3)) {
		case 0: connected = true; kW = true; REACH("later"); break;
		case 1: refused = true; kHUP = true; REACH("refused later"); break;
		case 2:
			/* nobody answers: the loop gives up in the end */
			kgl_current_msec += ND_RANGE(60000, 90000);
			kselector_check_timeout(sel, 0);
			CHECK(shuts > 0, "given up after the time limit");
			REACH("no answer");
			break;
		}
		kwake();
	}
	for (int i = 0; i < 3 && !fin; i++) { kgl_selector_module.select(sel, 0); kselector_check_timeout(sel, 0); }
	CHECK(fin, "completes");
	CHECK(fin_got == 0 || fin_got == -1, "success or failure");
	CHECK(fin_got == -1 || connected, "success only when connected");
	CHECK(fin_got == 0 || !connected || ctl_fails, "and then");
	CHECK(opened_ - closed_ == ksocket_opened(C->st.fd), "the connection holds the open descriptor");
	if (fin_got == 0) REACH("connected"); else REACH("failed");
	if (FLIP()) kconnection_destroy(C);
	else kconnection_real_destroy(C);
	for (int i = 0; i < 3; i++) { kselector_check_timeout(sel, 0); kgl_selector_module.select(sel, 0); }
	CHECK(opened_ == closed_ && !reg, "the descriptor is closed once");
	REACH("end");
}
static void free_opaque(KOPAQUE d) { CHECK((char *)d == &opaque_, "own data"); frees++; }
/* everything a connection can hold is released with it, once */
ENTRY(h_destroy)
{
	start();
	kgl_ssl_free_sni = free_sni;
	family_ = AF_INET;
	make_addr(&A, family_);
	size_t h0 = vp_heap_bytes();
	C = kconnection_new((sockaddr_i *)&A);
	bool fd = FLIP(), bound = FLIP(), server = FLIP(), tls = fd && FLIP(), sni = FLIP(), hs = tls && FLIP(), waits = FLIP();
	kserver *S = NULL;
	if (fd) { C->st.fd = wfd; opened_++; }
	if (bound) selectable_bind(&C->st, sel);
	if (server) { S = kserver_init(); kserver_set_opaque(S, free_opaque, (KOPAQUE)&opaque_); C->server = S; if (FLIP()) { kserver_refs(S); REACH("shared server"); } else { kserver_refs(S); kserver_release(S); S = NULL; } }
	if (tls) { C->st.ssl = (kssl_session *)xmalloc(sizeof(kssl_session)); memset(C->st.ssl, 0, sizeof(kssl_session)); C->st.ssl->ssl = (SSL *)tls_obj; C->st.ssl->handshake = hs; }
	if (sni) C->sni = &sni_obj;
	if (fd && bound && waits) {
		/* known to epoll after an earlier operation */
		char buf[4];
		kgl_iovec v = { buf, 4 };
		static bool rd;
		kW = true;
		selectable_write(&C->st, [](KOPAQUE, void *, int) { rd = true; return kev_ok; }, NULL, NULL);
		for (int i = 0; i < 3 && !rd; i++) { kgl_selector_module.select(sel, 0); kselector_check_timeout(sel, 0); }
		CHECK(rd && reg, "known to epoll");
		REACH("registered");
	}
	if (FLIP()) kconnection_destroy(C);
	else kconnection_real_destroy(C);
	CHECK(opened_ == closed_ && !reg, "the descriptor is closed once");
	CHECK(tls_frees == tls && sni_frees == sni, "the session and the server name are released");
	if (server) {
		CHECK(frees == (S == NULL ? 1 : 0), "the server loses exactly one reference");
		if (S) { kserver_release(S); CHECK(frees == 1, "the server loses exactly one reference"); }
	}
	CHECK(vp_heap_bytes() == h0, "no memory stays behind");
	REACH("end");
}
