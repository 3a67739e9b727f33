/* C29: listening servers over the real event loops (kserver.c, kconnection.c, ksocket.c, kepoll_selector.c) */
#ifndef LOOPS
#define LOOPS 1
#endif
#define MAXT 5
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
static void on_peer(struct sockaddr *a, socklen_t *len, int family);
static void on_bind(const struct sockaddr *a, socklen_t len);
#define NET_PEER(a, len, f) on_peer(a, len, f->family)
#define NET_BIND(a, len, f) on_bind(a, len)
#include "net_env.h"
#include "kgl_ssl.h"
VP_HARNESS_BEGIN
#ifndef STEPS
#define STEPS 4
#endif
#ifndef FAULTS
#define FAULTS 1
#endif
#ifndef CLIENTS
#define CLIENTS 1
#endif
#define PORT 4242
static int family_;
static uint16_t port_;
static const char upath[] = "/run/vp/a-socket-with-a-name-of-some-length";
static const unsigned char ip6[16] = { 0x20, 1, 0xd, 0xb8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12 };
#define IP4 0x0a010203u
static uint16_t bound_port;
static int opaque_freed;
static char opaque_;
static kserver *S;
static bool S_alive, reading;
static bool file_there, file_is_socket;
static int unlinks;
static char tls_obj[16], ctx_obj[2][16];
static int ctx_frees[2], tls_news, tls_frees, ctx_due;
static bool tls_server, tls_accepts;
static kconnection *held[8];
static int nheld, given;
static bool close_in_callback, keep_, closed;
static struct { uint16_t port; unsigned char ip[16]; int npath; char path[120]; } peer_;
static void judge_peer(kconnection *c);
static void on_bind(const struct sockaddr *a, socklen_t len)
{
	CHECK(a->sa_family == family_, "binds the server's address");
	switch (family_) {
	case AF_INET: {
		struct sockaddr_in *v = (struct sockaddr_in *)a;
		CHECK(len == sizeof(*v) && v->sin_addr.s_addr == htonl(IP4), "binds the server's address");
		CHECK(ntohs(v->sin_port) == port_ || (bound_port && ntohs(v->sin_port) == bound_port), "every loop listens on the same port");
		break;
	}
	case AF_INET6: {
		struct sockaddr_in6 *v = (struct sockaddr_in6 *)a;
		CHECK(len == sizeof(*v) && !memcmp(&v->sin6_addr, ip6, 16), "binds the server's address");
		CHECK(ntohs(v->sin6_port) == port_ || (bound_port && ntohs(v->sin6_port) == bound_port), "every loop listens on the same port");
		break;
	}
	case AF_UNIX: {
		struct sockaddr_un *v = (struct sockaddr_un *)a;
		CHECK(len <= sizeof(*v) && !strcmp(v->sun_path, upath), "binds the server's path");
		break;
	}
	}
}
/* the kernel writes a peer's address, as much as there is room for */
static void on_peer(struct sockaddr *a, socklen_t *len, int family)
{
	union { struct sockaddr_in v4; struct sockaddr_in6 v6; struct sockaddr_un un; } p;
	socklen_t n = 0;
	memset(&p, 0, sizeof(p));
	p.v4.sin_family = family;
	switch (family) {
	case AF_INET:
		peer_.port = ND_U16();
		p.v4.sin_port = peer_.port;
		p.v4.sin_addr.s_addr = ND_U32();
		memcpy(peer_.ip, &p.v4.sin_addr, 4);
		n = sizeof(p.v4);
		break;
	case AF_INET6:
		peer_.port = ND_U16();
		p.v6.sin6_port = peer_.port;
		for (int i = 0; i < 16; i += 5) peer_.ip[i] = ND_U8();
		memcpy(&p.v6.sin6_addr, peer_.ip, 16);
		n = sizeof(p.v6);
		break;
	case AF_UNIX:
		/* most clients have no name */
		peer_.npath = CHOOSE(3) * 20;
		memset(peer_.path, 0, sizeof(peer_.path));
		for (int i = 0; i + 1 < peer_.npath; i++) peer_.path[i] = 'a' + i % 26;
		memcpy(p.un.sun_path, peer_.path, peer_.npath);
		n = offsetof(struct sockaddr_un, sun_path) + peer_.npath;
		break;
	}
	memcpy(a, &p, n < *len ? n : *len);
	*len = n;
}
static void judge_peer(kconnection *c)
{
	switch (family_) {
	case AF_INET:
		CHECK(c->addr.v4.sin_family == AF_INET && c->addr.v4.sin_port == peer_.port && !memcmp(&c->addr.v4.sin_addr, peer_.ip, 4), "the peer's address is recorded");
		break;
	case AF_INET6:
		CHECK(c->addr.v6.sin6_family == AF_INET6 && c->addr.v6.sin6_port == peer_.port && !memcmp(&c->addr.v6.sin6_addr, peer_.ip, 16), "the peer's address is recorded");
		break;
	case AF_UNIX: {
		struct sockaddr_un *u = (struct sockaddr_un *)c->addr.u.addr;
		CHECK(u->sun_family == AF_UNIX && !memcmp(u->sun_path, peer_.path, sizeof(u->sun_path)), "the peer's path is recorded");
		if (peer_.npath) REACH("named peer"); else REACH("unnamed peer");
		break;
	}
	}
}
extern "C" {
int getaddrinfo(const char *host, const char *, const struct addrinfo *h, struct addrinfo **res)
{
	static struct sockaddr_in6 sa;
	static struct addrinfo ai;
	CHECK(h->ai_flags & AI_NUMERICHOST, "no name is looked up");
	if (host[0] == '?') return EAI_NONAME;
	memset(&sa, 0, sizeof(sa));
	memset(&ai, 0, sizeof(ai));
	ai.ai_family = family_;
	ai.ai_addr = (struct sockaddr *)&sa;
	ai.ai_addr->sa_family = family_;
	if (family_ == AF_INET) {
		((struct sockaddr_in *)&sa)->sin_addr.s_addr = htonl(IP4);
		ai.ai_addrlen = sizeof(struct sockaddr_in);
	} else {
		memcpy(&sa.sin6_addr, ip6, 16);
		ai.ai_addrlen = sizeof(sa);
	}
	*res = &ai;
	return 0;
}
void freeaddrinfo(struct addrinfo *) { }
int getnameinfo(const struct sockaddr *, socklen_t, char *h, socklen_t n, char *, socklen_t, int) { CHECK(n > 2, "room"); h[0] = 'x'; h[1] = 0; return 0; }
static bool noname;
int getsockname(int fd, struct sockaddr *a, socklen_t *len)
{
	if (noname) { errno = ENOTSOCK; return -1; }
	nfd *f = at_(fd);
	CHECK(f->kind == K_LISTEN || f->bound, "a bound socket");
	union { struct sockaddr_in v4; struct sockaddr_in6 v6; struct sockaddr_un un; } p;
	socklen_t n = 0;
	memset(&p, 0, sizeof(p));
	p.v4.sin_family = f->family;
	if (!bound_port) bound_port = port_ ? port_ : PORT;
	switch (f->family) {
	case AF_INET: p.v4.sin_port = htons(bound_port); p.v4.sin_addr.s_addr = htonl(IP4); n = sizeof(p.v4); break;
	case AF_INET6: p.v6.sin6_port = htons(bound_port); memcpy(&p.v6.sin6_addr, ip6, 16); n = sizeof(p.v6); break;
	case AF_UNIX: strcpy(p.un.sun_path, upath); n = offsetof(struct sockaddr_un, sun_path) + sizeof(upath); break;
	}
	memcpy(a, &p, n < *len ? n : *len);
	*len = n;
	return 0;
}
int usleep(useconds_t) { return 0; }
int stat(const char *p, struct stat *b)
{
	CHECK(!strcmp(p, upath), "looks at the server's own path");
	if (!file_there) { errno = ENOENT; return -1; }
	memset(b, 0, sizeof(*b));
	b->st_mode = file_is_socket ? S_IFSOCK : S_IFREG;
	return 0;
}
int unlink(const char *p)
{
	CHECK(!strcmp(p, upath) && (!file_there || file_is_socket), "only the server's own socket file is removed");
	unlinks++;
	return 0;
}
SSL *SSL_new(SSL_CTX *c)
{
	CHECK(c == (SSL_CTX *)ctx_obj[0] ? !ctx_frees[0] : c == (SSL_CTX *)ctx_obj[1] && !ctx_frees[1], "a context that still exists");
	CHECK(tls_server, "only a TLS server's connections have a session");
	CHECK(ctx_due == 0 || c == (SSL_CTX *)ctx_obj[1], "new connections use the replaced certificates");
	if (net_fails(C_OTHER, ENOMEM)) return NULL;
	tls_accepts = false;
	tls_news++;
	return (SSL *)tls_obj;
}
void SSL_free(SSL *) { tls_frees++; CHECK(tls_frees <= tls_news, "a session is released once"); }
int SSL_set_fd(SSL *, int fd) { CHECK(at_(fd)->kind == K_CONN, "tied to the connection"); return 1; }
void SSL_set_accept_state(SSL *) { tls_accepts = true; }
void SSL_set_connect_state(SSL *) {}
int SSL_set_ex_data(SSL *, int, void *) { return 1; }
uint64_t SSL_set_options(SSL *, uint64_t o) { return o; }
uint32_t SSL_CTX_get_max_early_data(const SSL_CTX *) { return 0; }
void SSL_CTX_free(SSL_CTX *c)
{
	int i = c == (SSL_CTX *)ctx_obj[1];
	CHECK(c == (SSL_CTX *)ctx_obj[i] && ctx_frees[i] == 0, "a context is released once");
	ctx_frees[i]++;
}
}
static void free_opaque(KOPAQUE d)
{
	CHECK((char *)d == &opaque_, "own data");
	opaque_freed++;
	CHECK(net_listeners == 0 && nheld == 0, "the server is released after its listeners and connections");
}
static void drop(int i)
{
	kconnection *c = held[i];
	held[i] = held[--nheld];
	kconnection_destroy(c);
}
static void judge_tls(kconnection *c)
{
	CHECK((c->st.ssl != NULL) == tls_server, "a TLS server's connection has a TLS session");
	if (!tls_server) return;
	CHECK(c->st.ssl->ssl == (SSL *)tls_obj && (LOOPS > 1 || tls_accepts), "of its own, waiting for the client to begin");
	REACH("session");
}
KACCEPT_CALLBACK(on_accept)
{
	kconnection *c = (kconnection *)arg;
	CHECK(c != NULL && at_(c->st.fd)->kind == K_CONN, "an accepted connection is handed over");
	CHECK(c->server == S, "it belongs to the server");
	CHECK(c->st.base.selector == kgl_get_tls_selector(), "on the loop it is bound to");
	judge_tls(c);
	for (int i = 0; i < nheld; i++) CHECK(held[i] != c, "handed over once");
	given++;
	if (LOOPS == 1) judge_peer(c);
	if (!keep_) { kconnection_destroy(c); return kev_ok; }
	CHECK(nheld < 8, "harness: connections");
	held[nheld++] = c;
	if (close_in_callback) { close_in_callback = false; if (!closed) kserver_close(S); closed = true; REACH("closed in callback"); }
	return kev_ok;
}
static void turn(int i)
{
	kselector *s = get_selector_by_index(i);
	kselector_check_timeout(s, 0);
	kgl_selector_module.select(s, 0);
	kselector_check_timeout(s, 0);
}
static kgl_ssl_ctx *new_ctx(int i) { return kgl_new_ssl_ctx((SSL_CTX *)ctx_obj[i]); }
static size_t heap0;
static int ctxs;
static void setup()
{
	kepoll_module_init();
	pthread_key_create(&kgl_selector_key, NULL);
	kfiber_init();
	clock_msec = 1000000000; clock_sec = 1000000; clock_ms = 0;
	selector_manager_init(LOOPS, false);
	kselector_step_init(0);
	heap0 = vp_heap_bytes();
	S = kserver_init();
	kserver_set_opaque(S, free_opaque, (KOPAQUE)&opaque_);
}
static bool bind_server(bool tls)
{
	kgl_ssl_ctx *x = NULL;
	static const int fam[] = { AF_INET, AF_INET6, AF_UNIX };
#ifdef FAMILY
	family_ = fam[FAMILY];
#else
	family_ = fam[CHOOSE(3)];
#endif
	port_ = family_ == AF_UNIX ? 0 : FLIP() ? 80 : 0;
	if (tls) { x = new_ctx(0); ctxs = 1; tls_server = true; }
	return kserver_bind(S, family_ == AF_UNIX ? upath : family_ == AF_INET ? "10.1.2.3" : "2001:db8::", port_, x);
}
static void finish(bool released)
{
	for (int k = 0; k < 4; k++) turn(0);
	CHECK(net_listeners == 0, "a closed server does not listen any more");
	while (nheld) drop(0);
	CHECK(net_conns_open == 0 && net_socks == 0, "every descriptor is closed");
	CHECK(opaque_freed == (released ? 1 : 0), "the server lives until its last reference is gone");
	if (!released) kserver_release(S);
	CHECK(opaque_freed == 1, "the server is released once");
	CHECK(tls_news == tls_frees, "every session is released");
	for (int i = 0; i < ctxs; i++) CHECK(ctx_frees[i] == 1, "every context is released");
	CHECK(vp_heap_bytes() == heap0, "no memory stays behind");
}
/* one loop: every history of clients, loop turns, closing, replacing the TLS context, releasing */
ENTRY(h_history)
{
	setup();
	bool tls = FLIP();
	if (!bind_server(tls)) { CHECK(false, "a valid address can be bound"); return; }
	keep_ = true;
	net_faults = 0;
	bool r = kserver_open(S, 0, on_accept);
	CHECK(r && net_listeners == 1, "opened exactly when it listens");
	net_faults = FAULTS;
	bool released = false, replaced = false;
	int refused = 0;
	for (int i = 0; i < STEPS; i++) {
		switch (CHOOSE(6)) {
		case 0: {
			int fd = net_nth_listener(0);
			if (fd < 0 || !net_connect_to(fd)) { if (closed || net_faults < FAULTS) refused++; else CHECK(false, "an open server takes connections"); }
			else CHECK(!closed, "closing stops accepting");
			break;
		}
		case 1: turn(0); turn(0); ctx_due = replaced; break;
		case 2: ASSUME(!closed); closed = true; kserver_close(S); break;
		case 3: ASSUME(nheld > 0); drop(0); break;
		case 4: ASSUME(tls && !replaced && !released); replaced = true; ctxs = 2; kserver_set_ssl_ctx(S, new_ctx(1)); if (closed) REACH("replaced after closing"); else REACH("replaced"); break;
		case 5:
			if (FLIP()) { ASSUME(closed && !released); released = true; kserver_release(S); }
			else { ASSUME(!closed && !close_in_callback); close_in_callback = true; }
			break;
		}
		if (given > 1) REACH("several");
	}
	if (!closed) { for (int k = 0; k < 3; k++) turn(0); if (net_faults == FAULTS && net_listeners) CHECK(net_backlog == 0, "an open server accepts every waiting connection"); kserver_close(S); }
	finish(released);
	CHECK(given + (FAULTS - net_faults) >= net_accepted, "every accepted connection was handed over, or closed after a failure");
	if (given) REACH("accepted");
	REACH("end");
}
/* opening with failing system calls */
ENTRY(h_open)
{
	setup();
	file_there = FLIP();
	file_is_socket = FLIP();
	bool tls = FLIP();
	if (!bind_server(tls)) { CHECK(false, "a valid address can be bound"); return; }
	/* failing calls: none, one, two; or one kind of call fails every time */
	net_faults = CHOOSE(3);
	if (net_faults == 0) net_dead = CHOOSE(4);
	bool r = kserver_open(S, 0, on_accept);
	CHECK(r == (net_listeners > 0), "opening reports success exactly when it listens");
	if (!r) {
		CHECK(net_socks == 0, "a failed open leaves nothing open");
		REACH("failed");
		kserver_release(S);
		CHECK(opaque_freed == 1, "the server is released once");
		CHECK(!tls || ctx_frees[0] == 1, "the context is released");
		CHECK(vp_heap_bytes() == heap0, "no memory stays behind");
		return;
	}
	CHECK(net_listeners <= LOOPS, "one listener for each loop");
	if (family_ == AF_UNIX && file_there && !file_is_socket) CHECK(unlinks == 0, "a file that is no socket is kept");
	net_faults = 0;
	kserver_close(S);
	if (FLIP()) {
		/* a closed server can be opened again */
		for (int k = 0; k < 4; k++) turn(0);
		CHECK(net_listeners == 0, "a closed server does not listen any more");
		net_dead = 0;
		CHECK(kserver_open(S, 0, on_accept) && net_listeners == LOOPS, "opened again");
		keep_ = true;
		int before = given;
		CHECK(net_connect_to(net_nth_listener(0)), "listens");
		for (int k = 0; k < 3; k++) turn(0);
		CHECK(given == before + 1, "and accepts");
		kserver_close(S);
		REACH("again");
	}
	finish(false);
	REACH("opened");
}
/* binding an address */
ENTRY(h_bind)
{
	setup();
	bool tls = FLIP(), bad = FLIP();
	kgl_ssl_ctx *x = NULL;
	if (tls) x = new_ctx(0);
	family_ = FLIP() ? AF_INET : AF_INET6;
	uint16_t p = ND_U16();
	bool r = kserver_bind(S, bad ? "?" : "10.1.2.3", p, x);
	CHECK(r == !bad, "binds exactly the valid addresses");
	if (r) {
		CHECK(S->addr.v4.sin_family == family_ && ksocket_addr_port(&S->addr) == p, "family and port as asked for");
		if (family_ == AF_INET) CHECK(S->addr.v4.sin_addr.s_addr == htonl(IP4), "address as asked for");
		else CHECK(!memcmp(&S->addr.v6.sin6_addr, ip6, 16), "address as asked for");
		CHECK(!KBIT_TEST(S->flags, KGL_SERVER_SSL) == !tls, "a TLS server exactly when it has a context");
	} else {
		CHECK(!tls || ctx_frees[0] == 1, "the context of a failed bind is released");
		REACH("refused");
	}
	kserver_release(S);
	CHECK(opaque_freed == 1 && (!tls || ctx_frees[0] == 1), "released once");
	CHECK(vp_heap_bytes() == heap0, "no memory stays behind");
	REACH("end");
}
/* any path of up to 130 bytes */
ENTRY(h_path)
{
	setup();
	static char path[140];
	int n = ND_RANGE(1, 130);
	memset(path, 'p', sizeof(path));
	path[0] = '/';
	n = (int)vp_concretize(n);
	path[n] = 0;
	bool r = kserver_bind(S, path, 0, NULL);
	CHECK(r || n >= (int)sizeof(S->un_addr.sun_path), "every path that fits can be bound");
	if (r) CHECK(S->un_addr.sun_family == AF_UNIX && !strcmp(ksocket_unix_path(&S->un_addr), path), "the path is kept whole");
	else REACH("too long");
	kserver_release(S);
	CHECK(vp_heap_bytes() == heap0, "no memory stays behind");
	REACH("end");
}
/* a listening descriptor made by somebody else */
ENTRY(h_adopt)
{
	setup();
	static const int fam[] = { AF_INET, AF_INET6, AF_UNIX };
	family_ = fam[CHOOSE(3)];
	port_ = 80;
	int fd = new_fd(K_LISTEN);
	nfd_[fd - FD0].family = family_;
	net_listeners = net_socks = 1;
	keep_ = true;
	if (FLIP()) {
		noname = true;
		CHECK(!kserver_open_exsit(S, fd, on_accept), "what is no socket is refused");
		noname = false;
		CHECK(at_(fd)->kind == K_LISTEN && net_listeners == 1, "and stays with its owner");
		REACH("not adopted");
	}
	CHECK(kserver_open_exsit(S, fd, on_accept), "adopted");
	if (family_ == AF_UNIX) CHECK(S->un_addr.sun_family == AF_UNIX && !strcmp(S->un_addr.sun_path, upath), "its path is known");
	else CHECK(ksocket_addr_port(&S->addr) == 80, "its port is known");
	CHECK(((S->flags & KGL_SERVER_UNIX) != 0) == (family_ == AF_UNIX), "its kind is known");
	int n = CHOOSE(3);
	for (int i = 0; i < n; i++) { CHECK(net_connect_to(fd), "listens"); turn(0); }
	turn(0);
	CHECK(given == n, "every connection is accepted");
	kserver_close(S);
	finish(false);
	REACH("end");
}
/* fibers listening and accepting */
static bool fiber_over;
static int fiber_got, fiber_clients;
static kserver_selectable *fiber_ss;
static int acceptor(void *, int)
{
	CHECK(kfiber_net_listen(S, 0, &fiber_ss) == 0, "asked from a fiber");
	CHECK((fiber_ss != NULL) == (net_listeners == 1), "listens exactly when it says so");
	if (fiber_ss == NULL) { REACH("cannot listen"); fiber_over = true; return 0; }
	for (;;) {
		kconnection *c = NULL;
		int r = kfiber_net_accept(fiber_ss, &c);
		if (r != 0 || c == NULL) break;
		CHECK(at_(c->st.fd)->kind == K_CONN && c->st.base.selector == kgl_get_tls_selector() && c->server == S, "an accepted connection");
		judge_peer(c);
		judge_tls(c);
		fiber_got++;
		kconnection_destroy(c);
	}
	kserver_selectable_destroy(fiber_ss);
	fiber_ss = NULL;
	fiber_over = true;
	return 0;
}
ENTRY(h_fiber)
{
	setup();
	bind_server(FLIP());
	int faults = net_faults = FAULTS;
	kfiber_create(acceptor, NULL, 0, 0, NULL);
	for (int i = 0; i < 14 && !fiber_ss && !fiber_over; i++) { turn(0); clock_sec++; clock_msec += 1000; kgl_current_msec += 1000; }
	for (int i = 0; i < STEPS && !fiber_over; i++) {
		if (FLIP()) { if (net_nth_listener(0) >= 0) fiber_clients += net_connect_to(net_nth_listener(0)); }
		else turn(0);
	}
	turn(0); turn(0);
	CHECK(fiber_got == fiber_clients || net_faults < faults, "every connection is accepted");
	if (!fiber_over) kserver_close(S);
	for (int i = 0; i < 4; i++) turn(0);
	CHECK(fiber_over, "a closed server wakes the fiber that accepts");
	CHECK(net_conns_open == 0 && net_listeners == 0, "every descriptor is closed");
	kserver_release(S);
	CHECK(opaque_freed == 1, "released once");
	if (fiber_got) REACH("accepted");
	REACH("end");
}
/* loops on their own threads, closed by another */
static void *loop_thread(void *a)
{
	int i = (int)(intptr_t)a;
	kselector_step_init(i);
	kselector *s = get_selector_by_index(i);
	while (!net_over) {
		kselector_check_timeout(s, 0);
		if (net_over) break;
		kgl_selector_module.select(s, 0);
	}
	return NULL;
}
static bool gone(void *) { return opaque_freed > 0; }
static void *closer(void *)
{
#ifdef REPLACE
	kserver_set_ssl_ctx(S, new_ctx(1));
	ctxs = 2;
#endif
	kserver_close(S);
	kserver_release(S);
	sched_block(gone, NULL);
	net_over = true;
	sched_event();
	return NULL;
}
ENTRY(h_loops)
{
	setup();
#ifdef REPLACE
	bool tls = true;
#else
	bool tls = false;
#endif
	bind_server(tls);
	sched_event();
	bool r = kserver_open(S, 0, on_accept);
	CHECK(r && net_listeners == LOOPS, "opened on every loop");
	int n = CHOOSE(CLIENTS + 1);
	for (int i = 0; i < n; i++) net_connect_to(net_nth_listener(CHOOSE(LOOPS)));
	for (int i = 0; i < LOOPS; i++) sched_spawn(loop_thread, (void *)(intptr_t)i);
	sched_spawn(closer, NULL);
	CHECK(sched_run() == 0, "every thread comes to its end");
	CHECK(net_listeners == 0 && net_conns_open == 0 && net_socks == 0, "every descriptor is closed");
	CHECK(opaque_freed == 1, "the server is released once");
	CHECK(given == net_accepted, "every accepted connection was handed over");
	for (int i = 0; i < ctxs; i++) CHECK(ctx_frees[i] == 1, "every context is released");
	CHECK(tls_news == tls_frees, "every session is released");
	if (given) REACH("accepted");
	REACH("end");
}
VP_HARNESS_END
