/* C27: TLS handshake and shutdown over the real event loop (kgl_ssl.c, kconnection.c, kfiber.c) */
#include "tls_env.h"
#include "kselector_manager.h"
#include "kfiber.h"
#ifndef TRIES
#define TRIES 4
#endif
enum { DO_HANDSHAKE, DO_SHUTDOWN };
enum { NOTHING, READABLE, WRITABLE, SUCCESS, FAILURE };
static int doing, calls, expect;
static bool armed, fin, in_fiber, hup;
static int fin_got, fin_count;
static int shut_calls, fd_shutdowns, fd_closes;
static bool via_close;
static int verdict_of(int err)
{
	switch (err) {
	case SSL_ERROR_WANT_READ: return READABLE;
	case SSL_ERROR_WANT_WRITE: return WRITABLE;
	case SSL_ERROR_WANT_CONNECT: case SSL_ERROR_WANT_ACCEPT: return doing == DO_HANDSHAKE ? WRITABLE : FAILURE;
	}
	return FAILURE;
}
/* one call of the library: succeeds or fails with any of its error codes */
static int outcome(int success, int failure)
{
	CHECK(armed, "no call before the descriptor is ready");
	armed = false;
	CHECK(calls < TRIES, "bounded");
	calls++;
	if (FLIP()) { expect = SUCCESS; tls_state = FINE; return success; }
	tls_err = CHOOSE(11) + 1;
	if (calls == TRIES || hup) ASSUME(verdict_of(tls_err) == FAILURE);
	tls_state = FATAL;
	if (tls_err == SSL_ERROR_SSL) tls_queue = true;
	errno = ND_RANGE(0, 133);
	expect = verdict_of(tls_err);
	return failure;
}
extern "C" {
void srand(unsigned) {}
int SSL_do_handshake(SSL *s)
{
	CHECK(s == TLS && doing == DO_HANDSHAKE && !fin, "a handshake is under way");
	CHECK(!early_offered || early_over, "the early data comes first");
	tls_queue = false;                   /* the library's handshake forgets old errors itself */
	return outcome(1, FLIP() ? -1 : 0);
}
int SSL_read_early_data(SSL *s, void *buf, size_t n, size_t *got)
{
	CHECK(early_offered && !early_over && doing == DO_HANDSHAKE && n == 1, "one byte of early data is looked for");
	*got = 0;
	if (FLIP()) {
		early_over = true;
		return SSL_READ_EARLY_DATA_FINISH;      /* the handshake follows at once */
	}
	int r = outcome(SSL_READ_EARLY_DATA_SUCCESS, SSL_READ_EARLY_DATA_ERROR);
	if (r == SSL_READ_EARLY_DATA_SUCCESS) { *(char *)buf = 'e'; *got = 1; }
	return r;
}
int SSL_shutdown(SSL *s)
{
	CHECK(s == TLS && doing == DO_SHUTDOWN, "a shutdown is under way");
	CHECK(tls_frees == 0 && fd_closes == 0, "while the session and the descriptor exist");
	shut_calls++;
	return outcome(1, FLIP() ? -1 : 0);
}
int shutdown(int fd, int how) { CHECK(fd == wfd && fd_closes == 0, "own descriptor"); fd_shutdowns++; return 0; }
int close(int fd) { CHECK(fd == wfd && fd_closes == 0, "the descriptor is closed once"); fd_closes++; return 0; }
}
static void finished(int got)
{
	CHECK(!fin, "completes once");
	fin = true;
	fin_got = got;
}
static void judge_handshake()
{
	CHECK(expect == SUCCESS || expect == FAILURE || hup, "completes only with the library's verdict");
	CHECK((fin_got == 0) == (expect == SUCCESS), "success exactly when the library finished it");
	CHECK(fin_got == 0 || fin_got == -1, "success or failure");
	REACH(fin_got == 0 ? "succeeded" : "failed");
}
static int fiber_handshake(void *, int) { finished(kfiber_ssl_handshake(C)); return 0; }
static void start(bool early, bool client)
{
	pthread_key_create(&kgl_selector_key, NULL);
	kfiber_init();
	kepoll_module_init();
	selector_manager_init(1, false);
	sel = get_selector_by_index(0);
	kselector_step_init(0);
	C = kconnection_new(NULL);
	C->st.base.selector = sel;
	C->st.fd = wfd;
	C->st.data = (KOPAQUE)&op_data;
	early_offered = early;
	if (!(client ? kconnection_ssl_connect(C, TLS_CTX, NULL) : kconnection_ssl_accept(C, TLS_CTX))) VP_STOP();
}
/* brings the events the operation may wait for */
static void drive(bool hang)
{
	for (int i = 0; i < 2 * TRIES + 2 && !fin; i++) {
		if (!ready_list_empty()) { kselector_check_timeout(sel, 0); continue; }
		if (expect == READABLE || expect == WRITABLE) {
			int c = calls;
			queued = false;
			kR = expect == WRITABLE;
			kW = expect == READABLE;
			kwake();
			kselector_check_timeout(sel, 0);
			kgl_selector_module.select(sel, 0);
			kselector_check_timeout(sel, 0);
			CHECK(calls == c && !fin, expect == READABLE ? "nothing happens until readable" : expect == WRITABLE ? "nothing happens until writable" : "nothing happens before");
			REACH(expect == READABLE ? "waits to read" : "waits to write");
			armed = true;
			if (hang && FLIP()) { hup = true; kHUP = true; REACH("hang-up"); }
			else { kR = expect == READABLE; kW = !kR; }
			kwake();
		}
		kselector_check_timeout(sel, 0);
		kgl_selector_module.select(sel, 0);
	}
	CHECK(fin, "the operation completes in the end");
}
ENTRY(h_handshake)
{
	bool early = FLIP(), client = FLIP();
	start(early, client);
	doing = DO_HANDSHAKE;
	armed = true;
	if (FLIP()) kfiber_create(fiber_handshake, NULL, 0, 0, NULL);
	else kconnection_ssl_handshake(C, [](KOPAQUE d, void *a, int got) {
		CHECK((int *)d == &op_data && (int *)a == &op_arg, "own data and argument");
		finished(got);
		return kev_ok;
	}, &op_arg);
	drive(true);
	judge_handshake();
	if (early_offered && !early_over && fin_got == 0) REACH("early");
	REACH("end");
}
static int fiber_close(void *, int)
{
	kfiber_net_close(C);
	finished(0);
	return 0;
}
static int fiber_shutdown_close(void *, int)
{
	kfiber_net_shutdown(C);
	int n = shut_calls;
	CHECK(fd_shutdowns == 1 && fd_closes == 0, "shut down, still open");
	kfiber_net_close(C);
	CHECK(shut_calls == n, "the session is shut down once");
	finished(0);
	return 0;
}
ENTRY(h_shutdown)
{
	start(false, FLIP());
	bool hs = FLIP(), err = FLIP();
	doing = DO_HANDSHAKE;
	if (hs) {
		armed = true;
		kconnection_ssl_handshake(C, [](KOPAQUE, void *, int got) { if (got != 0) VP_STOP(); return kev_ok; }, &op_arg);
		if (expect != SUCCESS) VP_STOP();
		expect = NOTHING;
		calls = 0;
	}
	doing = DO_SHUTDOWN;
	armed = true;
	/* the peer broke the connection before */
	if (err) KBIT_SET(C->st.base.st_flags, STF_ERR);
	switch (CHOOSE(3)) {
	case 0: kfiber_create(fiber_close, NULL, 0, 0, NULL); drive(true); break;
	case 1: kfiber_create(fiber_shutdown_close, NULL, 0, 0, NULL); drive(true); break;
	case 2:
		kconnection_destroy(C);
		for (int i = 0; i < 2 * TRIES + 2 && fd_closes == 0; i++) {
			if (!ready_list_empty()) { kselector_check_timeout(sel, 0); continue; }
			if (expect == READABLE || expect == WRITABLE) {
				int c = calls;
				queued = false;
				kR = expect == WRITABLE;
				kW = expect == READABLE;
				kwake();
				kselector_check_timeout(sel, 0);
				kgl_selector_module.select(sel, 0);
				kselector_check_timeout(sel, 0);
				CHECK(calls == c && fd_closes == 0, expect == READABLE ? "nothing happens until readable" : "nothing happens until writable");
				armed = true;
				kR = expect == READABLE;
				kW = !kR;
				kwake();
			}
			kselector_check_timeout(sel, 0);
			kgl_selector_module.select(sel, 0);
		}
		REACH("destroyed");
	}
	CHECK(expect == SUCCESS || expect == FAILURE || expect == NOTHING || hup, "not closed while the library still wants to go on");
	CHECK((shut_calls > 0) == (hs && !err), "a session is shut down when it was set up and the connection is not broken");
	CHECK(fd_closes == 1 && tls_frees == tls_allocs, "the descriptor and the session are released once");
	REACH("end");
}
/* every status for itself */
ENTRY(h_status)
{
	tls_err = ND_RANGE(0, 100);
	ASSUME(tls_err != 0);
	errno = ND_RANGE(0, 133);
	tls_state = FATAL;
	tls_queue = tls_err == SSL_ERROR_SSL;
	kssl_status s = kgl_ssl_handshake_status(TLS, FLIP() ? -1 : 0);
	kssl_status want = tls_err == SSL_ERROR_WANT_READ ? ret_want_read :
		tls_err == SSL_ERROR_WANT_WRITE || tls_err == SSL_ERROR_WANT_CONNECT || tls_err == SSL_ERROR_WANT_ACCEPT ? ret_want_write : ret_error;
	CHECK(s == want || (tls_err == SSL_ERROR_WANT_X509_LOOKUP && s == ret_sni_resolve), "every status maps to its step");
	REACH("end");
}
