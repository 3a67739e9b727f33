/* A model of the TLS library's interface for one connection, for the real code above it.
 * Every call returns one of the results the library documents; what the outcome was is
 * remembered for the harness to judge what the code reports. */
/* other connections use the library in the same thread meanwhile */
static bool tls_queue = true;        /* an error is left in the thread's error queue */
#define EPOLL_TURN() (tls_queue = true)
#include "epoll_env.h"
#include "kgl_ssl.h"
#ifndef CALLS
#define CALLS 3
#endif
static char tls_obj[16], tls_ctx_obj[16];
#define TLS ((SSL *)tls_obj)
#define TLS_CTX ((SSL_CTX *)tls_ctx_obj)
static kconnection *C;
static int op_data, op_arg;
enum { FINE, WANT, CLOSED, FATAL };
static int tls_state;                /* how the last call ended */
static int tls_err;                  /* what SSL_get_error says about it */
static int tls_ret;                  /* what the last call returned */
static int tls_calls;                /* calls that may still fail */
static int tls_allocs, tls_frees;
static bool tls_accepting, early_offered, early_over, hs_over;
static int early_left, pending_left, alert_errno;
static void *tls_owner;
/* a failing outcome; want: the direction a call of this kind can wait for */
static int tls_fail(int want)
{
	tls_state = WANT + CHOOSE(3);
	switch (tls_state) {
	case WANT:
		tls_err = want;
		errno = ND_BOOL() ? EAGAIN : 0;
		break;
	case CLOSED:
		tls_err = SSL_ERROR_ZERO_RETURN;
		errno = 0;
		break;
	case FATAL:
		tls_err = FLIP() ? SSL_ERROR_SSL : SSL_ERROR_SYSCALL;
		if (tls_err == SSL_ERROR_SSL) tls_queue = true;
		/* sending the alert may have found the socket full */
		errno = tls_err == SSL_ERROR_SSL ? (ND_BOOL() ? EAGAIN : 0) : ECONNRESET;
		break;
	}
	return tls_ret = tls_state == CLOSED ? 0 : -1;
}
static int tls_again() { return tls_ret; }
extern "C" {
void klog(int, const char *, ...) {}
SSL *SSL_new(SSL_CTX *c) { CHECK(c == TLS_CTX, "own context"); if (FLIP()) { tls_allocs++; return TLS; } return NULL; }
void SSL_free(SSL *s) { CHECK(s == TLS && tls_frees < tls_allocs, "the session is released once"); tls_frees++; }
int SSL_set_fd(SSL *s, int fd) { CHECK(s == TLS && fd == wfd, "the session is tied to the connection's descriptor"); return FLIP(); }
void SSL_set_connect_state(SSL *s) { CHECK(s == TLS, "own session"); tls_accepting = false; }
void SSL_set_accept_state(SSL *s) { CHECK(s == TLS, "own session"); tls_accepting = true; }
int SSL_set_ex_data(SSL *s, int idx, void *p) { tls_owner = p; return 1; }
uint64_t SSL_set_options(SSL *s, uint64_t o) { return o; }
uint32_t SSL_CTX_get_max_early_data(const SSL_CTX *c) { return early_offered ? 16384 : 0; }
int SSL_get_error(const SSL *s, int ret)
{
	CHECK(s == TLS && ret <= 0, "asked about a failed call");
	/* an error in the queue counts as this session's, whoever left it there */
	if (tls_queue) return SSL_ERROR_SSL;
	return tls_state == FINE || tls_err == SSL_ERROR_SSL ? SSL_ERROR_SYSCALL : tls_err;
}
void ERR_clear_error(void) { tls_queue = false; }
int SSL_pending(const SSL *s) { return pending_left; }
}
