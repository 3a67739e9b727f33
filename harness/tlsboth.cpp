/* C26: a reader and a writer on one TLS connection at the same time, records arriving and the
 * socket filling and draining at any moment, over the real event loop */
#include "tls_env.h"
#ifndef STEPS
#define STEPS 5
#endif
#define RECS 2
#define MAXB 8
static int rec[RECS], recs, taken;   /* records that arrived, records the library took off the socket */
static int held;                     /* decrypted bytes not handed out yet */
static int in_all, in_read, out_all, space, fillups;
static bool r_pend, w_pend;
static int r_n, w_n, r_got, w_got, reads, writes;
static char rb[4], wb[4];
static kgl_iovec rv[2], wv[1], rdesc, wdesc;
static int blocked_r, blocked_w;     /* calls that met an empty or full socket since the last event */
static int would_block(int err)
{
	tls_state = WANT;
	tls_err = err;
	errno = EAGAIN;
	return tls_ret = -1;
}
extern "C" {
int SSL_do_handshake(SSL *s) { tls_state = FINE; return 1; }
int SSL_read(SSL *s, void *buf, int n)
{
	CHECK(r_pend && n > 0, "reads only for a reader");
	if (held == 0) {
		if (taken == recs) { CHECK(blocked_r++ < 2, "an empty socket is not read over and over"); return would_block(SSL_ERROR_WANT_READ); }
		held = pending_left = rec[taken++];
		kR = taken < recs;
	}
	int k = n < held ? n : held;
	for (int i = 0; i < k; i++) ((char *)buf)[i] = (char)('a' + in_read++);
	pending_left = held -= k;
	r_got += k;
	tls_state = FINE;
	errno = EAGAIN;                      /* left over from anywhere */
	return tls_ret = k;
}
int SSL_write(SSL *s, const void *buf, int n)
{
	CHECK(w_pend && n == w_n && buf == wb, "writes only for a writer, its whole buffer");
	if (!kW) { CHECK(blocked_w++ < 2, "a full socket is not written over and over"); return would_block(SSL_ERROR_WANT_WRITE); }
	for (int i = 0; i < n; i++) CHECK(((const char *)buf)[i] == (char)('A' + out_all++), "bytes sent in order");
	w_got += n;
	if (fillups > 0 && FLIP()) { fillups--; kW = false; }
	tls_state = FINE;
	errno = EAGAIN;
	return tls_ret = n;
}
}
static kev_result on_read(KOPAQUE d, void *a, int got)
{
	CHECK(r_pend && (int *)d == &op_data && (int *)a == &op_arg, "a read completes once, with its own data and argument");
	CHECK(got == r_got && got > 0, "the bytes read are reported");
	int at = in_read - r_got;
	for (int i = 0; i < got; i++) {
		char c = i < (int)rv[0].iov_len ? rb[i] : rb[2 + i - (int)rv[0].iov_len];
		CHECK(c == (char)('a' + at + i), "bytes arrive in order");
	}
	r_pend = false;
	return kev_ok;
}
static kev_result on_write(KOPAQUE d, void *a, int got)
{
	CHECK(w_pend && (int *)d == &op_data && (int *)a == &op_data, "a write completes once, with its own data and argument");
	CHECK(got == w_got && got == w_n, "the bytes written are reported");
	w_pend = false;
	return kev_ok;
}
static void start_read()
{
	if (r_pend || reads == 2) VP_STOP();
	reads++;
	r_n = 1 + CHOOSE(3);
	rv[0].iov_base = rb;
	rv[0].iov_len = r_n > 2 ? 2 : r_n;
	rv[1].iov_base = rb + 2;
	rv[1].iov_len = 1;
	rdesc.iov_base = (char *)rv;
	rdesc.iov_len = r_n > 2 ? 2 : 1;
	r_got = blocked_r = 0;
	r_pend = true;
	bool has = held > 0;
	if (has) REACH("held");
	if (w_pend) REACH("reader joins writer");
	selectable_read(&C->st, on_read, &rdesc, &op_arg);
}
static void start_write()
{
	if (w_pend || writes == 2) VP_STOP();
	writes++;
	w_n = 1 + CHOOSE(2);
	for (int i = 0; i < w_n; i++) wb[i] = (char)('A' + out_all + i);
	wv[0].iov_base = wb;
	wv[0].iov_len = w_n;
	wdesc.iov_base = (char *)wv;
	wdesc.iov_len = 1;
	w_got = blocked_w = 0;
	w_pend = true;
	if (r_pend) REACH("writer joins reader");
	selectable_write(&C->st, on_write, &wdesc, &op_data);
}
static void arrive()
{
	if (recs == RECS) VP_STOP();
	in_all += rec[recs++] = 1 + CHOOSE(3);
	kR = true;
	blocked_r = 0;
	kwake();
}
static void drain()
{
	if (kW) VP_STOP();
	kW = true;
	blocked_w = 0;
	kwake();
}
static void turns(int n)
{
	for (int i = 0; i < n; i++) loop_turn();
}
ENTRY(h_both)
{
	env_start(FLIP());
	C = kconnection_new(NULL);
	C->st.base.selector = sel;
	C->st.fd = wfd;
	C->st.data = (KOPAQUE)&op_data;
	if (!kconnection_ssl_accept(C, TLS_CTX)) VP_STOP();
	bool hs = false;
	kconnection_ssl_handshake(C, [](KOPAQUE, void *a, int got) { CHECK(got == 0, "handshake done"); *(bool *)a = true; return kev_ok; }, &hs);
	CHECK(hs, "the handshake is over at once here");
	hs_over = true;
#ifdef BLOCKED
	/* a writer is waiting already */
	kW = false;
	start_write();
#else
	kW = FLIP();
	/* what the peer sent right behind its handshake may have been taken off the socket already */
	in_all = held = pending_left = CHOOSE(2);
#endif
	fillups = 1;
	for (int i = 0; i < STEPS; i++)
		switch (CHOOSE(5)) {
		case 0: start_read(); break;
		case 1: start_write(); break;
		case 2: arrive(); break;
		case 3: drain(); break;
		default: loop_turn(); break;
		}
	if (held == 0 && recs == taken) { if (!r_pend && !w_pend) VP_STOP(); }
	/* nothing that can be finished stays unfinished */
	turns(4);
	CHECK(!(r_pend && (held > 0 || taken < recs)), "a read completes when there is something to read");
	CHECK(!(w_pend && kW), "a write completes when there is room");
	if (w_pend) { kW = true; blocked_w = 0; kwake(); turns(4); CHECK(!w_pend, "a write completes when the socket drains"); REACH("drained"); }
	if (r_pend) {
		in_all += rec[0] = 1;
		taken = 0; recs = 1;
		kR = true; blocked_r = 0; kwake(); turns(4);
		CHECK(!r_pend, "a read completes when a record arrives");
		REACH("arrived");
	}
	REACH("end");
}
