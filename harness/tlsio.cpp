/* C26: transfers over TLS, over the real event loop (kselectable.c) */
#include "tls_env.h"
#ifndef BYTES
#define BYTES 3
#endif
#ifndef OPS
#define OPS 2
#endif
enum { RD, WR, SF };
static char rbuf[3][BYTES], wbuf[3][BYTES];
static kgl_iovec rv[3], wv[3], rdesc, wdesc;
static int rn, wn;
static int in_stream, out_stream;    /* bytes the library delivered / accepted so far */
static int r_got, w_got;             /* of which in the operation under way */
static bool r_pend, w_pend, r_done, w_done;
static int r_blocked, w_blocked, retry_len;
static kasync_file F;
static int cur;
static char in_byte(int i) { return (char)('a' + i); }
static char out_byte(int i) { return (char)('A' + i); }
/* where byte number at of the operation's buffers lies */
static char *locate(kgl_iovec *v, int n, int at, int *room)
{
	for (int i = 0; i < n; i++) {
		if (at < (int)v[i].iov_len) { *room = (int)v[i].iov_len - at; return (char *)v[i].iov_base + at; }
		at -= (int)v[i].iov_len;
	}
	*room = 0;
	return NULL;
}
/* part of n bytes, or all */
static int some(int n)
{
#ifdef BIG
	if (FLIP()) return n;
	int k = (int)(ND_U32() & BIG);
	ASSUME(k > 0 && k < n);
	REACH("part");
	return k;
#else
	return 1 + CHOOSE(n);
#endif
}
static void entry_checks(bool out)
{
	CHECK(out ? w_pend && !w_done : r_pend && !r_done, "no call for an operation that is not pending");
	CHECK(tls_state != WANT || cur != out || (out ? w_got == 0 && w_blocked == 2 : r_got == 0 && r_blocked == 2), "not called again before the descriptor is ready");
	cur = out;
}
static int deliver(void *buf, int n, int most)
{
	int room;
	char *p = locate(rv, rn, r_got, &room);
	CHECK(p != NULL && buf == p && n > 0 && n <= room, "the caller's buffers are filled in order");
	int k = n < most ? n : most;
	if (tls_calls > 0 && k > 1) { tls_calls--; k = some(k); }
#ifndef BIG
	for (int i = 0; i < k; i++) p[i] = in_byte(in_stream + i);
#endif
	in_stream += k;
	r_got += k;
	tls_state = FINE;
	errno = ND_RANGE(0, 133);            /* left over from anywhere */
	return tls_ret = k;
}
static int accept_out(const void *buf, int n)
{
	int room;
	char *p = locate(wv, wn, w_got, &room);
	CHECK(p != NULL && buf == p && n > 0 && n <= room, "the caller's buffers are sent in order");
	CHECK(n >= retry_len, "a blocked write is repeated with at least the same bytes");
#ifndef BIG
	for (int i = 0; i < n; i++) CHECK(p[i] == out_byte(out_stream + i), "the right bytes are sent");
#endif
	int k = n;
	if (tls_calls > 0) { tls_calls--; k = some(n); }
	out_stream += k;
	w_got += k;
	retry_len = 0;
	tls_state = FINE;
	return tls_ret = k;
}
extern "C" {
int SSL_read(SSL *s, void *buf, int n)
{
	entry_checks(false);
	CHECK(!early_offered || early_over, "ordinary data only after the early data");
	if (tls_state >= CLOSED) return tls_again();
	if (pending_left > 0) {
		int k = deliver(buf, n, pending_left);
		pending_left -= k;
		return k;
	}
	if (tls_calls > 0 && FLIP()) { tls_calls--; r_blocked = 1; return tls_fail(SSL_ERROR_WANT_READ); }
	return deliver(buf, n, n);
}
int SSL_read_early_data(SSL *s, void *buf, size_t n, size_t *got)
{
	CHECK(early_offered && !early_over, "early data is asked for until it is over");
	*got = 0;
	if (!hs_over) {
		CHECK(n == 1, "one byte ahead");
		if (early_left == 0) { early_over = true; tls_state = FINE; return SSL_READ_EARLY_DATA_FINISH; }
		early_left--;
		*(char *)buf = in_byte(in_stream++);
		*got = 1;
		tls_state = FINE;
		return SSL_READ_EARLY_DATA_SUCCESS;
	}
	entry_checks(false);
	if (tls_state >= CLOSED) return SSL_READ_EARLY_DATA_ERROR;
	if (tls_calls > 0 && FLIP()) { tls_calls--; r_blocked = 1; tls_fail(SSL_ERROR_WANT_READ); if (tls_state == CLOSED) VP_STOP(); return SSL_READ_EARLY_DATA_ERROR; }
	if (early_left == 0) { early_over = true; tls_state = FINE; REACH("early over"); return SSL_READ_EARLY_DATA_FINISH; }
	int k = deliver(buf, (int)n, early_left);
	early_left -= k;
	*got = k;
	REACH("early data");
	return SSL_READ_EARLY_DATA_SUCCESS;
}
int SSL_write(SSL *s, const void *buf, int n)
{
	entry_checks(true);
	CHECK(!early_offered || early_over, "ordinary data only after the early data");
	if (tls_state >= CLOSED) { CHECK(w_got == 0, "no byte after a failure"); return tls_again(); }
	if (tls_calls > 0 && FLIP()) {
		tls_calls--;
		w_blocked = 1;
		int r = tls_fail(SSL_ERROR_WANT_WRITE);
		if (tls_state == CLOSED) VP_STOP();      /* a write does not meet the end of the stream */
		retry_len = tls_state == WANT ? n : 0;
		return r;
	}
	return accept_out(buf, n);
}
int SSL_write_early_data(SSL *s, const void *buf, size_t n, size_t *got)
{
	entry_checks(true);
	CHECK(early_offered && !early_over, "early answers only before the early data is over");
	*got = 0;
	if (tls_state >= CLOSED) return 0;
	if (tls_calls > 0 && FLIP()) {
		tls_calls--;
		w_blocked = 1;
		tls_fail(SSL_ERROR_WANT_WRITE);
		if (tls_state == CLOSED) VP_STOP();
		retry_len = tls_state == WANT ? (int)n : 0;
		return 0;
	}
	*got = accept_out(buf, (int)n);
	return 1;
}
BIO *SSL_get_wbio(const SSL *s) { return (BIO *)tls_obj; }
long BIO_ctrl(BIO *b, int cmd, long, void *) { CHECK(cmd == BIO_CTRL_GET_KTLS_SEND, "asked whether the kernel encrypts"); return 1; }
ossl_ssize_t SSL_sendfile(SSL *s, int fd, off_t off, size_t n, int flags)
{
	entry_checks(true);
	CHECK(fd == 77 && off == 1000 + out_stream && n == wdesc.iov_len && flags == 0, "the asked range of the file is sent");
	if (tls_state >= CLOSED) return -1;
	if (tls_calls > 0 && FLIP()) {
		tls_calls--;
		w_blocked = 1;
		tls_fail(SSL_ERROR_WANT_WRITE);
		if (tls_state == CLOSED) VP_STOP();
		return -1;
	}
	int k = some((int)n);
	out_stream += k;
	w_got += k;
	tls_state = FINE;
	return k;
}
int SSL_do_handshake(SSL *s) { tls_state = FINE; return 1; }
}
static void judge(int transferred, int got)
{
	if (transferred > 0) CHECK(got == transferred, "the transferred bytes are reported");
	else {
		CHECK(tls_state != WANT, "an operation that would block does not complete");
		CHECK(tls_state != FINE, "completes with bytes or a reason");
		if (tls_state == CLOSED) { CHECK(got == 0, "the end of the stream is reported"); REACH("closed"); }
		else { CHECK(got < 0, "an error is reported"); REACH("failed"); }
	}
}
static kev_result on_read(KOPAQUE d, void *a, int got)
{
	CHECK(r_pend && !r_done && (int *)d == &op_data && (int *)a == &op_arg, "completes once, with its own data and argument");
	judge(r_got, got);
	r_done = true;
	return kev_ok;
}
static kev_result on_write(KOPAQUE d, void *a, int got)
{
	CHECK(w_pend && !w_done && (int *)d == &op_data && (int *)a == &op_arg, "completes once, with its own data and argument");
	judge(w_got, got);
	w_done = true;
	return kev_ok;
}
static void start(bool early)
{
	env_start(FLIP());
	C = kconnection_new(NULL);
	C->st.base.selector = sel;
	C->st.fd = wfd;
	C->st.data = (KOPAQUE)&op_data;
	early_offered = early;
	if (!kconnection_ssl_accept(C, TLS_CTX)) VP_STOP();
	CHECK(tls_accepting && tls_owner == C, "accepting, known to belong to the connection");
	bool hs = false;
	kconnection_ssl_handshake(C, [](KOPAQUE, void *a, int got) { CHECK(got == 0, "handshake done"); *(bool *)a = true; return kev_ok; }, &hs);
	CHECK(hs, "the handshake is over at once here");
	hs_over = true;
	tls_calls = CALLS;
}
static int ops;
#ifdef BIG
#define TOTAL 1
#else
#define TOTAL (1 + CHOOSE(BYTES))
#endif
static void layout(kgl_iovec *v, char (*b)[BYTES], int *n, int total)
{
#ifdef BIG
	/* nothing is there: only positions matter */
	*n = 1 + CHOOSE(2);
	for (int i = 0; i < *n; i++) {
		v[i].iov_base = (char *)(uintptr_t)(0x100000000000ull + 0x1000000000ull * i);
		v[i].iov_len = ND_U32() & BIG;
	}
	if (total > 0) ASSUME(v[0].iov_len + v[*n - 1].iov_len >= (unsigned)total);
	return;
#endif
	*n = 1 + CHOOSE(ops++ ? 2 : 3);
	int left = total;
	for (int i = 0; i < *n; i++) {
		int l = i == *n - 1 ? left : CHOOSE(left + 1);
		v[i].iov_base = b[i];
		v[i].iov_len = l;
		left -= l;
	}
}
static void wait_for(bool out)
{
	bool *fin = out ? &w_done : &r_done;
	for (int i = 0; i < 2 * CALLS + 4 && !*fin; i++) {
		CHECK(KBIT_TEST(C->st.base.st_flags, out ? STF_WRITE : STF_READ) != 0, "an operation that did not complete is pending");
		if ((out ? w_blocked : r_blocked) == 1 && tls_state == WANT && ready_list_empty()) {
			queued = false;
			loop_turn();
			loop_turn();
			CHECK(!*fin, "does not complete while it would block");
			if (out) w_blocked = 2; else r_blocked = 2;
			REACH("blocked");
		}
		if (ready_list_empty()) { kR = kW = true; kwake(); }
		loop_turn();
		if (tls_state >= CLOSED) CHECK(*fin, "a failed session is reported without waiting for the socket again");
	}
	CHECK(*fin, "the operation completes in the end");
}
static void one_read()
{
	bool first = early_offered && r_got == 0 && in_stream == 1;
	int was = in_stream - (first ? 1 : 0);
	layout(rv, rbuf, &rn, TOTAL);
	rdesc.iov_base = (char *)rv;
	rdesc.iov_len = rn;
	r_got = first ? 1 : 0;               /* the byte read ahead comes first */
	r_blocked = 0;
	r_pend = true;
	r_done = false;
	if (tls_state == WANT) tls_state = FINE;
	bool held = pending_left > 0;
	kR = kW = queued = false;
	selectable_read(&C->st, on_read, &rdesc, &op_arg);
	if (held) {
		loop_turn();
		CHECK(r_done, "bytes the TLS layer holds are delivered without waiting for the socket");
		REACH("held");
	}
	wait_for(false);
	r_pend = false;
#ifdef BIG
	return;
#endif
	for (int i = 0; i < r_got; i++) {
		int room;
		CHECK(*locate(rv, rn, i, &room) == in_byte(was + i), "the bytes arrive in order in the caller's buffers");
	}
}
#ifdef BIG
#define PENDING (1 + (int)(ND_U32() & BIG))
#else
#define PENDING (1 + CHOOSE(2))
#endif
ENTRY(h_read)
{
	start(false);
	for (int k = 0; k < OPS && tls_state < CLOSED; k++) {
		if (FLIP()) pending_left = PENDING;
		one_read();
		if (tls_state == WANT) pending_left = 0;
	}
	REACH("end");
}
ENTRY(h_early)
{
	early_left = CHOOSE(4);
	start(true);
	for (int k = 0; k < OPS && tls_state < CLOSED; k++) one_read();
	REACH("end");
}
static void one_write()
{
	int at = 0;
	w_got = 0;
	w_blocked = 0;
	w_pend = true;
	w_done = false;
	if (tls_state == WANT) tls_state = FINE;
	layout(wv, wbuf, &wn, retry_len > 0 ? retry_len + CHOOSE(2) : TOTAL);
	/* a blocked write is repeated from the same place */
	if (retry_len > (int)wv[0].iov_len) VP_STOP();
#ifndef BIG
	for (int i = 0; i < wn; i++)
		for (int j = 0; j < (int)wv[i].iov_len; j++) ((char *)wv[i].iov_base)[j] = out_byte(out_stream + at++);
#endif
	wdesc.iov_base = (char *)wv;
	wdesc.iov_len = wn;
	kR = kW = queued = false;
	selectable_write(&C->st, on_write, &wdesc, &op_arg);
	wait_for(true);
	w_pend = false;
}
ENTRY(h_write)
{
	start(false);
	for (int k = 0; k < OPS && tls_state < CLOSED; k++) one_write();
	REACH("end");
}
ENTRY(h_early_write)
{
	early_left = 1;
	start(true);
	ops = 1;
	one_write();
	if (tls_state < CLOSED) one_read();
	if (tls_state < CLOSED && early_over) one_write();
	REACH("end");
}
ENTRY(h_sendfile)
{
	start(false);
	F.st.fd = 77;
	for (int k = 0; k < OPS && tls_state < CLOSED; k++) {
		F.st.offset = 1000 + out_stream;
		w_got = w_blocked = 0;
		w_pend = true;
		w_done = false;
		wdesc.iov_base = (char *)&F;
#ifdef BIG
		wdesc.iov_len = 1 + (ND_U32() & BIG);
#else
		wdesc.iov_len = 1 + CHOOSE(BYTES);
#endif
		if (tls_state == WANT) tls_state = FINE;
		CHECK(selectable_support_sendfile(&C->st), "sending files is possible when the kernel encrypts");
		kR = kW = queued = false;
		selectable_sendfile(&C->st, on_write, &wdesc, &op_arg);
		wait_for(true);
		w_pend = false;
	}
	REACH("end");
}
