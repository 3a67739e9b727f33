/* C03: chunked read/write buffer (kbuf.c, krw_*): every history of OPS operations
 * against a byte-queue reference; bytes are symbolic, sizes are control choices. */
#include "vp.h"
#include "kbuf.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef SHAPES
#define SHAPES 4
#endif
#ifndef AFTER
#define AFTER 1
#endif
#ifndef CHUNK
#define CHUNK 2
#endif
static uint8_t M[128];
static int ml;
static krw_buffer *rw;
static uint8_t tmp[64];
static void m_put(uint8_t *p, int n)
{
	for (int i = 0; i < n; i++) M[ml++] = p[i];
}
static void m_front(uint8_t *p, int n)
{
	for (int i = ml - 1; i >= 0; i--) M[i + n] = M[i];
	for (int i = 0; i < n; i++) M[i] = p[i];
	ml += n;
}
static void m_take(int n)
{
	for (int i = n; i < ml; i++) M[i - n] = M[i];
	ml -= n;
}
static void eq(const uint8_t *p, int off, int n, const char *msg)
{
	bool ok = true;
	for (int i = 0; i < n; i++) ok &= p[i] == M[off + i];
	CHECK(ok, msg);
}
static void fresh(int n)
{
	for (int i = 0; i < n; i++) tmp[i] = ND_U8();
}
static kbuf *chunk(int n)
{
	kbuf *b = new_kbuf(n);
	fresh(n);
	memcpy(b->data, tmp, n);
	CHECK(b->used == n, "chunk length");
	return b;
}
static void read_n(int want)
{
	uint8_t out[32];
	memset(out, 0, sizeof out);
	int expect = want < ml ? want : ml;
	int got = krw_read(rw, (char *)out, want);
	CHECK(got == expect, "read returns what is asked for or available");
	eq(out, 0, expect, "bytes read are the next unread bytes");
	m_take(expect);
}
static void step(int op)
{
	switch (op) {
	case 0: { /* string write */
		int n = CHOOSE(CHUNK + 3);
		fresh(n);
		krw_write_str(rw, (char *)tmp, n);
		m_put(tmp, n);
		break;
	}
	case 1: { /* direct write into the offered space */
		int len = -1;
		char *p = krw_get_write_buffer(rw, &len);
		CHECK(p != NULL && len > 0, "write space offered is not empty");
		CHECK(len <= CHUNK && vp_accessible(p, len), "write space offered is in bounds");
		int n = CHOOSE(len + 1);
		fresh(n);
		memcpy(p, tmp, n);
		krw_write_success(rw, n);
		m_put(tmp, n);
		break;
	}
	case 2: { /* append a chunk */
		int n = CHOOSE(CHUNK + 2);
		kbuf *b = chunk(n);
		m_put(tmp, n);
		krw_append(rw, b);
		break;
	}
	case 3: { /* insert a chunk in front */
		int n = CHOOSE(CHUNK + 2);
		kbuf *b = chunk(n);
		m_front(tmp, n);
		krw_insert(rw, b);
		break;
	}
	case 4: /* copying read */
		read_n(CHOOSE(CHUNK + 3));
		break;
	case 5: { /* scatter read, partly consumed */
		WSABUF v[8];
		int k = 1 + CHOOSE(3);
		int c = krw_get_read_buffers(rw, v, k);
		CHECK(c >= 0 && c <= k, "no more buffers than asked for");
		CHECK(ml == 0 || c > 0, "buffers offered while data is unread");
		int sum = 0;
		for (int i = 0; i < c; i++) {
			CHECK((int)v[i].iov_len >= 0 && sum + (int)v[i].iov_len <= ml, "buffers offered hold only unread bytes");
			eq((uint8_t *)v[i].iov_base, sum, (int)v[i].iov_len, "offered bytes are the next unread bytes");
			sum += (int)v[i].iov_len;
		}
		CHECK(ml == 0 || sum > 0, "some bytes offered while data is unread");
		if (c == 0) break;
		int n = CHOOSE(sum + 1);
		m_take(n);
		bool more = krw_read_success(rw, n);
		CHECK(more == (ml > 0), "says no more data exactly when nothing is left");
		break;
	}
	case 6: {
		int len = -1;
		char *p = krw_get_read_buffer(rw, &len);
		CHECK(ml == 0 || (p != NULL && len > 0), "bytes offered while data is unread");
		if (p) {
			CHECK(len >= 0 && len <= ml, "offered bytes are unread bytes");
			eq((uint8_t *)p, 0, len, "offered bytes are the next unread bytes");
		}
		break;
	}
	}
	CHECK(rw->total_len == ml, "total length is the number of unread bytes");
}
static void finish(uint64_t heap0)
{
	if (FLIP()) {
		/* drained completely: everything comes out, then it is usable again */
		read_n(ml + 1);
		CHECK(rw->total_len == 0, "empty after draining");
		fresh(3);
		krw_write_str(rw, (char *)tmp, 3);
		m_put(tmp, 3);
		read_n(3);
		CHECK(rw->total_len == 0, "usable after draining");
		REACH("drained");
	}
	krw_buffer_destroy(rw);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
ENTRY(h_history)
{
	uint64_t heap0 = vp_heap_bytes();
	rw = krw_buffer_new(CHUNK);
	for (int i = 0; i < OPS; i++) {
#ifdef FIRST
		step(i == 0 ? FIRST : CHOOSE(7));
#else
		step(CHOOSE(7));
#endif
	}
	finish(heap0);
}
/* from every reachable shape of up to 3 chunks: contents built by appends, a partly read head, then AFTER operations */
ENTRY(h_shape)
{
	uint64_t heap0 = vp_heap_bytes();
	rw = krw_buffer_new(CHUNK);
	int k = CHOOSE(SHAPES);
	for (int i = 0; i < k; i++) {
		if (FLIP()) {
			int n = 1 + CHOOSE(CHUNK + 1);
			kbuf *b = chunk(n);
			m_put(tmp, n);
			krw_append(rw, b);
		} else {
			int n = 1 + CHOOSE(CHUNK);
			fresh(n);
			krw_write_str(rw, (char *)tmp, n);
			m_put(tmp, n);
		}
	}
	if (ml && FLIP()) read_n(1);
	CHECK(rw->total_len == ml, "total length is the number of unread bytes");
	for (int i = 0; i < AFTER; i++) step(CHOOSE(7));
	finish(heap0);
}
ENTRY(h_numbers)
{
	static const int64_t V[] = { 0, 7, -1, 10, 2147483647LL, -2147483647LL - 1, 4294967296LL, 9223372036854775807LL, -9223372036854775807LL - 1, -123456789012LL };
	uint64_t heap0 = vp_heap_bytes();
	rw = krw_buffer_new(CHUNK);
	char t[64];
	for (int i = 0; i < 2; i++) {
		int64_t v = V[CHOOSE(10)];
		int n;
		if (FLIP()) {
			krw_write_int(rw, (int)v);
			n = snprintf(t, sizeof t, "%d", (int)v);
		} else {
			krw_write_int64(rw, v);
			n = snprintf(t, sizeof t, "%lld", (long long)v);
		}
		m_put((uint8_t *)t, n);
		CHECK(rw->total_len == ml, "total length is the number of unread bytes");
	}
	char out[64];
	int n = krw_read(rw, out, 64);
	CHECK(n == ml && memcmp(out, M, n) == 0, "numbers are written as decimal text");
	krw_buffer_destroy(rw);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}

/* many chunks: more than fit into one vector of buffers, consumed in two pieces */
ENTRY(h_many)
{
	static uint8_t all[200];
	uint64_t heap0 = vp_heap_bytes();
	rw = krw_buffer_new(CHUNK);
	static const int KS[] = { 1, 5, 9, 17, 33, 40 };
	int chunks = KS[CHOOSE(6)];
	bool appended = FLIP();
	int n = 0;
	for (int i = 0; i < chunks; i++) {
		int l = 1 + i % CHUNK;
		for (int k = 0; k < l; k++) all[n + k] = tmp[k] = ND_U8();
		if (appended) {
			kbuf *b = new_kbuf(l);
			memcpy(b->data, tmp, l);
			krw_append(rw, b);
		} else krw_write_str(rw, (char *)tmp, l);
		n += l;
	}
	CHECK(rw->total_len == n, "total length is the number of unread bytes");
	int from = 0;
	for (int round = 0; round < 2 && from < n; round++) {
		static WSABUF v[64];
		static const int VS[] = { 2, 8, 16, 32, 64 };
		int most = VS[CHOOSE(5)];
		int c = krw_get_read_buffers(rw, v, most);
		CHECK(c > 0 && c <= most, "buffers offered while data is unread, no more than asked for");
		int sum = 0;
		bool ok = true;
		for (int i = 0; i < c; i++) {
			CHECK(v[i].iov_len > 0 && sum + (int)v[i].iov_len <= n - from, "buffers offered hold only unread bytes");
			for (int k = 0; k < (int)v[i].iov_len; k++) ok &= ((uint8_t *)v[i].iov_base)[k] == all[from + sum + k];
			sum += (int)v[i].iov_len;
		}
		CHECK(ok, "offered bytes are the next unread bytes");
		int took = sum - CHOOSE(3);
		if (took < 0) took = 0;
		from += took;
		CHECK(krw_read_success(rw, took) == (from < n), "says no more data exactly when nothing is left");
		CHECK(rw->total_len == n - from, "total length is the number of unread bytes");
	}
	static char out[200];
	int got = krw_read(rw, out, sizeof out);
	CHECK(got == n - from, "read returns what is available");
	bool ok = true;
	for (int i = 0; i < got; i++) ok &= (uint8_t)out[i] == all[from + i];
	CHECK(ok, "bytes read are the next unread bytes");
	krw_buffer_destroy(rw);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
