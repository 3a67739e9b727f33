/* C04: linear buffer (kbuf.h/kbuf.c, ks_*) against a byte-string reference. */
#include "vp.h"
#include "kbuf.h"
#ifndef OPS
#define OPS 3
#endif
static uint8_t M[4096];
static int ml;
static ks_buffer *b;
static uint8_t tmp[64];
static void fresh(int n)
{
	for (int i = 0; i < n; i++) tmp[i] = ND_U8();
}
static void put(int n)
{
	for (int i = 0; i < n; i++) M[ml++] = tmp[i];
}
static void verify(const char *msg)
{
	CHECK(b->used == ml, "used length is the number of bytes kept");
	CHECK(b->buf_size >= b->used && vp_accessible(b->buf, b->buf_size), "storage covers the declared size");
	bool ok = true;
	for (int i = 0; i < ml; i++) ok &= (uint8_t)b->buf[i] == M[i];
	CHECK(ok, msg);
}
static void step(int op)
{
	switch (op) {
	case 0: {
		int n = CHOOSE(5);
		fresh(n);
		CHECK(ks_write_str(b, (char *)tmp, n), "string write succeeds");
		put(n);
		break;
	}
	case 1: {
		int len = -1;
		char *p = ks_get_write_buffer(b, &len);
		CHECK(p != NULL && len > 0, "write space offered is not empty");
		CHECK(p == b->buf + ml && ml + len <= b->buf_size && vp_accessible(p, len), "write space offered is inside the storage");
		int n = CHOOSE(len < 4 ? len + 1 : 4);
		fresh(n);
		memcpy(p, tmp, n);
		if (len > 4 && FLIP()) { /* fill it completely */
			memset(p, 0x5a, len);
			n = len;
			for (int i = 0; i < len; i++) M[ml++] = 0x5a;
		} else put(n);
		ks_write_success(b, n);
		break;
	}
	case 2: {
		WSABUF v[2];
		int c = ks_get_write_buffers(b, v, 2);
		CHECK(c == 1 && (int)v[0].iov_len > 0, "write space offered is not empty");
		CHECK((char *)v[0].iov_base == b->buf + ml && vp_accessible(v[0].iov_base, v[0].iov_len), "write space offered is inside the storage");
		fresh(1);
		*(uint8_t *)v[0].iov_base = tmp[0];
		put(1);
		ks_write_success(b, 1);
		break;
	}
	case 3: { /* save point */
		int at = CHOOSE(ml < 6 ? ml + 1 : 6);
		ks_save_point(b, b->buf + at);
		for (int i = at; i < ml; i++) M[i - at] = M[i];
		ml -= at;
		CHECK(at == 0 || b->used == ml, "bytes before the point are dropped");
		CHECK(b->used < b->buf_size, "room is left after saving a point");
		break;
	}
	case 4: {
		static const int64_t V[] = { 0, -1, 2147483647LL, -2147483647LL - 1, 9223372036854775807LL, -9223372036854775807LL - 1 };
		int64_t v = V[CHOOSE(6)];
		int n;
		if (FLIP()) {
			ks_write_int(b, (int)v);
			n = snprintf((char *)tmp, sizeof tmp, "%d", (int)v);
		} else {
			ks_write_int64(b, v);
			n = snprintf((char *)tmp, sizeof tmp, "%lld", (long long)v);
		}
		put(n);
		break;
	}
	}
	verify("contents unchanged and in order");
}
ENTRY(h_history)
{
	uint64_t heap0 = vp_heap_bytes();
	b = ks_buffer_new(1 + CHOOSE(4));
	for (int i = 0; i < OPS; i++) {
#ifdef FIRST
		step(i == 0 ? FIRST : CHOOSE(5));
#else
		step(CHOOSE(5));
#endif
	}
	/* read everything back */
	ks_buffer_switch_read(b);
	int pos = 0, rounds = 0, api = CHOOSE(2);
	while (rounds++ < 2) {
		int len = -1;
		char *p;
		if (api) {
			p = ks_get_read_buffer(b, &len);
		} else {
			WSABUF v[2];
			CHECK(ks_get_read_buffers(b, v, 2) == 1, "one read buffer");
			p = (char *)v[0].iov_base;
			len = (int)v[0].iov_len;
		}
		CHECK(p != NULL && len == ml - pos, "everything unread is offered");
		bool ok = true;
		for (int i = 0; i < len; i++) ok &= (uint8_t)p[i] == M[pos + i];
		CHECK(ok, "exactly the bytes written are read");
		int n = rounds == 2 ? len : CHOOSE(len < 2 ? len + 1 : 2);
		pos += n;
		bool more = ks_read_success(b, n);
		CHECK(more == (pos < ml), "end reported exactly when all is consumed");
		if (!more) break;
	}
	ks_buffer_destroy(b);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
