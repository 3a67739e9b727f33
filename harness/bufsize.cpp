/* C03/C04 for any sizes: the data blocks are stand-ins.  malloc, free, memcpy and memmove of the buffer code are
 * the functions below: a block has a symbolic size and at most one marked byte, every copy has to stay inside its
 * blocks, and the marked byte (an arbitrary one of the bytes written) has to be at its place in the end. */
#include "vp.h"
#include "kbuf.h"
#ifndef VP_SYMX
#include <sys/mman.h>
#endif
#ifndef OPS
#define OPS 3
#endif
/* a length of BITS bits */
#ifndef BITS
#define BITS 12
#endif
#define MAXLEN (1 << BITS)
#define LEN() ((int)vp_nd_raw(MAXLEN - 1))
#define LEN3() ((int)vp_nd_raw(8 * MAXLEN - 1))
#define NBLK 16
#define BASE(i) ((char *)(0x200000000000ull + ((uint64_t)(i) << 32)))
struct blk {
	int64_t size, mark;
	bool live, lib;
};
static blk B[NBLK];
static int nblk;
static char small_mem[16][64];
static bool small_live[16];
static int nsmall;
static int new_block(int64_t n, bool lib)
{
	CHECK(nblk < NBLK, "few blocks are used");
	int i = nblk++;
	B[i].size = n;
	B[i].mark = -1;
	B[i].live = true;
	B[i].lib = lib;
#ifndef VP_SYMX
	if (mmap64(BASE(i), 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) exit(88);
#endif
	return i;
}
static int id_of(const void *p)
{
	uint64_t v = (uint64_t)p - 0x200000000000ull;
	uint64_t i = vp_concretize(v >> 32);
	return i < (uint64_t)nblk ? (int)i : -1;
}
static int64_t off_of(const void *p, int i) { return (int64_t)((uint64_t)p - (uint64_t)BASE(i)); }
static void must_hold(const void *p, int64_t n, const char *msg)
{
	int i = id_of(p);
	CHECK(i >= 0 && B[i].live, "memory used is allocated");
	int64_t o = off_of(p, i);
	CHECK((o >= 0) & (n >= 0) & (o + n <= B[i].size), msg);
}
static void set_mark(const void *p)
{
	int i = id_of(p);
	B[i].mark = off_of(p, i);
	VP_NATIVE_ONLY(*(char *)p = 0x5a;)
}
static bool marked(const void *p)
{
#ifdef VP_SYMX
	int i = id_of(p);
	return B[i].mark == off_of(p, i);
#else
	return *(char *)p == 0x5a;
#endif
}
extern "C" {
void *malloc(size_t n) VP_NX
{
	if (!vp_is_symbolic(n) && n <= 64) {
		CHECK(nsmall < 16, "few records are used");
		small_live[nsmall] = true;
		return small_mem[nsmall++];
	}
	CHECK((n > 64) & (n <= (1u << 26)), "the size asked for makes sense");
	return BASE(new_block((int64_t)n, true));
}
void free(void *p) VP_NX
{
	if (p == NULL) return;
	for (int i = 0; i < nsmall; i++)
		if (p == small_mem[i]) {
			CHECK(small_live[i], "a record is freed once");
			small_live[i] = false;
			return;
		}
	int i = id_of(p);
	CHECK(i >= 0 && B[i].live && B[i].lib && p == BASE(i), "what is freed is an allocated block");
	B[i].live = false;
}
void *memmove(void *d, const void *s, size_t n) VP_NX
{
	must_hold(s, (int64_t)n, "a copy reads inside a block");
	must_hold(d, (int64_t)n, "a copy writes inside a block");
	int a = id_of(s), b = id_of(d);
	int64_t so = off_of(s, a), d0 = off_of(d, b), m = B[a].mark;
	if ((m >= so) & (m < so + (int64_t)n)) B[b].mark = m - so + d0;
	else if ((B[b].mark >= d0) & (B[b].mark < d0 + (int64_t)n)) B[b].mark = -1;
#ifndef VP_SYMX
	char *x = (char *)d;
	const char *y = (const char *)s;
	if (x < y) for (size_t i = 0; i < n; i++) x[i] = y[i];
	else for (size_t i = n; i > 0; i--) x[i - 1] = y[i - 1];
#endif
	return d;
}
void *memcpy(void *d, const void *s, size_t n) VP_NX
{
	if (id_of(d) >= 0) return memmove(d, s, n);
	for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
	return d;
}
}
static void all_freed()
{
	for (int i = 0; i < nsmall; i++) CHECK(!small_live[i], "destroying returns all memory");
	for (int i = 0; i < nblk; i++) CHECK(!B[i].live || !B[i].lib, "destroying returns all memory");
}
static int64_t ml;	/* bytes kept */
static int64_t at;	/* where the marked byte is among them */
static bool have;	/* whether it was written already and is kept */
static bool gone;
/* a source of n bytes; the marked byte is one of them or not */
static char *source(int64_t n)
{
	char *p = BASE(new_block(n, false));
	if (!have && !gone && FLIP()) {
		int64_t k = LEN();
		ASSUME(k < n);
		set_mark(p + k);
		have = true;
		at = ml + k;
	}
	return p;
}
static void direct(char *p, int64_t n)
{
	if (!have && !gone && FLIP()) {
		int64_t k = LEN();
		ASSUME(k < n);
		set_mark(p + k);
		have = true;
		at = ml + k;
	}
}
static void take(int64_t n)
{
	ml -= n;
	if (have) {
		if (at < n) {
			have = false;
			gone = true;
		} else at -= n;
	}
}
#ifndef FIRSTSIZE
#define FIRSTSIZE 1000
#endif
static const int SIZES[] = { FIRSTSIZE, 1024, 65, 1500 };
#ifndef NSIZES
#define NSIZES 3
#endif
ENTRY(h_ks)
{
	ks_buffer *b = ks_buffer_new(SIZES[CHOOSE(NSIZES)]);
	for (int i = 0; i < OPS; i++) {
		switch (CHOOSE(3)) {
		case 0: {
			int n = LEN();
			char *s = source(n);
			CHECK(ks_write_str(b, s, n), "string write succeeds");
			ml += n;
			break;
		}
		case 1: {
			int len = -1;
			char *p = ks_get_write_buffer(b, &len);
			CHECK(len > 0, "write space offered is not empty");
			CHECK(p == b->buf + ml, "write space offered follows the bytes kept");
			must_hold(p, len, "write space offered is inside the storage");
			int n = LEN3();
			ASSUME(n <= len);
			direct(p, n);
			ks_write_success(b, n);
			ml += n;
			break;
		}
		case 2: {
			int n = LEN3();
			ASSUME(n <= ml);
			ks_save_point(b, b->buf + n);
			take(n);
			CHECK(b->used < b->buf_size, "room is left after saving a point");
			break;
		}
		}
		CHECK(b->used == ml, "used length is the number of bytes kept");
		CHECK(b->buf_size >= b->used, "storage covers the declared size");
		must_hold(b->buf, b->buf_size, "storage covers the declared size");
		if (have) CHECK(marked(b->buf + at), "contents unchanged and in order");
	}
	ks_buffer_switch_read(b);
	int len = -1;
	char *p = ks_get_read_buffer(b, &len);
	CHECK(p != NULL && len == ml, "everything unread is offered");
	must_hold(p, len, "what is offered is inside the storage");
	if (have) CHECK(marked(p + at), "exactly the bytes written are read");
	int n = LEN3();
	ASSUME(n <= len);
	bool more = ks_read_success(b, n);
	take(n);
	CHECK(more == (ml > 0), "end reported exactly when all is consumed");
	if (more) {
		p = ks_get_read_buffer(b, &len);
		CHECK(p != NULL && len == ml, "everything unread is offered");
		if (have) CHECK(marked(p + at), "exactly the bytes written are read");
		CHECK(!ks_read_success(b, len), "end reported exactly when all is consumed");
	}
	ks_buffer_destroy(b);
	all_freed();
	REACH("end");
}
/* chunked buffer */
ENTRY(h_krw)
{
	int chunk = SIZES[CHOOSE(NSIZES)];
	krw_buffer *rw = krw_buffer_new(chunk);
	for (int i = 0; i < OPS; i++) {
		#ifdef FIRSTOP
		switch (i == 0 ? FIRSTOP : CHOOSE(5)) {
#else
		switch (CHOOSE(5)) {
#endif
		case 0: {
			int n = LEN3();
			ASSUME(n <= chunk + chunk);
			char *s = source(n);
			krw_write_str(rw, s, n);
			ml += n;
			break;
		}
		case 1: {
			int len = -1;
			char *p = krw_get_write_buffer(rw, &len);
			CHECK(len > 0, "write space offered is not empty");
			must_hold(p, len, "write space offered is in bounds");
			int n = LEN();
			ASSUME(n <= len);
			direct(p, n);
			krw_write_success(rw, n);
			ml += n;
			break;
		}
		case 2: case 3: {
			int n = 65 + LEN();
			kbuf *k = new_kbuf(n);
			if (FLIP()) {
				if (!have && !gone && FLIP()) {
					int64_t m = LEN();
					ASSUME(m < n);
					set_mark(k->data + m);
					have = true;
					at = ml + m;
				}
				krw_append(rw, k);
			} else {
				if (have) at += n;
				else if (!gone && FLIP()) {
					at = LEN();
					ASSUME(at < n);
					set_mark(k->data + at);
					have = true;
				}
				krw_insert(rw, k);
			}
			ml += n;
			break;
		}
		case 4: {
			WSABUF v[2];
			int c = krw_get_read_buffers(rw, v, 2);
			int64_t sum = 0;
			for (int j = 0; j < c; j++) {
				int64_t l = (int64_t)v[j].iov_len;
				must_hold(v[j].iov_base, l, "buffers offered are in bounds");
				if (have && at >= sum && at < sum + l) CHECK(marked((char *)v[j].iov_base + (at - sum)), "offered bytes are the next unread bytes");
				sum += l;
			}
			CHECK(sum <= ml, "buffers offered hold only unread bytes");
			CHECK((ml == 0) | (sum > 0), "some bytes offered while data is unread");
			if (c == 0) break;
			int n = LEN3();
			ASSUME(n <= sum);
			bool more = krw_read_success(rw, n);
			take(n);
			CHECK(more == (ml > 0), "says no more data exactly when nothing is left");
			break;
		}
		}
		CHECK(rw->total_len == ml, "total length is the number of unread bytes");
	}
	if (ml > 0 && FLIP()) {
		int want = LEN3();
		char *out = BASE(new_block(want, false));
		int got = krw_read(rw, out, want);
		CHECK(got == (want < ml ? want : ml), "read returns what is asked for or available");
		if (have && at < got) CHECK(marked(out + at), "bytes read are the next unread bytes");
	}
	krw_buffer_destroy(rw);
	all_freed();
	REACH("end");
}
