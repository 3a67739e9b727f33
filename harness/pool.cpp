/* C05/C06: memory pool and pool arrays (kmalloc.c) */
#include "vp.h"
#include "kmalloc.h"
#ifndef OPS
#define OPS 3
#endif
#ifndef PMIN
#define PMIN 112
#endif
#ifndef PVAR
#define PVAR 16
#endif
static kgl_pool_t *pool;
static char *P[16];
static uint64_t S[16];
static bool live[16], large[16];
static int nb;
static void disjoint(char *p, uint64_t n, char *q, uint64_t m, const char *msg)
{
	uint64_t a = (uint64_t)p, b = (uint64_t)q;
	CHECK((a + n <= b) | (b + m <= a) | (n == 0) | (m == 0), msg);
}
static void got(void *p, uint64_t n, unsigned align)
{
	CHECK(p != NULL, "allocation succeeds");
	CHECK(((uint64_t)p & (align - 1)) == 0, "allocation has the requested alignment");
	CHECK(vp_accessible(p, n), "allocation is fully inside allocated memory");
	for (int i = 0; i < nb; i++) {
		if (live[i]) disjoint((char *)p, n, P[i], S[i], "allocation does not overlap another live one");
	}
	/* nor the pool's own headers */
	disjoint((char *)p, n, (char *)pool, sizeof(kgl_pool_t), "allocation does not overlap the pool header");
	for (kgl_pool_t *b = pool->d.next; b; b = b->d.next)
		disjoint((char *)p, n, (char *)b, sizeof(kgl_pool_data_t), "allocation does not overlap a block header");
	P[nb] = (char *)p;
	S[nb] = n;
	live[nb++] = true;
}
/* symbolic sizes, allocations only */
ENTRY(h_bump)
{
	kgl_pagesize = 4096;
	uint64_t psize = PMIN + CHOOSE(PVAR);
	uint64_t heap0 = vp_heap_bytes();
	pool = kgl_create_pool(psize);
	CHECK(pool != NULL && vp_accessible(pool, psize), "pool created with its size");
	int again = 0;
retry:
	for (int i = 0; i < OPS; i++) {
		uint64_t n = ND_U64();
		ASSUME(n <= pool->max);
		if (FLIP()) got(kgl_palloc(pool, n), n, sizeof(unsigned long));
		else got(kgl_pnalloc(pool, n), n, 1);
	}
	if (RESETS && !again) {
		kgl_reset_pool(pool);
		again = 1;
		nb = 0;
		REACH("reset");
		goto retry;
	}
	kgl_destroy_pool(pool);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
static int order[16], no, expected[16], ne;
static int ids[8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
static bool in_cleanup;
static void run_handler(void *d)
{
	CHECK(in_cleanup, "cleanup handlers run only on reset or destruction");
	CHECK(d != NULL && no < 16, "cleanup handler gets its data");
	order[no++] = *(int *)d;
}
static void run_handler2(void *d)
{
	run_handler(d);
}
static void fill(int i)
{
	for (uint64_t k = 0; k < S[i]; k++) P[i][k] = (char)(0x30 + i);
}
static void verify()
{
	for (int i = 0; i < nb; i++) {
		if (!live[i]) continue;
		bool ok = true;
		for (uint64_t k = 0; k < S[i]; k++) ok &= P[i][k] == (char)(0x30 + i);
		CHECK(ok, "contents of a live allocation stay unchanged");
	}
}
static void cleaned(bool dead)
{
	in_cleanup = false;
	CHECK(no == ne, "every cleanup handler ran exactly once");
	for (int i = 0; i < ne; i++) CHECK(order[i] == expected[ne - 1 - i], "cleanup handlers run newest first");
	no = ne = 0;
	for (int i = 0; i < nb; i++) {
		if (live[i] && large[i]) CHECK(!vp_accessible(P[i], 1), "large allocations are released");
		live[i] = false;
	}
}
static void step(int op)
{
	int b = nb;
	switch (op) {
	case 0: case 1: {
		uint64_t m = pool->max;
		uint64_t C[] = { 0, 1, 8, 13, m - 1, m, m + 1, m + 40 };
		int k = CHOOSE(8);
		uint64_t n = C[k];
		if (op == 0) got(kgl_palloc(pool, n), n, sizeof(unsigned long));
		else got(kgl_pnalloc(pool, n), n, 1);
		large[b] = k >= 6;
		break;
	}
	case 2: {
		uint64_t n = FLIP() ? 3 : 64;
		unsigned al = FLIP() ? 16 : 512;
		got(kgl_pmemalign(pool, n, al), n, al);
		large[b] = true;
		break;
	}
	case 3: { /* free one allocation */
		if (nb == 0) VP_STOP();
		int i = CHOOSE(nb);
		if (!live[i]) VP_STOP();
		if (S[i] == 0) VP_STOP();
		bool r = kgl_pfree(pool, P[i]);
		CHECK(r == large[i], "only separately allocated blocks are freed early");
		if (r) {
			CHECK(!vp_accessible(P[i], 1), "freed block is released");
			live[i] = false;
			REACH("freed");
		}
		break;
	}
	case 4: {
		int id = ne;
		kgl_cleanup_t *c = kgl_cleanup_add(pool, run_handler, FLIP() ? &ids[id] : NULL);
		CHECK(c != NULL, "handler registered");
		if (kgl_cleanup_get_data(c) == NULL) kgl_cleanup_set_data(c, &ids[id]);
		CHECK(kgl_cleanup_get_data(c) == &ids[id], "handler data");
		expected[ne++] = id;
		break;
	}
	case 5: {
		static kgl_cleanup_t *first;
		static int gen;
		kgl_cleanup_t *c = kgl_cleanup_insert(pool, run_handler2);
		CHECK(c != NULL && c->handler == run_handler2, "handler registered");
		bool known = false;
		for (kgl_cleanup_t *x = pool->cleanup; x; x = x->next) if (x != c && x->handler == run_handler2) known = true;
		CHECK(!known, "an already registered handler is not registered twice");
		if (c->data == NULL) {
			c->data = &ids[7];
			expected[ne++] = 7;
			first = c;
		} else CHECK(c == first, "inserting a registered handler returns the existing one");
		break;
	}
	case 6:
		in_cleanup = true;
		kgl_reset_pool(pool);
		cleaned(false);
		REACH("reset");
		break;
	}
	if (nb > b) fill(b);
	verify();
}
ENTRY(h_mixed)
{
	kgl_pagesize = 4096;
	uint64_t heap0 = vp_heap_bytes();
	pool = kgl_create_pool(112 + (FLIP() ? 21 : 0));
	for (int i = 0; i < OPS; i++) {
#ifdef FIRST
		step(i == 0 ? FIRST : CHOOSE(7));
#else
		step(CHOOSE(7));
#endif
	}
	in_cleanup = true;
	kgl_destroy_pool(pool);
	cleaned(true);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
/* many requests: later blocks, skipping of full blocks */
ENTRY(h_many)
{
	kgl_pagesize = 4096;
	uint64_t heap0 = vp_heap_bytes();
	pool = kgl_create_pool(112);
	for (int i = 0; i < 11; i++) {
		uint64_t n = FLIP() ? pool->max : 9;
		got((i & 1) ? kgl_pnalloc(pool, n) : kgl_palloc(pool, n), n, (i & 1) ? 1 : sizeof(unsigned long));
		fill(nb - 1);
	}
	verify();
	in_cleanup = true;
	kgl_destroy_pool(pool);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
ENTRY(h_large)
{
	kgl_pagesize = 4096;
	uint64_t heap0 = vp_heap_bytes();
	pool = kgl_create_pool(128);
	for (int i = 0; i < 7; i++) {
		uint64_t n = pool->max + 1 + i;
		got(kgl_palloc(pool, n), n, 1);
		large[nb - 1] = true;
		fill(nb - 1);
	}
	for (int i = 0; i < 7; i++) {
		if (!FLIP()) continue;
		CHECK(kgl_pfree(pool, P[i]), "large allocation freed early");
		CHECK(!vp_accessible(P[i], 1), "freed block is released");
		live[i] = false;
	}
	verify();
	for (int i = 0; i < 3; i++) {
		got(kgl_pnalloc(pool, 77), 77, 1);
		large[nb - 1] = true;
		fill(nb - 1);
	}
	verify();
	if (FLIP()) {
		int v = 7 + CHOOSE(3);
		CHECK(kgl_pfree(pool, P[v]), "large allocation freed early");
		CHECK(!vp_accessible(P[v], 1), "freed block is released");
		live[v] = false;
		verify();
	}
	in_cleanup = true;
	if (FLIP()) {
		kgl_reset_pool(pool);
		cleaned(false);
	}
	kgl_destroy_pool(pool);
	cleaned(true);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
/* ---- C06: arrays ---- */
#ifndef WANT
#define WANT 64
#endif
static uint8_t want[WANT][16];
static int cnt;
static uint64_t es;
static kgl_array_t *arr;
static void a_set(void *e, int i)
{
	for (uint64_t k = 0; k < es; k++) ((uint8_t *)e)[k] = want[i][k] = ND_U8();
}
static void a_verify()
{
	CHECK(arr->nelts == (size_t)cnt, "element count is the number pushed");
	CHECK(arr->nalloc >= arr->nelts, "capacity covers the elements");
	bool ok = true;
	for (int i = 0; i < cnt; i++) for (uint64_t k = 0; k < es; k++) ok &= ((uint8_t *)arr->elts)[i * es + k] == want[i][k];
	CHECK(ok, "elements keep their contents");
	verify();
}
static void a_new(void *e, int n)
{
	CHECK(e != NULL, "push succeeds");
	CHECK((char *)e == (char *)arr->elts + es * cnt, "storage follows the previous elements");
	CHECK(vp_accessible(e, es * n), "storage is inside allocated memory");
	for (int i = 0; i < nb; i++) if (live[i]) disjoint((char *)e, es * n, P[i], S[i], "storage does not overlap another allocation");
	disjoint((char *)e, es * n, (char *)arr, sizeof *arr, "storage does not overlap the array header");
	for (int i = 0; i < n; i++) a_set((char *)e + es * i, cnt + i);
	cnt += n;
}
ENTRY(h_array)
{
	kgl_pagesize = 4096;
	uint64_t heap0 = vp_heap_bytes();
	pool = kgl_create_pool(PMIN);
	int n0 = CHOOSE(4);
	static const uint64_t ES[] = { 1, 4, 12 };
	es = ES[CHOOSE(3)];
	kgl_array_t on_stack;
	bool heap = FLIP();
	if (heap) arr = kgl_array_create(pool, n0, es);
	else {
		arr = &on_stack;
		CHECK(kgl_array_init(arr, pool, n0, es), "array initialised");
	}
	CHECK(arr != NULL && arr->nelts == 0, "created empty");
	for (int i = 0; i < OPS; i++) {
		switch (CHOOSE(3)) {
		case 0:
			a_new(kgl_array_push(arr), 1);
			break;
		case 1: {
			int n = 1 + CHOOSE(4);
			a_new(kgl_array_push_n(arr, n), n);
			break;
		}
		default: {
			uint64_t n = FLIP() ? 8 : 40;
			int b = nb;
			got(FLIP() ? kgl_palloc(pool, n) : kgl_pnalloc(pool, n), n, 1);
			disjoint(P[b], n, (char *)arr->elts, es * arr->nalloc, "allocation does not overlap the array's storage");
			if (heap) disjoint(P[b], n, (char *)arr, sizeof *arr, "allocation does not overlap the array header");
			fill(b);
		}
		}
		a_verify();
	}
	if (FLIP()) {
		kgl_array_destroy(arr);
		got(kgl_palloc(pool, 24), 24, 1);
		fill(nb - 1);
		verify();
		REACH("destroyed");
	}
	kgl_destroy_pool(pool);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}

/* an array growing through many sizes, in the block and out of it */
ENTRY(h_array_grow)
{
	kgl_pagesize = 4096;
	uint64_t heap0 = vp_heap_bytes();
	pool = kgl_create_pool(PMIN);
	static const int N0[] = { 0, 1, 4, 20 };
	int n0 = N0[CHOOSE(4)];
	es = FLIP() ? 8 : 1;
	static const int STEPN[] = { 1, 5, 17 };
	int by = STEPN[CHOOSE(3)];
	int other = CHOOSE(5);          /* when something else is allocated */
	arr = kgl_array_create(pool, n0, es);
	CHECK(arr != NULL && arr->nelts == 0, "created empty");
	for (int i = 0; cnt + by <= WANT; i++) {
		char *e = (char *)(by == 1 ? kgl_array_push(arr) : kgl_array_push_n(arr, by));
		CHECK(e == (char *)arr->elts + es * cnt, "storage follows the previous elements");
		CHECK(vp_accessible(e, es * by), "storage is inside allocated memory");
		for (int k = 0; k < nb; k++) disjoint(e, es * by, P[k], S[k], "storage does not overlap another allocation");
		disjoint(e, es * by, (char *)arr, sizeof *arr, "storage does not overlap the array header");
		for (int k = 0; k < by; k++)
			for (uint64_t j = 0; j < es; j++) e[k * es + j] = want[cnt + k][j] = (uint8_t)((cnt + k) * 7 + j);
		cnt += by;
		if (other && i == other * other) {
			got(kgl_palloc(pool, 24), 24, 1);
			disjoint(P[nb - 1], 24, (char *)arr->elts, es * arr->nalloc, "allocation does not overlap the array's storage");
			memset(P[nb - 1], 0x77, 24);
		}
		CHECK(arr->nelts == (size_t)cnt && arr->nalloc >= arr->nelts, "element count is the number pushed");
	}
	bool ok = true;
	for (int i = 0; i < cnt; i++) for (uint64_t k = 0; k < es; k++) ok &= ((uint8_t *)arr->elts)[i * es + k] == want[i][k];
	CHECK(ok, "elements keep their contents");
	for (int i = 0; i < nb; i++) for (int k = 0; k < 24; k++) ok &= P[i][k] == 0x77;
	CHECK(ok, "and so does the other memory");
	kgl_destroy_pool(pool);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
/* pools of the usual sizes: what is small is bounded by the page, and blocks are large */
ENTRY(h_usual)
{
	kgl_pagesize = 4096;
	uint64_t heap0 = vp_heap_bytes();
	static const int ZS[] = { 256, 4096, 4160, 16384, 70000 };
	int z = ZS[CHOOSE(5)];
	pool = kgl_create_pool(z);
	CHECK(pool != NULL && vp_accessible(pool, z), "pool created with its size");
	for (int i = 0; i < 3; i++) {
		static const int NS[] = { 24, 2000, 4095, 4096, 5000, 66000 };
		uint64_t n = NS[CHOOSE(6)];
		if (FLIP()) got(kgl_palloc(pool, n), n, sizeof(unsigned long));
		else got(kgl_pnalloc(pool, n), n, 1);
		P[nb - 1][0] = (char)(0x30 + nb - 1);
		P[nb - 1][n - 1] = (char)(0x30 + nb - 1);
	}
	bool ok = true;
	for (int i = 0; i < nb; i++) ok &= P[i][0] == (char)(0x30 + i) && P[i][S[i] - 1] == (char)(0x30 + i);
	CHECK(ok, "contents of a live allocation stay unchanged");
	if (FLIP()) {
		kgl_reset_pool(pool);
		nb = 0;
		got(kgl_palloc(pool, 2000), 2000, sizeof(unsigned long));
		memset(P[0], 1, 2000);
	}
	kgl_destroy_pool(pool);
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
