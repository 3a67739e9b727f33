/* C05/C06 when memory runs out: a request fails as a whole, nothing is lost and what was handed out stays usable */
#include "vp.h"
#include "kmalloc.h"
static int left_;
static bool ran_out;
static bool fails()
{
	if (left_ > 0 && FLIP()) {
		left_--;
		ran_out = true;
		return true;
	}
	return false;
}
extern "C" void *vp_malloc(size_t n)
{
	return fails() ? NULL : calloc(1, n);
}
extern "C" void *vp_memalign(size_t al, size_t n)
{
	void *p;
	if (fails() || posix_memalign(&p, al, n) != 0) return NULL;
	return p;
}
static char *P[16];
static size_t S[16];
static int nb;
static void got(void *p, size_t n)
{
	CHECK(vp_accessible(p, n), "allocation is fully inside allocated memory");
	P[nb] = (char *)p;
	S[nb] = n;
	memset(p, 0x30 + nb, n);
	nb++;
}
static int runs;
static void cleanup(void *d) { runs++; (void)d; }
ENTRY(h_nomem)
{
	kgl_pagesize = 4096;
	uint64_t heap0 = vp_heap_bytes();
	left_ = 2;
	kgl_pool_t *pool = kgl_create_pool(128);
	if (pool == NULL) {
		CHECK(ran_out && vp_heap_bytes() == heap0, "no pool only without memory, and nothing kept");
		REACH("no pool");
		REACH("end");
		return;
	}
	CHECK(!ran_out, "a pool only when there was memory");
	int cleanups = 0;
	kgl_array_t *arr = NULL;
	int cnt = 0;
	for (int i = 0; i < OPS; i++) {
		ran_out = false;
		void *p = NULL;
		size_t n = 0;
		switch (CHOOSE(5)) {
		case 0: n = FLIP() ? 24 : pool->max; p = kgl_palloc(pool, n); break;
		case 1: n = pool->max + 7; p = kgl_palloc(pool, n); break;
		case 2: n = 64; p = kgl_pmemalign(pool, n, 64); break;
		case 3: {
			kgl_cleanup_t *c = FLIP() ? kgl_cleanup_add(pool, cleanup, &runs) : kgl_cleanup_insert(pool, cleanup);
			CHECK(c != NULL || ran_out, "registered when there is memory");
			if (c) {
				int k = 0;
				for (kgl_cleanup_t *x = pool->cleanup; x; x = x->next) k++;
				CHECK(k == cleanups || k == cleanups + 1, "registered");
				cleanups = k;
			}
			break;
		}
		case 4: {
			if (arr == NULL) {
				arr = kgl_array_create(pool, 2, 24);
				CHECK(arr != NULL || ran_out, "created when there is memory");
				break;
			}
			void *elts = arr->elts;
			size_t room = arr->nalloc;
			char *e = (char *)(FLIP() ? kgl_array_push(arr) : kgl_array_push_n(arr, 3));
			if (e == NULL) {
				CHECK(ran_out, "pushed when there is memory");
				CHECK(arr->nelts == (size_t)cnt && arr->elts == elts && arr->nalloc == room, "a failed push leaves the array as it was");
				REACH("not pushed");
				break;
			}
			int k = (int)arr->nelts - cnt;
			CHECK(k == 1 || k == 3, "as many elements as asked for");
			CHECK(vp_accessible(e, 24 * k), "storage is inside allocated memory");
			for (int j = 0; j < k; j++) memset(e + 24 * j, 0x50 + cnt++, 24);
			break;
		}
		}
		if (n) {
			CHECK(p != NULL || ran_out, "a request fails only without memory");
			if (p) got(p, n);
			else REACH("failed");
		}
		bool ok = true;
		for (int j = 0; j < nb; j++) for (size_t b = 0; b < S[j]; b++) ok &= P[j][b] == (char)(0x30 + j);
		for (int j = 0; j < cnt; j++) for (int b = 0; b < 24; b++) ok &= ((char *)arr->elts)[24 * j + b] == (char)(0x50 + j);
		CHECK(ok, "what was handed out keeps its contents");
	}
	if (FLIP()) {
		kgl_reset_pool(pool);
		CHECK(runs == cleanups, "every cleanup handler ran exactly once");
		cleanups = runs = 0;
	}
	kgl_destroy_pool(pool);
	CHECK(runs == cleanups, "every cleanup handler ran exactly once");
	CHECK(vp_heap_bytes() == heap0, "destroying returns all memory");
	REACH("end");
}
