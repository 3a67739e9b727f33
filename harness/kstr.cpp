/* C32: reference counted strings, intrusive lists and the atomic operations under them (kstring.h, klist.h, katom.h) */
#ifdef THREADS
#define MAXT 5
#include "vp_sched.h"
#else
#include "vp.h"
#endif
#include "kstring.h"
#include "klist.h"
#include "katom.h"
#ifndef OPS
#define OPS 4
#endif
#ifndef LEN
#define LEN 4
#endif
#ifndef THREADS
/* one thread: any history of references, any bytes */
ENTRY(h_string)
{
	uint64_t h0 = vp_heap_bytes();
	char src[LEN + 1], keep[LEN + 1];
	int n = CHOOSE(LEN + 1);
	for (int i = 0; i < n; i++) keep[i] = src[i] = ND_CHAR();
	kgl_ref_str_t *s = NULL;
	CHECK(kstring_from(NULL) == NULL && kstring_refs(NULL) == NULL, "no string");
	kstring_release(NULL);
	switch (CHOOSE(3)) {
	case 0: {
		/* up to the terminator */
		for (int i = 0; i < n; i++) ASSUME(src[i] != 0);
		keep[n] = src[n] = 0;
		s = kstring_from(src);
		break;
	}
	case 1: s = kstring_from2(src, n); break;
	case 2: {
		char *own = (char *)xmalloc(n + 1);
		memcpy(own, src, n);
		own[n] = 0;
		s = convert_refs_string(own, n);
		CHECK(s->data == own, "takes the bytes over");
		REACH("taken over");
		break;
	}
	}
	memset(src, 0x5a, sizeof(src));
	int refs = 1;
	for (int i = 0; ; i++) {
		CHECK(kstring_get_ref(s) == (uint32_t)refs, "counts the references");
		CHECK(s->len == (uint32_t)n && vp_accessible(s->data, n + 1), "holds the whole string");
		CHECK(memcmp(s->data, keep, n) == 0 && s->data[n] == 0, "with the given bytes, terminated");
		if (i == OPS) break;
		if (FLIP()) { CHECK(kstring_refs(s) == s, "the same string"); refs++; }
		else if (refs > 1) { kstring_release(s); refs--; }
		else break;
	}
	while (refs > 0) {
		CHECK(vp_heap_bytes() > h0, "kept while referenced");
		kstring_release(s);
		refs--;
	}
	CHECK(vp_heap_bytes() == h0, "the last reference releases everything");
	CHECK(kgl_len_str_size(n) == sizeof(kgl_len_str_t) + n + 1, "room for the length, the bytes and the terminator");
	REACH("end");
}
/* long strings, with any byte anywhere in them */
ENTRY(h_string_long)
{
	uint64_t h0 = vp_heap_bytes();
	static const int LENS[] = { 7, 8, 9, 15, 16, 17, 31, 63, 64, 127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 32768, 65535, 65536, 70000 };
	int n = LENS[CHOOSE(22)];
	char *src = (char *)malloc(n + 1), *keep = (char *)malloc(n + 1);
	for (int i = 0; i < n; i++) src[i] = (char)(i % 251 + 1);
	int at[3] = { 0, n / 2, n - 1 };
	int how = CHOOSE(3);
	for (int k = 0; k < 3; k++) {
		src[at[k]] = ND_CHAR();
		if (how == 0) ASSUME(src[at[k]] != 0);
	}
	src[n] = 0;
	memcpy(keep, src, n + 1);
	kgl_ref_str_t *s;
	if (how == 0) s = kstring_from(src);
	else if (how == 1) s = kstring_from2(src, n);
	else {
		char *own = (char *)xmalloc(n + 1);
		memcpy(own, src, n + 1);
		s = convert_refs_string(own, n);
	}
	memset(src, 0x5a, n + 1);
	free(src);
	CHECK(s->len == (uint32_t)n && vp_accessible(s->data, n + 1), "holds the whole string");
	CHECK(memcmp(s->data, keep, n) == 0 && s->data[n] == 0, "with the given bytes, terminated");
	free(keep);
	CHECK(kgl_len_str_size(n) == sizeof(kgl_len_str_t) + n + 1, "room for the length, the bytes and the terminator");
	/* as many users as the string has bytes, at most 300 */
	int users = n < 300 ? n : 300;
	for (int i = 0; i < users; i++) CHECK(kstring_refs(s) == s, "the same string");
	CHECK(kstring_get_ref(s) == (uint32_t)users + 1, "counts the references");
	for (int i = 0; i < users; i++) kstring_release(s);
	CHECK(kstring_get_ref(s) == 1 && vp_accessible(s->data, n + 1), "kept while referenced");
	kstring_release(s);
	CHECK(vp_heap_bytes() == h0, "the last reference releases everything");
	REACH("end");
}
/* lists: items may move between two lists */
struct item { int pad; kgl_list q; int no; };
#define NI 4
static item it[NI];
static kgl_list L[2];
static int ref_[2][NI], nref[2];
static void check_lists()
{
	for (int l = 0; l < 2; l++) {
		kgl_list *p;
		int i = 0;
		klist_foreach(p, &L[l]) {
			CHECK(i < nref[l], "no other items");
			item *x = kgl_list_data(p, item, q);
			CHECK(x == &it[ref_[l][i]], "the items in their order");
			i++;
		}
		CHECK(i == nref[l], "all items");
		klist_rforeach(p, &L[l]) {
			i--;
			CHECK(i >= 0 && kgl_list_data(p, item, q) == &it[ref_[l][i]], "the same backwards");
		}
		CHECK(i == 0, "all items backwards");
		CHECK(klist_empty(&L[l]) == (nref[l] == 0), "empty when there are none");
		kgl_list *h = klist_head(&L[l]);
		kgl_list *e = klist_end(&L[l]);
		CHECK(h == (nref[l] ? &it[ref_[l][0]].q : &L[l]) && e == (nref[l] ? &it[ref_[l][nref[l] - 1]].q : &L[l]), "first and last");
	}
}
static int where(int l, int i) { for (int k = 0; k < nref[l]; k++) if (ref_[l][k] == i) return k; return -1; }
static void ref_insert(int l, int at, int i)
{
	for (int k = nref[l]; k > at; k--) ref_[l][k] = ref_[l][k - 1];
	ref_[l][at] = i;
	nref[l]++;
}
ENTRY(h_list)
{
	klist_init(&L[0]);
	klist_init(&L[1]);
	for (int i = 0; i < NI; i++) { it[i].no = i; memset(&it[i].q, 0x5a, sizeof(it[i].q)); }
	for (int s = 0; s < OPS; s++) {
		int i = CHOOSE(NI);
		int l = where(0, i) >= 0 ? 0 : where(1, i) >= 0 ? 1 : -1;
		if (l >= 0) {
			int at = where(l, i);
			klist_remove(&it[i].q);
			for (int k = at; k + 1 < nref[l]; k++) ref_[l][k] = ref_[l][k + 1];
			nref[l]--;
			REACH("removed");
		} else {
			l = CHOOSE(2);
			int at = CHOOSE(nref[l] + 2);
			if (at == nref[l] + 1) { klist_append(&L[l], &it[i].q); at = nref[l]; }
			else if (at == nref[l]) klist_insert_tail(&L[l], &it[i].q);
			else klist_insert(&it[ref_[l][at]].q, &it[i].q);
			ref_insert(l, at, i);
		}
		check_lists();
	}
	REACH("end");
}
/* a list taken apart while walking it, as the loops do */
ENTRY(h_walk)
{
	klist_init(&L[0]);
	klist_init(&L[1]);
	int n = CHOOSE(NI + 1);
	for (int i = 0; i < n; i++) { klist_append(&L[0], &it[i].q); ref_insert(0, i, i); }
	kgl_list *p = L[0].next;
	for (int i = 0; p != &L[0]; i++) {
		CHECK(kgl_list_data(p, item, q) == &it[i], "every item once, in order");
		kgl_list *next = p->next;
		if (FLIP()) {
			klist_remove(p);
			klist_append(&L[1], p);
			int at = where(0, i);
			for (int k = at; k + 1 < nref[0]; k++) ref_[0][k] = ref_[0][k + 1];
			nref[0]--;
			ref_insert(1, nref[1], i);
			REACH("moved");
		}
		p = next;
	}
	check_lists();
	REACH("end");
}
static kgl_forward_list F, fi[NI];
ENTRY(h_forward)
{
	bool in[NI] = { false };
	kforward_list_init(&F);
	for (int s = 0; s <= OPS; s++) {
		int n = 0, seen = 0;
		bool got[NI] = { false };
		for (int i = 0; i < NI; i++) n += in[i];
		for (kgl_forward_list *p = F.next; p != &F; p = p->next) {
			CHECK(p >= fi && p < fi + NI && ++seen <= n, "only its items");
			CHECK(in[p - fi] && !got[p - fi], "each once");
			got[p - fi] = true;
		}
		CHECK(seen == n, "all of them");
		CHECK(kforward_list_empty(&F) == (n == 0), "empty when there are none");
		if (s == OPS) break;
		int i = CHOOSE(NI);
		if (in[i] || FLIP()) {
			bool r = kfoward_list_remove(&F, &fi[i]);
			CHECK(r == in[i], "tells whether the item was there");
			in[i] = false;
			REACH(r ? "removed" : "not there");
		} else { kforward_list_append(&F, &fi[i]); in[i] = true; }
	}
	REACH("end");
}
/* atomic operations: values, results and neighbouring memory */
ENTRY(h_values)
{
	struct { uint64_t before; union { uint64_t v64; uint32_t v32[2]; uint16_t v16[4]; }; uint64_t after; } m;
	uint64_t v = ND_U64(), d = ND_U64(), c = FLIP() ? v : ND_U64(), r = 0;
	m.before = m.after = 0x5a5a5a5a5a5a5a5aULL;
	m.v64 = v;
	int bits = 64;
	uint64_t want = v, ret = 0;
	bool eq;
	switch (CHOOSE(19)) {
	case 0: r = katom_inc64(&m.v64); want = v + 1; ret = want; break;
	case 1: r = (uint64_t)katom_dec64(&m.v64); want = v - 1; ret = want; break;
	case 2: r = (uint64_t)katom_add64(&m.v64, (int64_t)d); want = v + d; ret = v; break;
	case 3: r = (uint64_t)katom_sub64(&m.v64, (int64_t)d); want = v - d; ret = v; break;
	case 4: r = (uint64_t)katom_set64(&m.v64, d); want = d; ret = v; break;
	case 5: r = katom_get64(&m.v64); ret = v; break;
	case 6: eq = c == v; r = katom_cas64(&m.v64, (int64_t)c, (int64_t)d); want = eq ? d : v; ret = eq; break;
	case 7: bits = 32; r = katom_inc(&m.v32[0]); want = v + 1; ret = want; break;
	case 8: bits = 32; r = katom_dec(&m.v32[0]); want = v - 1; ret = want; break;
	case 9: bits = 32; r = katom_add(&m.v32[0], (int32_t)d); want = v + d; ret = v; break;
	case 10: bits = 32; ASSUME((int32_t)d != INT32_MIN); r = katom_sub(&m.v32[0], (int32_t)d); want = v - d; ret = v; break;
	case 11: bits = 32; r = katom_set(&m.v32[0], (uint32_t)d); want = d; ret = v; break;
	case 12: bits = 32; r = katom_get(&m.v32[0]); ret = v; break;
	case 13: bits = 32; eq = (uint32_t)c == (uint32_t)v; r = katom_cas(&m.v32[0], (int32_t)c, (int32_t)d); want = eq ? d : v; ret = eq; break;
	case 14: bits = 16; r = (uint16_t)katom_inc16(&m.v16[0]); want = v + 1; ret = want; break;
	case 15: bits = 16; r = (uint16_t)katom_dec16(&m.v16[0]); want = v - 1; ret = want; break;
	case 16: bits = 16; r = katom_set16(&m.v16[0], (uint16_t)d); want = d; ret = v; break;
	case 17: bits = 16; eq = (uint16_t)c == (uint16_t)v; r = katom_cas16(&m.v16[0], (int16_t)c, (int16_t)d); want = eq ? d : v; ret = eq; break;
	case 18: bits = 32; r = katom_get((void *)&m.v32[1]); ret = v >> 32; break;
	}
	uint64_t mask = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
	CHECK(m.v64 == ((want & mask) | (v & ~mask)), "the new value, and nothing next to it");
	CHECK((r & mask) == (ret & mask), "the result");
	CHECK(m.before == 0x5a5a5a5a5a5a5a5aULL && m.after == m.before, "nothing next to it");
	REACH("end");
}
#else
VP_HARNESS_BEGIN
#ifndef NT
#define NT 2
#endif
static kgl_ref_str_t *S;
static uint64_t heap0;
static const char text_[] = "shared";
static void look(kgl_ref_str_t *s)
{
	CHECK(vp_accessible(s, sizeof(*s)) && vp_accessible(s->data, 7), "kept while referenced");
	CHECK(s->len == 6 && !memcmp(s->data, text_, 7), "unchanged");
}
static void *user(void *)
{
	kgl_ref_str_t *s = S;
	int held = 1;
	if (FLIP()) { kstring_refs(s); held++; }
	while (held-- > 0) { look(s); kstring_release(s); }
	return NULL;
}
ENTRY(h_shared)
{
	heap0 = vp_heap_bytes();
	S = kstring_from(text_);
	for (int i = 0; i < NT; i++) { kstring_refs(S); sched_spawn(user, NULL); }
	sched_watch(S, sizeof(*S));
	bool keep = FLIP();
	if (!keep) { sched_spawn([](void *) -> void * { look(S); kstring_release(S); return NULL; }, NULL); REACH("released by the last user"); }
	CHECK(sched_run() == 0, "nobody waits");
	if (keep) { look(S); CHECK(kstring_get_ref(S) == 1, "one reference is left"); kstring_release(S); }
	CHECK(vp_heap_bytes() == heap0, "released once, with the last reference");
	REACH("end");
}
/* no update is lost */
static struct { uint32_t n, c; uint64_t w; uint16_t h; uint32_t won; } A;
static void *adder(void *a)
{
	katom_inc(&A.n);
	katom_add(&A.n, 5);
	katom_sub(&A.n, 2);
	katom_add64(&A.w, 7);
	katom_inc64(&A.w);
	katom_dec64(&A.w);
	katom_inc16(&A.h);
	if (katom_cas(&A.c, 0, 1 + (int)(intptr_t)a)) katom_inc(&A.won);
	return NULL;
}
ENTRY(h_atoms)
{
	sched_watch(&A, sizeof(A));
	for (int i = 0; i < NT; i++) sched_spawn(adder, (void *)(intptr_t)i);
	CHECK(sched_run() == 0, "nobody waits");
	CHECK(A.n == NT * 4 && A.w == NT * 7 && A.h == NT, "no update is lost");
	CHECK(A.won == 1 && A.c >= 1 && A.c <= NT, "one exchange succeeds");
	REACH("end");
}
VP_HARNESS_END
#endif
