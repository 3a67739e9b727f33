/* C02: comparison functions */
#include "vp.h"
#include "krbtree.h"
#include "ksocket.h"
#ifndef N
#define N 4
#endif
static int sg(int x) { return x < 0 ? -1 : x > 0; }
ENTRY(h_int)
{
	int a = ND_INT(), b = ND_INT();
	int r = rbtree_int_cmp(&a, &b);
	CHECK(sg(r) == (a < b ? -1 : a > b), "integer comparison has the sign of the order");
	REACH("end");
}
static char A[N + 1], B[N + 1];
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
ENTRY(h_string)
{
	for (int i = 0; i < N; i++) {
		A[i] = ND_CHAR();
		B[i] = ND_CHAR();
	}
	int fold = FLIP();
	int want = 0;
	for (int i = 0; i <= N; i++) {
		int x = (unsigned char)A[i], y = (unsigned char)B[i];
		if (fold) { x = lower(x); y = lower(y); }
		if (x != y) { want = x < y ? -1 : 1; break; }
		if (x == 0) break;
	}
	const char *pa = A, *pb = B;
	int r, r2;
	if (fold) {
		r = rbtree_string_case_cmp(&pa, &pb);
		r2 = rbtree_string_case_cmp(&pb, &pa);
	} else if (FLIP()) {
		r = rbtree_string_cmp(&pa, &pb);
		r2 = rbtree_string_cmp(&pb, &pa);
	} else {
		r = rbtree_file_cmp(&pa, &pb);
		r2 = rbtree_file_cmp(&pb, &pa);
	}
	CHECK((r == 0) == (want == 0), "equal exactly for equal strings");
	CHECK(sg(r) == want, "byte order");
	CHECK(sg(r2) == -want, "antisymmetric");
	REACH("end");
}
/* longer strings that differ, if at all, behind a common beginning */
ENTRY(h_string_long)
{
	static const int at[] = { 1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 255, 256, 1000 };
	static char LA[1010], LB[1010];
	int n = at[CHOOSE(17)], fold = FLIP(), file = !fold && FLIP();
	for (int i = 0; i < n; i++) {
		LA[i] = "aBc/.9-_"[i % 8];
		LB[i] = fold ? "AbC/.9-_"[i % 8] : LA[i];
	}
	char x[3], y[3];
	for (int i = 0; i < 2; i++) { x[i] = ND_CHAR(); y[i] = ND_CHAR(); }
	x[2] = y[2] = 0;
	int want = 0;
	for (int i = 0; i < 3; i++) {
		LA[n + i] = x[i];
		LB[n + i] = y[i];
		int u = (unsigned char)x[i], v = (unsigned char)y[i];
		if (fold) { u = lower(u); v = lower(v); }
		if (u != v) { want = u < v ? -1 : 1; break; }
		if (u == 0) break;
	}
	const char *pa = LA, *pb = LB;
	int r = fold ? rbtree_string_case_cmp(&pa, &pb) : file ? rbtree_file_cmp(&pa, &pb) : rbtree_string_cmp(&pa, &pb);
	CHECK(sg(r) == want, "the first difference decides, however far behind");
	REACH("end");
}
static void mk(sockaddr_i *s)
{
	uint8_t *p = (uint8_t *)s;
	memset(s, 0, sizeof *s);
	if (FLIP()) {
		s->v4.sin_family = AF_INET;
		s->v4.sin_port = ND_U16();
		s->v4.sin_addr.s_addr = ND_U32();
	} else {
		s->v6.sin6_family = AF_INET6;
		s->v6.sin6_port = ND_U16();
		for (int i = 0; i < 16; i++) s->v6.sin6_addr.s6_addr[i] = ND_U8();
	}
}
static int fam(sockaddr_i *s) { return s->v4.sin_family; }
static bool same_host(sockaddr_i *a, sockaddr_i *b)
{
	if (fam(a) != fam(b)) return false;
	if (fam(a) == AF_INET) return a->v4.sin_addr.s_addr == b->v4.sin_addr.s_addr;
	bool eq = true;
	for (int i = 0; i < 16; i++) eq &= a->v6.sin6_addr.s6_addr[i] == b->v6.sin6_addr.s6_addr[i];
	return eq;
}
ENTRY(h_sockaddr)
{
	sockaddr_i a, b, c;
	mk(&a);
	mk(&b);
	mk(&c);
	int ab = sg(ksocket_addr_compare(&a, &b)), ba = sg(ksocket_addr_compare(&b, &a));
	int bc = sg(ksocket_addr_compare(&b, &c)), ac = sg(ksocket_addr_compare(&a, &c));
	bool eq = same_host(&a, &b);
	CHECK((ab == 0) == eq, "equal exactly when family and address agree");
	CHECK(!eq | (ksocket_addr_hash(&a) == ksocket_addr_hash(&b)), "equal addresses have equal hashes");
	CHECK(ab == -ba, "antisymmetric");
	CHECK(!((ab <= 0) & (bc <= 0)) | (ac <= 0), "transitive");
	CHECK(!((ab <= 0) & (bc < 0)) | (ac < 0), "strictly transitive");
	REACH("end");
}
static void mki(ip_addr *a)
{
	memset(a, 0, sizeof *a);
	if (FLIP()) {
		a->sin_family = AF_INET;
		a->addr32[0] = ND_U32();
	} else {
		a->sin_family = AF_INET6;
		for (int i = 0; i < 4; i++) a->addr32[i] = ND_U32();
	}
}
ENTRY(h_ipaddr)
{
	ip_addr a, b, c;
	mki(&a);
	mki(&b);
	mki(&c);
	int ab = sg(ksocket_ipaddr_compare(&a, &b)), ba = sg(ksocket_ipaddr_compare(&b, &a));
	int bc = sg(ksocket_ipaddr_compare(&b, &c)), ac = sg(ksocket_ipaddr_compare(&a, &c));
	bool eq = a.sin_family == b.sin_family;
	for (int i = 0; i < (a.sin_family == AF_INET ? 1 : 4); i++) eq &= a.addr32[i] == b.addr32[i];
	CHECK((ab == 0) == eq, "equal exactly when family and address agree");
	CHECK(ab == -ba, "antisymmetric");
	CHECK(!((ab <= 0) & (bc <= 0)) | (ac <= 0), "transitive");
	CHECK(!((ab <= 0) & (bc < 0)) | (ac < 0), "strictly transitive");
	REACH("end");
}
ENTRY(h_ipaddr_ops)
{
	ip_addr a, b, c;
	mki(&a);
	mki(&b);
	mki(&c);
	bool eq = a.sin_family == b.sin_family;
	for (int i = 0; i < (a.sin_family == AF_INET ? 1 : 4); i++) eq &= a.addr32[i] == b.addr32[i];
	CHECK((a == b) == eq, "== agrees with equality of family and address");
	CHECK(!((a < b) & (b < a)), "< is asymmetric");
	CHECK(((a < b) | (b < a)) == !eq, "< is total and agrees with ==");
	CHECK(!((a < b) & (b < c)) | (a < c), "< is transitive");
	CHECK(!eq | (a.sin_family == AF_INET) | (a.get_hash() == b.get_hash()), "equal addresses have equal hashes");
	REACH("end");
}
