/* C28: lists of TLS protocol versions (kgl_ssl.c kgl_ssl_ctx_set_protocols) */
#include "vp.h"
#include "env.h"
#include "kgl_ssl.h"
#ifndef TOKENS
#define TOKENS 3
#endif
static char ctx_obj[16];
#define CTX ((SSL_CTX *)ctx_obj)
static uint64_t options;
static long min_v, max_v;
extern "C" {
void klog(int, const char *, ...) {}
uint64_t SSL_CTX_set_options(SSL_CTX *c, uint64_t o) { CHECK(c == CTX, "own context"); return options |= o; }
uint64_t SSL_CTX_clear_options(SSL_CTX *c, uint64_t o) { CHECK(c == CTX, "own context"); return options &= ~o; }
uint64_t SSL_CTX_get_options(const SSL_CTX *c) { return options; }
long SSL_CTX_ctrl(SSL_CTX *c, int cmd, long v, void *)
{
	CHECK(c == CTX && (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION || cmd == SSL_CTRL_SET_MAX_PROTO_VERSION), "only the version limits are set");
	if (cmd == SSL_CTRL_SET_MIN_PROTO_VERSION) min_v = v; else max_v = v;
	return 1;
}
}
static const struct { const char *name[2]; long version; uint64_t off; } V[] = {
	{ { "SSLv2", "sslV2" }, 2, 0 },
	{ { "SSLv3", "sslv3" }, SSL3_VERSION, SSL_OP_NO_SSLv3 },
	{ { "TLSv1", "TLSV1" }, TLS1_VERSION, SSL_OP_NO_TLSv1 },
	{ { "TLSv1.1", "tlsv1.1" }, TLS1_1_VERSION, SSL_OP_NO_TLSv1_1 },
	{ { "TLSv1.2", "tlsv1.2" }, TLS1_2_VERSION, SSL_OP_NO_TLSv1_2 },
	{ { "TLSv1.3", "TLSV1.3" }, TLS1_3_VERSION, SSL_OP_NO_TLSv1_3 },
	{ { "TLSv1.4", "TLS" }, 0, 0 },
};
#define ALL (SSL_OP_NO_SSLv3 | SSL_OP_NO_TLSv1 | SSL_OP_NO_TLSv1_1 | SSL_OP_NO_TLSv1_2 | SSL_OP_NO_TLSv1_3)
static bool enabled(int i)
{
	return V[i].version >= min_v && (max_v == 0 || V[i].version <= max_v) && !(options & V[i].off);
}
static char text[64];
static int len;
static void put(const char *s) { while (*s) text[len++] = *s++; text[len] = 0; }
static void space() { static const char *const sp[] = { " ", "\t", "\n", " \r\n  " }; put(sp[CHOOSE(4)]); }
ENTRY(h_list)
{
	/* whatever was configured before */
	options = ND_U64();
	min_v = FLIP() ? 0 : TLS1_2_VERSION;
	max_v = FLIP() ? 0 : TLS1_1_VERSION;
	uint64_t other = options & ~ALL;
	unsigned want = 0;
	int n = 1 + CHOOSE(TOKENS);
	if (n < 3 && FLIP()) space();
	for (int i = 0; i < n; i++) {
		int k = CHOOSE(7);
		if (i > 0) { if (n < 3) space(); else put(" "); }
		put(V[k].name[n < 3 ? FLIP() : 0]);
		want |= 1u << k;
	}
	if (FLIP()) put(" \t");
	char copy[64];
	memcpy(copy, text, sizeof(copy));
	uint64_t heap = vp_heap_bytes();
	kgl_ssl_ctx_set_protocols(CTX, text);
	CHECK(vp_heap_bytes() == heap, "no memory is kept");
	CHECK(memcmp(copy, text, len + 1) == 0, "the list itself is not changed");
	for (int i = 1; i < 6; i++) CHECK(enabled(i) == (((want >> i) & 1) != 0), "exactly the named versions are enabled");
	CHECK((options & ~ALL) == other, "no other option is touched");
	REACH("end");
}
/* a list of symbolic characters */
ENTRY(h_text)
{
	static char s[6];
	bool any = false;
	int n = 1 + CHOOSE(5);
	for (int i = 0; i < n; i++) { s[i] = ND_CHAR(); ASSUME(s[i] != 0); }
	options = ND_U64();
	kgl_ssl_ctx_set_protocols(CTX, s);
	/* only "TLSv1", "SSLv2" and "SSLv3" are that short */
	for (int i = 3; i < 6; i++) CHECK(!enabled(i), "versions that were not named are disabled");
	bool t = n == 5 && (s[0] | 32) == 't' && (s[1] | 32) == 'l' && (s[2] | 32) == 's' && (s[3] | 32) == 'v' && s[4] == '1';
	bool u = n == 5 && (s[0] | 32) == 's' && (s[1] | 32) == 's' && (s[2] | 32) == 'l' && (s[3] | 32) == 'v' && s[4] == '3';
	CHECK(enabled(2) == t && enabled(1) == u, "exactly the named versions are enabled");
	REACH(t ? "named" : "other");
	REACH("end");
	(void)any;
}
