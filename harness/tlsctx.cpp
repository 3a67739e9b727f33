/* C34: making TLS contexts, and the callbacks they install (kgl_ssl.c), over a model of the TLS library's
 * objects: every one of them is counted, any one call may fail. */
#include "vp.h"
#include "env.h"
#include <stdarg.h>
#include "kconnection.h"
#include "kserver.h"
#include "kgl_ssl.h"
#include "kstring.h"
#ifndef FAULTS
#define FAULTS 1
#endif
#define CHAIN 3
enum { NONE, CERT, KEY };
static char ctx_obj[16], ssl_obj[16], bio_obj[16], md_obj[16], chain_obj[16], pkey_obj[16], names_obj[16], fp_obj[16], other_ctx[16], method_obj[4];
static char x509_obj[CHAIN + 2];
#define CTX ((SSL_CTX *)ctx_obj)
#define TLS ((SSL *)ssl_obj)
static int ctx_refs, bio_refs, md_refs, chain_refs, pkey_refs, fp_refs, x_refs[CHAIN + 2];
static int x_made, in_chain;         /* certificates read, certificates on the list */
static int bio_src, bio_at, ctx_chain, ctx_pkey, ctx_cert, pkey_src, cert_src, file_cert, file_key;
static uint64_t ctx_opts;
static long ctx_mode, ctx_cache;
static int ctx_verify, sid_len, locations, digested, key_tries;
static bool sid_fault, sid_done, no_more;
static void *ctx_data;
static int n_certs, damaged_at;      /* what the certificate source holds */
static int faults = FAULTS;
static const char *ca_file_, *ca_path_, *cert_name, *key_name;
static int (*sni_cb)(SSL *, int *, void *);
static SSL_CTX_alpn_select_cb_func alpn_cb;
static SSL_CTX_npn_advertised_cb_func npn_cb;
static bool cert_given, cert_mem, key_mem;
static kgl_ref_str_t cert_s, key_s;
static int data_obj, other_data;
static int ctx_slot, session_slot;   /* where the library keeps its data */
static bool queue_;                  /* errors left in the thread's queue */
static bool fails() { if (faults <= 0 || !FLIP()) return false; faults--; queue_ = true; return true; }
static void x_free(int i) { CHECK(x_refs[i] > 0, "a certificate is released once"); x_refs[i]--; }
static int x_index(const void *p) { int i = (int)((const char *)p - x509_obj); CHECK(i >= 0 && i < x_made, "a certificate that was read"); return i; }
static void drop_chain()
{
	CHECK(chain_refs > 0, "the list is released once");
	chain_refs = 0;
	for (int i = 0; i < in_chain; i++) x_free(i + 1);
	in_chain = 0;
}
/* the names and texts below, by content */
static int which(const char *s)
{
	if (key_name && !strcmp(s, key_name)) return KEY;
	if (cert_name && !strcmp(s, cert_name)) return CERT;
	CHECK(false, "the certificate's or the key's own file");
	return NONE;
}
static BIO *open_bio(int src)
{
	if (fails()) return NULL;
	CHECK(!bio_refs, "one source at a time");
	bio_refs = 1;
	bio_src = src;
	bio_at = 0;
	return (BIO *)bio_obj;
}
#ifdef PASSWORDS
static int key_locked, key_pw;       /* which of the passwords opens the key, if any */
static char pw_text[PASSWORDS][8];
static kgl_str_t pws[PASSWORDS];
#endif
extern "C" {
void klog(int, const char *, ...) {}
int fprintf(FILE *, const char *, ...) { return 0; }
FILE *fopen(const char *name, const char *mode)
{
	CHECK(which(name) == (cert_given ? CERT : KEY) && !fp_refs, "the certificate's file");
	if (FLIP()) return NULL;
	fp_refs = 1;
	return (FILE *)fp_obj;
}
static int file_left;
size_t fread(void *p, size_t size, size_t n, FILE *f)
{
	CHECK(f == (FILE *)fp_obj && fp_refs == 1 && vp_accessible(p, size * n), "reads the open file");
	if (!file_left) return 0;
	file_left--;
	memset(p, 'c', 3);
	return 3 / size;
}
int fclose(FILE *f) { CHECK(f == (FILE *)fp_obj && fp_refs == 1, "closed once"); fp_refs = 0; return 0; }
const SSL_METHOD *TLS_method(void) { return (const SSL_METHOD *)method_obj; }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *m)
{
	CHECK(m == (const SSL_METHOD *)method_obj && !ctx_refs, "one context");
	if (fails()) return NULL;
	ctx_refs = 1;
	return CTX;
}
void SSL_CTX_free(SSL_CTX *c)
{
	CHECK(c == CTX && ctx_refs > 0, "the context is released once");
	ctx_refs--;
	if (ctx_cert) x_free(0);
	if (ctx_chain) drop_chain();
	if (ctx_pkey) { CHECK(pkey_refs > 0, "the key is released once"); pkey_refs--; }
}
uint64_t SSL_CTX_set_options(SSL_CTX *c, uint64_t o) { CHECK(c == CTX && ctx_refs, "own context"); return ctx_opts |= o; }
uint64_t SSL_CTX_clear_options(SSL_CTX *c, uint64_t o) { CHECK(c == CTX && ctx_refs, "own context"); return ctx_opts &= ~o; }
uint64_t SSL_CTX_get_options(const SSL_CTX *c) { return ctx_opts; }
long SSL_CTX_ctrl(SSL_CTX *c, int cmd, long l, void *p)
{
	CHECK(c == CTX && ctx_refs, "own context");
	switch (cmd) {
	case SSL_CTRL_MODE: return ctx_mode |= l;
	case SSL_CTRL_SET_READ_AHEAD: return 0;
	case SSL_CTRL_SET_SESS_CACHE_MODE: ctx_cache = l; return 0;
	case SSL_CTRL_CHAIN:
		CHECK(l == 0 && p == chain_obj && chain_refs && !ctx_chain, "the list that was read");
		if (fails()) return 0;
		ctx_chain = 1;
		return 1;
	}
	return 1;
}
long SSL_CTX_callback_ctrl(SSL_CTX *c, int cmd, void (*fp)(void))
{
	CHECK(c == CTX && ctx_refs, "own context");
	if (cmd == SSL_CTRL_SET_TLSEXT_SERVERNAME_CB) sni_cb = (int (*)(SSL *, int *, void *))fp;
	return 1;
}
int SSL_CTX_set_ex_data(SSL_CTX *c, int slot, void *p) { CHECK(c == CTX && ctx_refs && slot == ctx_slot, "own context"); ctx_data = p; return 1; }
void *SSL_CTX_get_ex_data(const SSL_CTX *c, int slot) { CHECK(slot == ctx_slot, "the data of the library's own slot"); return c == CTX ? ctx_data : &other_data; }
int CRYPTO_get_ex_new_index(int kind, long, void *, CRYPTO_EX_new *, CRYPTO_EX_dup *, CRYPTO_EX_free *)
{
	if (kind == CRYPTO_EX_INDEX_SSL) return session_slot = 3;
	CHECK(kind == CRYPTO_EX_INDEX_SSL_CTX, "a slot for sessions or for contexts");
	return ctx_slot = 5;
}
int OPENSSL_init_ssl(uint64_t, const OPENSSL_INIT_SETTINGS *) { return 1; }
void SSL_CTX_set_verify(SSL_CTX *c, int mode, SSL_verify_cb cb) { CHECK(c == CTX && ctx_refs && cb == NULL, "own context"); ctx_verify = mode; }
int SSL_CTX_load_verify_locations(SSL_CTX *c, const char *file, const char *path)
{
	CHECK(c == CTX && ctx_refs && file == ca_file_ && path == ca_path_, "the authorities asked for");
	if (fails()) return 0;
	locations++;
	return 1;
}
int SSL_CTX_set_session_id_context(SSL_CTX *c, const unsigned char *id, unsigned n)
{
	CHECK(c == CTX && ctx_refs && vp_accessible(id, n), "own context");
	if (n > SSL_MAX_SID_CTX_LENGTH) { queue_ = true; return 0; }
	if (fails()) { sid_fault = true; return 0; }
	sid_len = n;
	return 1;
}
void SSL_CTX_set_alpn_select_cb(SSL_CTX *c, SSL_CTX_alpn_select_cb_func cb, void *) { CHECK(c == CTX && ctx_refs, "own context"); alpn_cb = cb; }
void SSL_CTX_set_next_protos_advertised_cb(SSL_CTX *c, SSL_CTX_npn_advertised_cb_func cb, void *) { npn_cb = cb; }
int SSL_CTX_use_certificate(SSL_CTX *c, X509 *x)
{
	CHECK(c == CTX && ctx_refs && x_index(x) == 0 && x_refs[0] > 0 && !ctx_cert, "the first certificate read");
	if (fails()) return 0;
	x_refs[0]++;
	ctx_cert = 1;
	cert_src = bio_src;
	return 1;
}
int SSL_CTX_use_PrivateKey(SSL_CTX *c, EVP_PKEY *k)
{
	CHECK(c == CTX && ctx_refs && k == (EVP_PKEY *)pkey_obj && pkey_refs > 0 && !ctx_pkey, "the key that was read");
	if (fails()) return 0;
	pkey_refs++;
	ctx_pkey = 1;
	return 1;
}
int SSL_CTX_use_certificate_chain_file(SSL_CTX *c, const char *f)
{
	CHECK(c == CTX && ctx_refs, "own context");
	if (fails()) return 0;
	file_cert = which(f);
	return 1;
}
int SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *f, int type)
{
	CHECK(c == CTX && ctx_refs && type == SSL_FILETYPE_PEM, "own context");
	if (fails()) return 0;
	file_key = which(f);
	return 1;
}
int SSL_CTX_check_private_key(const SSL_CTX *c) { CHECK(c == CTX && ctx_refs, "own context"); return !fails(); }
BIO *BIO_new_mem_buf(const void *p, int n)
{
	if (p == key_s.data + 5) { CHECK(key_mem && n == (int)key_s.len - 5, "the key's whole text"); return open_bio(KEY); }
	CHECK(p == cert_s.data + 5 && cert_mem && n == (int)cert_s.len - 5, "the certificate's whole text");
	return open_bio(CERT);
}
BIO *BIO_new_file(const char *f, const char *mode) { CHECK(mode[0] == 'r', "for reading"); return open_bio(which(f)); }
int BIO_free(BIO *b) { CHECK(b == (BIO *)bio_obj && bio_refs == 1, "the source is released once"); bio_refs = 0; return 1; }
long BIO_ctrl(BIO *b, int cmd, long, void *) { CHECK(b == (BIO *)bio_obj && bio_refs == 1, "own source"); if (cmd == BIO_CTRL_RESET) bio_at = 0; return 1; }
static X509 *read_cert()
{
	CHECK(bio_refs == 1, "from an open source");
	no_more = false;
	if (bio_at >= n_certs) { no_more = true; queue_ = true; return NULL; }
	if (bio_at == damaged_at || fails()) { queue_ = true; return NULL; }
	bio_at++;
	x_refs[x_made]++;
	return (X509 *)&x509_obj[x_made++];
}
X509 *PEM_read_bio_X509_AUX(BIO *b, X509 **, pem_password_cb *, void *) { return read_cert(); }
X509 *PEM_read_bio_X509(BIO *b, X509 **, pem_password_cb *, void *) { CHECK(bio_at > 0, "after the first"); return read_cert(); }
unsigned long ERR_peek_last_error(void) { return no_more ? ERR_PACK(ERR_LIB_PEM, 0, PEM_R_NO_START_LINE) : ERR_PACK(ERR_LIB_PEM, 0, PEM_R_BAD_BASE64_DECODE); }
unsigned long ERR_get_error(void) { return ERR_PACK(ERR_LIB_SSL, 0, 1); }
void ERR_error_string_n(unsigned long, char *b, size_t n) { CHECK(vp_accessible(b, n), "room for the text"); b[0] = 0; }
void ERR_clear_error(void) { queue_ = false; }
void X509_free(X509 *x) { if (x) x_free(x_index(x)); }
OPENSSL_STACK *OPENSSL_sk_new_null(void) { CHECK(!chain_refs, "one list"); if (fails()) return NULL; chain_refs = 1; return (OPENSSL_STACK *)chain_obj; }
int OPENSSL_sk_push(OPENSSL_STACK *s, const void *x)
{
	CHECK(s == (OPENSSL_STACK *)chain_obj && chain_refs && x_index(x) == in_chain + 1, "further certificates in their order");
	if (fails()) return 0;
	in_chain++;
	return in_chain;
}
int OPENSSL_sk_insert(OPENSSL_STACK *s, const void *x, int where)
{
	CHECK(where < 0 || where >= in_chain, "further certificates in their order");
	return OPENSSL_sk_push(s, x);
}
int OPENSSL_sk_unshift(OPENSSL_STACK *s, const void *x) { return OPENSSL_sk_insert(s, x, 0); }
void OPENSSL_sk_free(OPENSSL_STACK *s)
{
	if (s == NULL) return;
	CHECK(s == (OPENSSL_STACK *)chain_obj && chain_refs && !ctx_chain, "the list is still its own");
	chain_refs = 0;
	in_chain = 0;
}
void OPENSSL_sk_pop_free(OPENSSL_STACK *s, void (*f)(void *)) { CHECK(s == (OPENSSL_STACK *)chain_obj && !ctx_chain, "the list is still its own"); drop_chain(); }
static int names_ = 1;
int OPENSSL_sk_num(const OPENSSL_STACK *s) { return s == (OPENSSL_STACK *)names_obj ? names_ : in_chain; }
void *OPENSSL_sk_value(const OPENSSL_STACK *s, int i) { CHECK(s == (OPENSSL_STACK *)names_obj && i == 0, "own list"); return names_obj; }
STACK_OF(X509_NAME) *SSL_CTX_get_client_CA_list(const SSL_CTX *) { return FLIP() ? (STACK_OF(X509_NAME) *)names_obj : NULL; }
int X509_NAME_digest(const X509_NAME *n, const EVP_MD *, unsigned char *b, unsigned *len) { if (fails()) { sid_fault = true; return 0; } memset(b, 1, 20); *len = 20; return 1; }
const EVP_MD *EVP_sha1(void) { return NULL; }
EVP_MD_CTX *EVP_MD_CTX_new(void) { CHECK(!md_refs, "one digest"); if (fails()) { sid_fault = true; return NULL; } md_refs = 1; return (EVP_MD_CTX *)md_obj; }
void EVP_MD_CTX_free(EVP_MD_CTX *m) { CHECK(m == (EVP_MD_CTX *)md_obj && md_refs == 1, "the digest is released once"); md_refs = 0; }
int EVP_DigestInit_ex(EVP_MD_CTX *m, const EVP_MD *, ENGINE *) { CHECK(md_refs == 1, "own digest"); if (fails()) { sid_fault = true; return 0; } return 1; }
int EVP_DigestUpdate(EVP_MD_CTX *m, const void *p, size_t n) { CHECK(md_refs == 1 && vp_accessible(p, n), "own digest"); if (fails()) { sid_fault = true; return 0; } digested += (int)n; return 1; }
int EVP_DigestFinal_ex(EVP_MD_CTX *m, unsigned char *b, unsigned *n) { CHECK(md_refs == 1, "own digest"); if (fails()) { sid_fault = true; return 0; } memset(b, 2, 20); *n = 20; return 1; }
EVP_PKEY *PEM_read_bio_PrivateKey(BIO *b, EVP_PKEY **, pem_password_cb *cb, void *u)
{
	CHECK(bio_refs == 1 && bio_src == KEY, "the key's own source");
	if (bio_at > 0) { queue_ = true; return NULL; }        /* nothing more behind it */
	bio_at++;
	key_tries++;
#ifdef PASSWORDS
	if (key_locked) {
		char buf[6];
		CHECK(cb != NULL, "a password is asked for");
		int n = cb(buf, sizeof(buf), 0, u);
		CHECK(n >= 0 && n <= (int)sizeof(buf), "a password that fits");
		int len = key_pw < 0 ? -1 : (int)pws[key_pw].len > 6 ? 6 : (int)pws[key_pw].len;
		if (n != len || memcmp(buf, pw_text[key_pw], n)) { queue_ = true; return NULL; }
	}
#endif
	if (fails()) return NULL;
	pkey_refs = 1;
	pkey_src = bio_src;
	return (EVP_PKEY *)pkey_obj;
}
void EVP_PKEY_free(EVP_PKEY *k) { CHECK(k == (EVP_PKEY *)pkey_obj && pkey_refs > 0, "the key is released once"); pkey_refs--; }
}
/* the application's callbacks */
static int npn_calls, sni_calls;
static SSL_CTX *cur_ctx;
static void *expected_data() { return cur_ctx == (SSL_CTX *)other_ctx ? &other_data : &data_obj; }
static const unsigned char *protos = (const unsigned char *)"\x02h2";
static void on_npn(SSL *, void *d, const unsigned char **out, unsigned *n)
{
	CHECK(d == expected_data(), "for the data of the context in use");
	npn_calls++;
	*out = protos;
	*n = 3;
}
static void *sni_result;
static SSL_CTX *sni_ctx;
static int host_obj;
static void *on_sni(KOPAQUE d, const char *host, SSL_CTX **c)
{
	CHECK((int *)d == &data_obj && !strcmp(host, "host"), "for the server's data and the name asked for");
	sni_calls++;
	*c = sni_ctx;
	return sni_result;
}
static void on_free_sni(void *) {}
static bool with_npn, with_sni, with_data;
static void setup()
{
	with_npn = FLIP();
	with_sni = FLIP();
	with_data = FLIP();
	kssl_set_npn_callback(with_npn ? on_npn : NULL);
	kssl_set_sni_callback(with_sni ? on_sni : NULL, with_sni ? on_free_sni : NULL);
	static const char file[] = "ca.pem", path[] = "ca";
	ca_file_ = FLIP() ? file : NULL;
	ca_path_ = FLIP() ? path : NULL;
}
static void all_released()
{
	CHECK(!ctx_refs && !bio_refs && !md_refs && !chain_refs && !pkey_refs && !fp_refs, "everything is released");
	for (int i = 0; i < x_made; i++) CHECK(x_refs[i] == 0, "every certificate is released");
}
static void judge(SSL_CTX *c, bool server)
{
	if (c == NULL) { CHECK(faults < FAULTS || damaged_at >= 0, "fails only when something failed"); all_released(); REACH("failed"); return; }
	CHECK(c == CTX && ctx_refs == 1, "the new context");
	CHECK(!bio_refs && !md_refs && !fp_refs, "the helpers are released");
	CHECK((ctx_opts & (SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3)) == (SSL_OP_NO_SSLv2 | SSL_OP_NO_SSLv3), "the broken protocols are off");
	CHECK(ctx_mode & SSL_MODE_ENABLE_PARTIAL_WRITE, "writes may be partial");
	CHECK(ctx_data == (with_data ? &data_obj : NULL), "the context's own data");
	bool ca = ca_file_ || ca_path_;
	CHECK(ctx_verify == (!ca ? 0 : server ? SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT : SSL_VERIFY_PEER) && (locations > 0) == ca, "the peer is verified exactly when authorities are given");
	if (server) {
		CHECK((sni_cb != NULL) == with_sni, "server names are looked up when wanted");
		CHECK((alpn_cb != NULL) == (with_npn && with_data), "protocols are chosen when wanted");
	}
}
ENTRY(h_memory)
{
	setup();
	static char k_data[] = "data:KEY", k_file[] = "key.pem", c_data[] = "data:CERT", c_file[] = "cert.pem", empty[] = "";
	memset(&cert_s, 0, sizeof(cert_s));
	memset(&key_s, 0, sizeof(key_s));
	key_mem = FLIP();
	key_s.data = key_mem ? k_data : k_file;
	key_s.len = strlen(key_s.data);
	key_name = key_mem ? NULL : k_file;
	int how = CHOOSE(4);                 /* none, empty, text, file */
	cert_given = how >= 2;
	cert_mem = how == 2;
	cert_s.data = how == 2 ? c_data : how == 3 ? c_file : empty;
	cert_s.len = strlen(cert_s.data);
	cert_name = how == 3 ? c_file : NULL;
	n_certs = CHOOSE(CHAIN) + 1;
	damaged_at = FLIP() ? CHOOSE(n_certs) : -1;
	SSL_CTX *c = kgl_ssl_ctx_new_server2(how == 0 ? NULL : &cert_s, &key_s, ca_path_, ca_file_, with_data ? &data_obj : NULL);
	judge(c, true);
	if (c == NULL) return;
	CHECK(damaged_at < 0, "a damaged certificate is not used");
	CHECK(ctx_cert && cert_src == (cert_given ? CERT : KEY), "the certificate given, or the one beside the key");
	CHECK(ctx_pkey && pkey_src == KEY, "the key given");
	CHECK(x_made == n_certs && ctx_chain && in_chain == n_certs - 1, "with its whole chain");
	if (!sid_fault) CHECK(sid_len > 0 && digested > 0, "sessions belong to the certificate");
	REACH(cert_given ? "certificate" : "beside the key");
	SSL_CTX_free(c);
	all_released();
	REACH("end");
}
ENTRY(h_files)
{
	setup();
	int how = CHOOSE(3);
	cert_given = how == 2;
	cert_name = cert_given ? "c.pem" : NULL;
	key_name = "k.pem";
	file_left = CHOOSE(2);
	damaged_at = -1;
	SSL_CTX *c = kgl_ssl_ctx_new_server(how == 0 ? NULL : how == 1 ? "" : "c.pem", "k.pem", ca_path_, ca_file_, with_data ? &data_obj : NULL);
	judge(c, true);
	if (c == NULL) return;
	CHECK(file_cert == (cert_given ? CERT : KEY) && file_key == KEY, "the files given, or the key's own");
	CHECK(sid_len > 0 && digested > 0, "sessions belong to the certificate");
	SSL_CTX_free(c);
	all_released();
	REACH("end");
}
static const unsigned char *client_protos;
static unsigned client_len;
extern "C" int SSL_CTX_set_alpn_protos(SSL_CTX *c, const unsigned char *p, unsigned n) { client_protos = p; client_len = n; return 0; }
ENTRY(h_client)
{
	setup();
	damaged_at = -1;
	SSL_CTX *c = kgl_ssl_ctx_new_client(ca_path_, ca_file_, with_data ? &data_obj : NULL);
	judge(c, false);
	if (c == NULL) return;
	if (with_npn && with_data) { CHECK(client_protos == protos && client_len == 3 && npn_calls == 1, "offers the application's protocols"); REACH("protocols"); }
	else CHECK(client_protos == NULL, "offers none");
	SSL_CTX_free(c);
	all_released();
	REACH("end");
}
/* the callbacks of a server's context, as the library calls them */
static const char *host_;
static kconnection *conn_;
static int selected;
extern "C" {
static void *session_data;
int SSL_set_ex_data(SSL *s, int slot, void *p) { CHECK(s == TLS && slot == session_slot, "own session"); session_data = p; return 1; }
void *SSL_get_ex_data(const SSL *s, int slot) { CHECK(s == TLS && slot == session_slot, "own session"); return session_data; }
SSL *SSL_new(SSL_CTX *c) { CHECK(c == CTX, "own context"); return TLS; }
void SSL_free(SSL *) {}
int SSL_set_fd(SSL *, int) { return 1; }
void SSL_set_accept_state(SSL *) {}
uint64_t SSL_set_options(SSL *s, uint64_t o) { return o; }
static uint32_t early_;
uint32_t SSL_CTX_get_max_early_data(const SSL_CTX *) { return early_; }
int SSL_CTX_set_max_early_data(SSL_CTX *c, uint32_t n) { CHECK(c == CTX && ctx_refs, "own context"); early_ = n; return 1; }
static const char *ciphers_;
int SSL_CTX_set_cipher_list(SSL_CTX *c, const char *s) { CHECK(c == CTX && ctx_refs, "own context"); if (fails()) return 0; ciphers_ = s; return 1; }
const char *SSL_get_servername(const SSL *s, int type) { CHECK(s == TLS && type == TLSEXT_NAMETYPE_host_name, "own session"); return host_; }
SSL_CTX *SSL_set_SSL_CTX(SSL *s, SSL_CTX *c) { CHECK(s == TLS && c == (SSL_CTX *)other_ctx && sni_ctx == c, "the context of the name"); cur_ctx = c; return c; }
SSL_CTX *SSL_get_SSL_CTX(const SSL *s) { return cur_ctx; }
int SSL_select_next_proto(unsigned char **out, unsigned char *n, const unsigned char *server, unsigned sn, const unsigned char *client, unsigned cn)
{
	CHECK(cn == 5 && !memcmp(client, "\x04spdy", 5), "the client's list");
	CHECK(sn == (with_npn ? 3u : 9u) && !memcmp(server, with_npn ? "\x02h2" : "\x08http/1.1", sn), "the server's list");
	if (FLIP()) { selected = 1; *out = (unsigned char *)server + 1; *n = server[0]; return OPENSSL_NPN_NEGOTIATED; }
	selected = 2;
	return OPENSSL_NPN_NO_OVERLAP;
}
void SSL_get0_alpn_selected(const SSL *s, const unsigned char **d, unsigned *n) { *d = selected == 1 ? protos + 1 : NULL; *n = selected == 1 ? 2 : 0; }
void SSL_get0_next_proto_negotiated(const SSL *s, const unsigned char **d, unsigned *n) { *d = NULL; *n = 0; }
}
ENTRY(h_callbacks)
{
	faults = 0;
	damaged_at = -1;
	with_npn = with_data = with_sni = true;
	kssl_init(on_npn, on_sni, on_free_sni);
	CHECK(session_slot && ctx_slot, "a slot for sessions and for contexts");
	cert_given = true;
	cert_name = "c.pem";
	key_name = "k.pem";
	SSL_CTX *c = kgl_ssl_ctx_new_server("c.pem", "k.pem", NULL, NULL, &data_obj);
	CHECK(c != NULL && sni_cb && alpn_cb, "a context with its callbacks");
	cur_ctx = c;
	kserver *server = kserver_init();
	server->data = (KOPAQUE)&data_obj;
	bool reject = FLIP();
	if (reject) KBIT_SET(server->flags, KGL_SERVER_REJECT_NOSNI);
	bool known = FLIP();
	conn_ = known ? kconnection_new(NULL) : NULL;
	if (conn_) {
		conn_->server = server;
		CHECK(kconnection_ssl_accept(conn_, c) && session_data == conn_, "the session knows its connection");
		CHECK(conn_->st.ssl && conn_->st.ssl->ssl == TLS, "the connection has its session");
	}
	host_ = FLIP() ? "host" : NULL;
	sni_ctx = FLIP() ? (SSL_CTX *)other_ctx : NULL;
	sni_result = FLIP() ? &host_obj : NULL;
	bool alpn_first = FLIP(), alpn = alpn_first || FLIP();
	int ad = 0, r;
	const unsigned char *out = NULL;
	unsigned char n = 0;
	bool refuse = known && host_ == NULL && reject;
	for (int k = 0; k < 2; k++) {
		if ((k == 0) == alpn_first) {
			r = alpn_cb(TLS, &out, &n, (const unsigned char *)"\x04spdy", 5, NULL);
			if (refuse) { CHECK(r != SSL_TLSEXT_ERR_OK && r != SSL_TLSEXT_ERR_NOACK && !selected, "a client without a name is refused"); REACH("refused"); break; }
			CHECK(r == (selected == 1 ? SSL_TLSEXT_ERR_OK : SSL_TLSEXT_ERR_NOACK), "a protocol is accepted exactly when both know it");
			CHECK(npn_calls > 0, "the application is asked");
			if (selected == 1) CHECK(n == 2 && !memcmp(out, "h2", 2), "and it is that one");
			const unsigned char *d = NULL;
			unsigned dn = 0;
			kgl_ssl_get_next_proto_negotiated(TLS, &d, &dn);
			CHECK(dn == (selected == 1 ? 2u : 0u) && (dn == 0 || d == protos + 1), "what was agreed can be asked for");
			REACH("protocol");
			if (npn_cb) {
				const unsigned char *ap = NULL;
				unsigned an = 0;
				CHECK(npn_cb(TLS, &ap, &an, NULL) == SSL_TLSEXT_ERR_OK && ap == protos && an == 3, "the application's protocols are advertised");
			}
		} else {
			r = sni_cb(TLS, &ad, NULL);
			CHECK((r == SSL_TLSEXT_ERR_OK) == !refuse, "refused exactly when there is no name and the server wants one");
			if (refuse) { REACH("refused"); break; }
		}
		if (!alpn && k == 0) break;
	}
	if (known && host_ && !refuse) {
		CHECK(sni_calls == 1 || (sni_calls == 2 && !sni_result), "the name is looked up once");
		CHECK(conn_->sni == sni_result, "its data belongs to the connection");
		CHECK(cur_ctx == (sni_ctx ? (SSL_CTX *)other_ctx : c), "its context is used");
		REACH("named");
	} else CHECK(sni_calls == 0, "nothing is looked up");
	REACH("end");
}
/* settings of a context */
ENTRY(h_settings)
{
	faults = 0;
	damaged_at = -1;
	with_npn = with_data = with_sni = false;
	SSL_CTX *c = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
	CHECK(c != NULL, "a context");
	early_ = 7;
	for (int i = 0; i < 2; i++) {
		bool on = FLIP();
		kgl_ssl_ctx_set_early_data(c, on);
		CHECK((early_ > 0) == on, "early data is allowed exactly when asked for");
	}
	faults = 1;
	static const char list[] = "HIGH";
	bool ok = kgl_ssl_ctx_set_cipher_list(c, list);
	CHECK(ok == (faults == 1) && ciphers_ == (ok ? list : NULL), "the ciphers asked for, or a failure");
	if (!ok) REACH("failed");
	SSL_CTX_free(c);
	all_released();
	REACH("end");
}
#ifdef PASSWORDS
int kgl_ssl_certificate(SSL_CTX *ctx, const kgl_ref_str_t *cert, const kgl_ref_str_t *key, const kgl_array_t *passwords);
ENTRY(h_password)
{
	faults = 0;
	damaged_at = -1;
	n_certs = 1;
	static char k_data[] = "data:KEY";
	key_mem = true;
	key_s.data = k_data;
	key_s.len = 8;
	key_locked = FLIP();
	kgl_array_t a;
	memset(&a, 0, sizeof(a));
	int n = 1 + CHOOSE(PASSWORDS);
	for (int i = 0; i < n; i++) {
		pws[i].data = pw_text[i];
		pws[i].len = 1 + CHOOSE(8);
		for (int j = 0; j < (int)pws[i].len; j++) pw_text[i][j] = 'a' + i;
	}
	key_pw = CHOOSE(n + 1) - 1;
	a.elts = pws;
	a.nelts = n;
	a.size = sizeof(kgl_str_t);
	a.nalloc = PASSWORDS;
	SSL_CTX *c = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
	int r = kgl_ssl_certificate(c, NULL, &key_s, &a);
	CHECK(r == (!key_locked || key_pw >= 0 ? 0 : -1), "the key opens with any of the passwords, and no other");
	if (key_locked && r == 0) { CHECK(key_tries == key_pw + 1, "tried in order"); REACH("opened"); }
	if (r != 0) REACH("locked");
	SSL_CTX_free(c);
	all_released();
	REACH("end");
}
#endif
