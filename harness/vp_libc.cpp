/* models of the C library used by the code under test (executed symbolically) */
#include <stddef.h>
#include <stdint.h>
extern "C" {
void *malloc(size_t);
static int vp_errno_v;
int *__errno_location(void) { return &vp_errno_v; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b)
{
	while (*a && *a == *b) { a++; b++; }
	return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n)
{
	while (n && *a && *a == *b) { a++; b++; n--; }
	return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0;
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int strcasecmp(const char *a, const char *b)
{
	while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; }
	return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
int strncasecmp(const char *a, const char *b, size_t n)
{
	while (n && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; n--; }
	return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0;
}
int memcmp(const void *a, const void *b, size_t n)
{
	const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
	int r = 0;
	/* branch-free so that symbolic contents do not fork: first difference decides */
	for (size_t i = n; i > 0; i--) {
		int d = (int)x[i - 1] - (int)y[i - 1];
		r = d ? d : r;
	}
	return r;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *s, int c, size_t n)
{
	const unsigned char *p = (const unsigned char *)s;
	for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
	return 0;
}
char *strchr(const char *s, int c)
{
	for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c)
{
	const char *r = 0;
	for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *strstr(const char *h, const char *n)
{
	size_t k = strlen(n);
	for (;; h++) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return 0; }
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n)
{
	size_t i = 0;
	for (; i < n && s[i]; i++) d[i] = s[i];
	for (; i < n; i++) d[i] = 0;
	return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n)
{
	char *e = d + strlen(d);
	while (n-- && *s) *e++ = *s++;
	*e = 0;
	return d;
}
char *strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *r = (char *)malloc(n);
	for (size_t i = 0; i < n; i++) r[i] = s[i];
	return r;
}
char *strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *r = (char *)malloc(n + 1);
	for (size_t i = 0; i < n; i++) r[i] = s[i];
	r[n] = 0;
	return r;
}
long strtol(const char *s, char **end, int base)
{
	long v = 0; int neg = 0;
	while (isspace((unsigned char)*s)) s++;
	if (*s == '-' || *s == '+') neg = *s++ == '-';
	if (base == 0) base = 10;
	while (isdigit((unsigned char)*s)) v = v * base + (*s++ - '0');
	if (end) *end = (char *)s;
	return neg ? -v : v;
}
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long strtoul(const char *s, char **end, int base) { return (unsigned long)strtol(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
uint16_t htons(uint16_t x) { return __builtin_bswap16(x); }
uint16_t ntohs(uint16_t x) { return __builtin_bswap16(x); }
const char *strerror(int e) { return "error"; }
char *getenv(const char *) { return 0; }
int abs(int x) { return x < 0 ? -x : x; }
}
