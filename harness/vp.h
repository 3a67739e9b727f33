/* Harness support.  One harness source is used twice: compiled to LLVM IR and
 * executed symbolically by symx (VP_SYMX), and compiled natively for replaying
 * the solver's assignments against the real code (VP_NATIVE). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
/* code between these is the harness's own: none of its accesses is a scheduling point */
#define VP_HARNESS_BEGIN _Pragma("clang attribute push(__attribute__((no_sanitize(\"coverage\"))), apply_to = function)")
#define VP_HARNESS_END _Pragma("clang attribute pop")
VP_HARNESS_BEGIN
#ifdef __cplusplus
extern "C" {
#endif
#ifdef VP_SYMX
uint64_t vp_nd_raw(uint64_t mask);
void vp_assume(int c);
void vp_check(int c, const char *msg);
void vp_reach(const char *msg);
void vp_stop(void);
uint64_t vp_concretize(uint64_t v);
uint64_t vp_heap_bytes(void);
int vp_accessible(const void *p, uint64_t n);
int vp_is_symbolic(uint64_t v);
#define ASSUME(c) vp_assume((c) ? 1 : 0)
#define CHECK(c, msg) vp_check((c) ? 1 : 0, msg)
#define REACH(msg) vp_reach(msg)
#define VP_STOP() vp_stop()
#define VP_ENTRY_DEF(name) void name(void)
#define VP_NATIVE_ONLY(x)
#else
uint64_t vp_nd_raw(uint64_t mask);
void vp_native_assume(const char *file, int line);
void vp_native_fail(const char *msg, const char *file, int line);
void vp_native_reach(const char *msg);
void vp_native_stop(void);
static inline uint64_t vp_concretize(uint64_t v) { return v; }
uint64_t vp_heap_bytes(void);
int vp_accessible(const void *p, uint64_t n);
static inline int vp_is_symbolic(uint64_t v) { return 0; }
#define ASSUME(c) do { if (!(c)) vp_native_assume(__FILE__, __LINE__); } while (0)
#define CHECK(c, msg) do { if (!(c)) vp_native_fail(msg, __FILE__, __LINE__); } while (0)
#define REACH(msg) vp_native_reach(msg)
#define VP_STOP() vp_native_stop()
#define VP_ENTRY_DEF(name) void name(void)
#define VP_NATIVE_ONLY(x) x
#endif
#ifdef __cplusplus
}
#endif
#define ENTRY(name) extern "C" void name(void); extern "C" void name(void)

#define ND_U64() vp_nd_raw(~(uint64_t)0)
#define ND_I64() ((int64_t)vp_nd_raw(~(uint64_t)0))
#define ND_U32() ((uint32_t)vp_nd_raw(0xffffffffu))
#define ND_INT() ((int)(uint32_t)vp_nd_raw(0xffffffffu))
#define ND_U16() ((uint16_t)vp_nd_raw(0xffffu))
#define ND_U8() ((uint8_t)vp_nd_raw(0xffu))
#define ND_CHAR() ((char)vp_nd_raw(0xffu))
#define ND_BOOL() ((bool)(vp_nd_raw(1)))
/* symbolic value in [lo,hi] */
static inline int ND_RANGE(int lo, int hi)
{
	int v = ND_INT();
	ASSUME((v >= lo) & (v <= hi));
	return v;
}
static inline int64_t ND_RANGE64(int64_t lo, int64_t hi)
{
	int64_t v = ND_I64();
	ASSUME((v >= lo) & (v <= hi));
	return v;
}
/* control choice in [0,n): every value is explored on its own path */
static inline int CHOOSE(int n)
{
	uint8_t v;
	if (n <= 1) return 0;
	v = ND_U8();
	ASSUME(v < n);
	return (int)vp_concretize(v);
}
#define FLIP() CHOOSE(2)
VP_HARNESS_END
#endif
