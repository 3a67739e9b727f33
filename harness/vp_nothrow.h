/* harness definitions of renamed C library functions need no exception specification */
#include <features.h>
#include <sys/cdefs.h>
#undef __THROW
#define __THROW
#undef __THROWNL
#define __THROWNL
#undef __NTH
#define __NTH(f) f
#undef __NTHNL
#define __NTHNL(f) f
/* pthread_self() changes when a harness switches threads */
#undef __attribute_const__
#define __attribute_const__
#define __const__ __unused__
/* scheduling points at atomic operations (vp_sched.h) */
#ifdef VP_ATOMICS
#ifdef __cplusplus
extern "C" void vp_sync_point(volatile void *);
extern "C" void vp_sync_done(void);
template <class T> static inline T vp_sync_ret(T v) { vp_sync_done(); return v; }
static inline bool vp_cas_ret(bool v) { if (v) vp_sync_done(); return v; }
#define __sync_add_and_fetch(p, v) (vp_sync_point(p), vp_sync_ret(__sync_add_and_fetch(p, v)))
#define __sync_sub_and_fetch(p, v) (vp_sync_point(p), vp_sync_ret(__sync_sub_and_fetch(p, v)))
#define __sync_fetch_and_add(p, v) (vp_sync_point(p), vp_sync_ret(__sync_fetch_and_add(p, v)))
#define __sync_fetch_and_sub(p, v) (vp_sync_point(p), vp_sync_ret(__sync_fetch_and_sub(p, v)))
#define __sync_fetch_and_or(p, v) (vp_sync_point(p), vp_sync_ret(__sync_fetch_and_or(p, v)))
#define __sync_fetch_and_and(p, v) (vp_sync_point(p), vp_sync_ret(__sync_fetch_and_and(p, v)))
#define __sync_lock_test_and_set(p, v) (vp_sync_point(p), vp_sync_ret(__sync_lock_test_and_set(p, v)))
#define __sync_val_compare_and_swap(p, a, b) (vp_sync_point(p), vp_sync_ret(__sync_val_compare_and_swap(p, a, b)))
#define __sync_bool_compare_and_swap(p, a, b) (vp_sync_point(p), vp_cas_ret(__sync_bool_compare_and_swap(p, a, b)))
#endif
#endif
