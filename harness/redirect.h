/* included ahead of every source of units with their own memory functions (bufsize.cpp) */
#ifdef __cplusplus
#ifdef __clang__
#define VP_NX noexcept
#else
#define VP_NX
#endif
extern "C" {
void *malloc(unsigned long) VP_NX __asm__("vp_malloc");
void free(void *) VP_NX __asm__("vp_free");
void *memmove(void *, const void *, unsigned long) VP_NX __asm__("vp_memmove");
void *memcpy(void *, const void *, unsigned long) VP_NX __asm__("vp_memcpy");
}
#endif
