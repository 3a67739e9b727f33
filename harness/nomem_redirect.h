/* included ahead of every source of units whose memory may run out (nomem.cpp) */
#ifdef __cplusplus
#include <stdlib.h>
#include <malloc.h>
extern "C" {
void *vp_malloc(size_t n);
void *vp_memalign(size_t al, size_t n);
}
#define malloc vp_malloc
#define memalign vp_memalign
#endif
