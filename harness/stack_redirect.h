/* included ahead of every source of the unit that looks at the stacks of fibers (fiber.cpp, h_stack) */
#ifdef __cplusplus
#include "fcontext.h"
extern "C" fcontext_t vp_make_fcontext(void *sp, size_t size, void (*fn)(transfer_t));
#define make_fcontext vp_make_fcontext
#endif
