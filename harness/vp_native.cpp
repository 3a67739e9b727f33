/* native side of vp.h: reads the solver's values from the file named on the command line */
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdint.h>
#include <stddef.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" void *__asan_region_is_poisoned(void *beg, size_t size);
static FILE *vp_in;
char *vp_main_stack;
extern "C" {
void VP_ENTRY(void);
uint64_t vp_nd_raw(uint64_t mask)
{
	unsigned long long v = 0;
	if (vp_in == NULL || fscanf(vp_in, "%llu", &v) != 1) v = 0;
	return ((uint64_t)v) & mask;
}
void vp_native_assume(const char *file, int line)
{
	dprintf(2, "VP_ASSUME failed: %s:%d\n", file, line);
	fflush(stderr);
	_exit(88);
}
void vp_native_fail(const char *msg, const char *file, int line)
{
	dprintf(2, "VP_FAIL: %s (%s:%d)\n", msg, file, line);
	fflush(stderr);
	_exit(77);
}
void vp_native_reach(const char *msg)
{
	dprintf(2, "VP_REACH %s\n", msg);
}
void vp_native_stop(void)
{
	_exit(0);
}
uint64_t vp_heap_bytes(void)
{
	return __sanitizer_get_current_allocated_bytes();
}
int vp_accessible(const void *p, uint64_t n)
{
	return n == 0 || __asan_region_is_poisoned((void *)p, n) == NULL;
}
int main(int argc, char **argv)
{
	vp_main_stack = (char *)__builtin_frame_address(0) + 65536;
	setvbuf(stderr, NULL, _IONBF, 0);
	vp_in = argc > 1 ? fopen(argv[1], "r") : NULL;
	static char buf[1 << 16];
	if (vp_in) {
		setvbuf(vp_in, buf, _IOFBF, sizeof buf);
	}
	VP_ENTRY();
	fflush(stdout);
	_exit(0);
}
}
