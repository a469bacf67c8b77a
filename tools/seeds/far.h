/* the library's mappings are placed far apart, some equal in the low 32 bits */
#include <unistd.h>
static int fail_malloc;
void *__real_mmap(void *, size_t, int, int, int, long); int __real_munmap(void *, size_t); void *__real_malloc(size_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, long o)
{
	static unsigned long k; (void)a;
	k++;
	return __real_mmap((void *)(0x200000000000UL + (k * 7 % 61 << 31) + (k % 4 << 20)), n, p, f, fd, o);
}
int __wrap_munmap(void *a, size_t n) { return __real_munmap(a, n); }
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
