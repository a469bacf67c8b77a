/* the library's mmap/munmap/malloc can be made to fail or be observed (linked with --wrap) */
static int fail_mmap, fail_malloc; static long mapped; static int misalign;
void *__real_mmap(void *, size_t, int, int, int, long); int __real_munmap(void *, size_t); void *__real_malloc(size_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, long o)
{
	if (fail_mmap > 0 && --fail_mmap == 0) { errno = ENOMEM; return MAP_FAILED; }
	void *r = __real_mmap(a, n, p, f, fd, o);
	if (r != MAP_FAILED) mapped += (n + 4095) / 4096 * 4096;
	return r;
}
int __wrap_munmap(void *a, size_t n) { int rc = __real_munmap(a, n); if (!rc) mapped -= (n + 4095) / 4096 * 4096; return rc; }
void *__wrap_malloc(size_t n) { if (fail_malloc > 0 && --fail_malloc == 0) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
