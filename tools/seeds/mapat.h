/* the library's mappings are placed at a chosen offset from an aligned address */
static size_t off; static long mapped;
void *__real_mmap(void *, size_t, int, int, int, long); int __real_munmap(void *, size_t); void *__real_malloc(size_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, long o)
{
	static unsigned long base = 0x200000000000UL;
	a = (void *)(base + off); base += 64 << 20;
	void *r = __real_mmap(a, n, p, f, fd, o);
	if (r != MAP_FAILED) mapped += n;
	return r;
}
int __wrap_munmap(void *a, size_t n) { int rc = __real_munmap(a, n); if (!rc) mapped -= n; return rc; }
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
