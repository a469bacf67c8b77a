/* Thin instrumented wrappers around the public API: quota, lessor, lf_lifo, arena. */
#include "quota.h"
#include "quota_lessor.h"
#include "lf_lifo.h"
#include "slab_arena.h"
#include "small_features.h"
#include "small_config.h"
#include "shim.h"
#include <sys/mman.h>

size_t x_quota_sizeof(void) { return sizeof(struct quota); }
void x_quota_init(void *q, size_t total) { quota_init((struct quota *)q, total); }
size_t x_quota_total(void *q) { return quota_total((struct quota *)q); }
size_t x_quota_used(void *q) { return quota_used((struct quota *)q); }
void x_quota_get(void *q, size_t *t, size_t *u) { quota_get_total_and_used((struct quota *)q, t, u); }
long x_quota_set(void *q, size_t n) { return quota_set((struct quota *)q, n); }
long x_quota_use(void *q, size_t n) { return quota_use((struct quota *)q, n); }
long x_quota_release(void *q, size_t n) { return quota_release((struct quota *)q, n); }
size_t x_quota_max(void) { return QUOTA_MAX; }
size_t x_quota_unit(void) { return QUOTA_UNIT_SIZE; }

size_t x_lessor_sizeof(void) { return sizeof(struct quota_lessor); }
void x_lessor_create(void *l, void *q) { quota_lessor_create((struct quota_lessor *)l, (struct quota *)q); }
void x_lessor_destroy(void *l) { quota_lessor_destroy((struct quota_lessor *)l); }
long x_lease(void *l, long n) { return quota_lease((struct quota_lessor *)l, n); }
long x_end_lease(void *l, size_t n) { return quota_end_lease((struct quota_lessor *)l, n); }
size_t x_leased(void *l) { return quota_leased((struct quota_lessor *)l); }
size_t x_lease_available(void *l) { return quota_available((struct quota_lessor *)l); }
size_t x_lease_chunk(void) { return QUOTA_USE_MIN; }

size_t x_lifo_sizeof(void) { return sizeof(struct lf_lifo); }
void x_lifo_init(void *h) { lf_lifo_init((struct lf_lifo *)h); }
void x_lifo_push(void *h, void *e) { lf_lifo_push((struct lf_lifo *)h, e); }
void *x_lifo_pop(void *h) { return lf_lifo_pop((struct lf_lifo *)h); }
int x_lifo_empty(void *h) { return lf_lifo_is_empty((struct lf_lifo *)h); }

size_t x_arena_sizeof(void) { return sizeof(struct slab_arena); }
int x_arena_create(void *a, void *q, size_t prealloc, unsigned slab_size, int flags)
{ return slab_arena_create((struct slab_arena *)a, (struct quota *)q, prealloc, slab_size, flags); }
void x_arena_destroy(void *a) { slab_arena_destroy((struct slab_arena *)a); }
void *x_slab_map(void *a) { return slab_map((struct slab_arena *)a); }
void x_slab_unmap(void *a, void *p) { slab_unmap((struct slab_arena *)a, p); }
#ifndef ENABLE_ASAN
void x_arena_mprotect(void *a) { slab_arena_mprotect((struct slab_arena *)a); }
#else
void x_arena_mprotect(void *a) { (void)a; }
#endif
size_t x_arena_slab_size(void *a) { return ((struct slab_arena *)a)->slab_size; }
#ifdef ENABLE_ASAN
size_t x_arena_prealloc(void *a) { (void)a; return 0; }
#else
size_t x_arena_prealloc(void *a) { return ((struct slab_arena *)a)->prealloc; }
#endif
size_t x_arena_used(void *a) { return ((struct slab_arena *)a)->used; }
int x_test_feature(unsigned f) { return small_test_feature(f == 0 ? SMALL_FEATURE_DONTDUMP : f); }
int x_has_dontdump(void)
{
#ifdef TARANTOOL_SMALL_USE_MADVISE
	return 1;
#else
	return 0;
#endif
}
/* kind: 0 legacy MAP_ flags, 1 new flags; shared; dontdump */
int x_arena_flags(int legacy, int shared, int dontdump)
{
	if (legacy)
		return shared ? MAP_SHARED : MAP_PRIVATE;
	return (shared ? SLAB_ARENA_SHARED : SLAB_ARENA_PRIVATE) | (dontdump ? SLAB_ARENA_DONTDUMP : 0);
}
