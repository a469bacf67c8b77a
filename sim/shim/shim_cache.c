/* Instrumented wrappers: slab cache, both flavours. */
#include "slab_arena.h"
#include "slab_cache.h"
#include "shim.h"
#define SC ((struct slab_cache *)c)
int x_is_asan(void)
{
#ifdef ENABLE_ASAN
	return 1;
#else
	return 0;
#endif
}
void x_asan_init(void)
{
#ifdef ENABLE_ASAN
	small_on_assert_failure = h_assert_failed;
#endif
}
size_t x_scache_sizeof(void) { return sizeof(struct slab_cache); }
void x_scache_create(void *c, void *arena) { slab_cache_create(SC, (struct slab_arena *)arena); }
void x_scache_destroy(void *c) { slab_cache_destroy(SC); }
void x_scache_set_thread(void *c) { slab_cache_set_thread(SC); }
size_t x_scache_used(void *c) { return slab_cache_used(SC); }
void x_scache_check(void *c) { slab_cache_check(SC); }
void *x_slab_get(void *c, size_t n) { return slab_get(SC, n); }
void x_slab_put(void *c, void *s) { slab_put(SC, (struct slab *)s); }
size_t x_slab_size(void *s) { return ((struct slab *)s)->size; }
size_t x_slab_real_size(void *c, size_t n) { return slab_real_size(SC, n); }
size_t x_slab_hdr(void) { return slab_sizeof(); }
void *x_slab_data(void *s) { return slab_data((struct slab *)s); }
void *x_slab_from_data(void *d) { return slab_from_data(d); }
size_t x_slab_capacity(void *s) { return slab_capacity((struct slab *)s); }
#ifdef ENABLE_ASAN
size_t x_scache_leased(void *c) { return quota_leased(&SC->quota); }
#else
size_t x_scache_leased(void *c) { (void)c; return 0; }
#endif
#ifndef ENABLE_ASAN
void *x_slab_get_order(void *c, int order) { return slab_get_with_order(SC, order); }
void *x_slab_get_large(void *c, size_t n) { return slab_get_large(SC, n); }
void x_slab_put_order(void *c, void *s) { slab_put_with_order(SC, (struct slab *)s); }
void x_slab_put_large(void *c, void *s) { slab_put_large(SC, (struct slab *)s); }
int x_scache_order_max(void *c) { return slab_order(SC, SC->arena->slab_size); }
size_t x_scache_order_size(void *c, int o) { return slab_order_size(SC, o); }
int x_slab_order(void *c, size_t n) { return slab_order(SC, n); }
#else
void *x_slab_get_order(void *c, int order) { (void)c; (void)order; return 0; }
void *x_slab_get_large(void *c, size_t n) { (void)c; (void)n; return 0; }
void x_slab_put_order(void *c, void *s) { (void)c; (void)s; }
void x_slab_put_large(void *c, void *s) { (void)c; (void)s; }
int x_scache_order_max(void *c) { (void)c; return 0; }
size_t x_scache_order_size(void *c, int o) { (void)c; (void)o; return 0; }
int x_slab_order(void *c, size_t n) { (void)c; (void)n; return 0; }
#endif
