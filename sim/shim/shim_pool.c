/* Instrumented wrappers: mempool, both flavours. */
#include "slab_cache.h"
#include "mempool.h"
#include "shim.h"
#define P ((struct mempool *)p)
size_t x_pool_sizeof(void) { return sizeof(struct mempool); }
void x_pool_create(void *p, void *c, unsigned objsize) { mempool_create(P, (struct slab_cache *)c, objsize); }
void x_pool_destroy(void *p) { mempool_destroy(P); }
int x_pool_is_init(void *p) { return mempool_is_initialized(P); }
void *x_pool_alloc(void *p) { return mempool_alloc(P); }
void x_pool_free(void *p, void *o) { mempool_free(P, o); }
size_t x_pool_count(void *p) { return mempool_count(P); }
size_t x_pool_used(void *p) { return mempool_used(P); }
void x_pool_stats(void *p, size_t *out)
{
	struct mempool_stats s;
	mempool_stats(P, &s);
	out[0] = s.objsize; out[1] = s.objcount; out[2] = s.slabsize; out[3] = s.slabcount;
	out[4] = s.totals.used; out[5] = s.totals.total;
}
#ifndef ENABLE_ASAN
size_t x_pool_hdr(void) { return mslab_sizeof(); }
void x_pool_create_order(void *p, void *c, unsigned objsize, int order) { mempool_create_with_order(P, (struct slab_cache *)c, objsize, order); }
int x_pool_order(void *p)
{
	struct mempool_stats s;
	mempool_stats(P, &s);
	return slab_order(P->cache, s.slabsize);
}
size_t x_pool_total(void *p) { return mempool_total(P); }
#else
size_t x_pool_hdr(void) { return 0; }
void x_pool_create_order(void *p, void *c, unsigned objsize, int order) { (void)order; mempool_create(P, (struct slab_cache *)c, objsize); }
int x_pool_order(void *p) { (void)p; return 0; }
size_t x_pool_total(void *p) { return mempool_used(P); }
#endif
