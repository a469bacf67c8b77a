/* Instrumented wrappers: small object allocator, both flavours. */
#include "slab_cache.h"
#include "small.h"
#include "shim.h"
#define S ((struct small_alloc *)s)
size_t x_small_sizeof(void) { return sizeof(struct small_alloc); }
float x_small_create(void *s, void *c, unsigned objsize_min, unsigned gran, float factor)
{
	float f = 0;
	small_alloc_create(S, (struct slab_cache *)c, objsize_min, gran, factor, &f);
	return f;
}
void x_small_destroy(void *s) { small_alloc_destroy(S); }
void *x_smalloc(void *s, size_t n) { return smalloc(S, n); }
void x_smfree(void *s, void *p, size_t n) { smfree(S, p, n); }
void x_small_check(void *s) { small_alloc_check(S); }
size_t x_small_real_size(void *s, void *p, size_t n, int *large)
{
	struct small_alloc_info i;
	small_alloc_info(S, p, n, &i);
	*large = i.is_large;
	return i.real_size;
}
struct rows { struct x_pool_row *r; int n, max; };
static int row_cb(const void *p, void *ctx)
{
	const struct mempool_stats *m = (const struct mempool_stats *)p;
	struct rows *r = (struct rows *)ctx;
	if (r->n >= r->max)
		return 1;
	struct x_pool_row *o = &r->r[r->n++];
	o->objsize = m->objsize; o->objcount = m->objcount; o->slabsize = m->slabsize; o->slabcount = m->slabcount;
	o->used = m->totals.used; o->total = m->totals.total;
	return 0;
}
int x_small_stats(void *s, size_t *used, size_t *total, struct x_pool_row *rows, int max)
{
	struct rows r = { rows, 0, max };
	struct small_stats t;
	small_stats(S, &t, row_cb, &r);
	*used = t.used; *total = t.total;
	return r.n;
}
