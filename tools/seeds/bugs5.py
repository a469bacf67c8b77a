from bugs1 import SETUP, HOOK, WRAP
BUGS = [
dict(id="C10-nfree-16bit", prop="C10",
 edits=[("include/small/mempool.h", """	uint32_t nfree;
""", """	uint16_t nfree;
""")],
 needs="a slab which has room for more than 65535 objects",
 breaks="the slab counts as full, or the pool as exhausted, while tens of thousands of slots are free",
 demo=SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(1 << 20, 0, 1 << 20);
	struct mempool p; mempool_create_with_order(&p, &cache, 8, cache.order_max);
	size_t n = 0;
	while (mempool_alloc(&p)) n++;
	MUST(n >= ((1 << 20) - 256) / 8);
	return 0;
}'''),
dict(id="C11-largest-class-freed-as-large", prop="C11",
 edits=[("small/small.c", """	struct small_mempool *pool = small_mempool_search(alloc, size);
	if (pool == NULL) {
		/* Large""", """	struct small_mempool *pool = NULL;
	if (size < alloc->objsize_max)
		pool = small_mempool_search(alloc, size);
	if (pool == NULL) {
		/* Large""")],
 needs="an object of exactly the largest size that is served by a pool is released",
 breaks="a pool object is released as if it were a large slab",
 demo=SETUP + r'''
#include "small.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	static struct small_alloc a; float f;
	small_alloc_create(&a, &cache, 16, 8, 1.3, &f);
	size_t n = a.objsize_max;
	char *first = smalloc(&a, n), *second = smalloc(&a, n);
	memset(first, 1, n); memset(second, 2, n);
	smfree(&a, second, n);
	for (size_t i = 0; i < n; i++) MUST(first[i] == 1);
	smfree(&a, first, n);
	return 0;
}'''),
dict(id="C08-stats-after-unmap", prop="C08",
 edits=[("small/slab_cache.c", """		slab_list_del(&cache->allocated, slab, next_in_cache);
		cache->orders[slab->order].stats.total -= slab->size;
		slab_unmap(cache->arena, slab);
""", """		rlist_del_entry(slab, next_in_cache);
		slab_unmap(cache->arena, slab);
		cache->allocated.stats.total -= slab->size;
		cache->orders[cache->order_max].stats.total -= slab->size;
""")],
 needs="another thread gets the slab and splits it right after it was given back to the arena",
 breaks="the totals of the slab cache are reduced by the size of a part of the slab only",
 files=["pmatomic.h"], demo=SETUP + r'''
static struct slab_cache second; static int armed; static struct slab *theirs;
void demo_before(void *o) {}
void demo_after(void *o)
{
	if (!armed) return;
	armed = 0;
	theirs = slab_get(&second, 1000);
}
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	slab_cache_create(&second, &arena);
	struct slab *a = slab_get_with_order(&cache, cache.order_max), *b = slab_get_with_order(&cache, cache.order_max);
	slab_put(&cache, a);
	armed = 1;
	slab_put(&cache, b);
	MUST(cache.allocated.stats.total == 1 << 20);
	MUST(slab_cache_used(&cache) == 0);
	slab_cache_check(&cache);
	return 0;
}'''),
dict(id="C08-order0-from-page", prop="C08",
 edits=[("small/slab_cache.c", """	cache->order0_size = arena->slab_size >> cache->order_max;
""", """	cache->order0_size = min_order0_size;
""")],
 needs="arena slabs so big that the number of orders is limited",
 breaks="slabs of all orders are smaller than they are accounted for",
 flags="-O1 -g -DNDEBUG", demo=SETUP + r'''
int main(void)
{
	up(4ULL << 30, 0, 1 << 30);
	struct slab *s = slab_get_with_order(&cache, cache.order_max);
	MUST(s);
	slab_put(&cache, s);
	struct slab *h[2];
	for (int i = 0; i < 2; i++) { h[i] = slab_get_with_order(&cache, cache.order_max - 1); MUST(h[i]); MUST(slab_capacity(h[i]) > 500 << 20); }
	MUST(arena.used == 1 << 30);
	return 0;
}'''),
dict(id="C14-destroy-leaves-cached", prop="C14",
 edits=[("include/small/lsregion.h", """	if (! rlist_empty(&lsregion->slabs.slabs))
		lsregion_gc(lsregion, INT64_MAX);
	if (lsregion->cached""", """	if (rlist_empty(&lsregion->slabs.slabs))
		return;
	lsregion_gc(lsregion, INT64_MAX);
	if (lsregion->cached""")],
 needs="a region is destroyed after everything in it was collected",
 breaks="the slab kept for reuse is never given back to the arena",
 demo=SETUP + r'''
#include "lsregion.h"
int main(void)
{
	up(2 << 20, 0, 1 << 20);
	for (int i = 0; i < 10; i++) {
		struct lsregion r; lsregion_create(&r, &arena);
		MUST(lsregion_alloc(&r, 1000, 1));
		lsregion_gc(&r, 1);
		lsregion_destroy(&r);
	}
	return 0;
}'''),
dict(id="C15-cached-keeps-max-id", prop="C15",
 edits=[("include/small/lsregion.h", """			lslab_create(slab, slab->slab_size,
				     ++lsregion->slab_id);
			lsregion->cached""", """			/* Forget the contents, keep the rest. */
			slab->slab_used = lslab_sizeof();
			slab->slab_id = ++lsregion->slab_id;
			lsregion->cached""")],
 needs="a flush between a reservation in a recycled slab and the allocation it was made for",
 breaks="the flush yields an empty piece and an id which was collected long ago",
 demo=SETUP + r'''
#include "lsregion.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct lsregion r; lsregion_create(&r, &arena);
	MUST(lsregion_alloc(&r, 1000, 5));
	lsregion_gc(&r, 5);
	MUST(lsregion_reserve(&r, 100));
	struct iovec iov[4]; int n = 4; struct lsregion_svp svp; lsregion_svp_create(&svp);
	MUST(lsregion_to_iovec(&r, iov, &n, &svp) == -1);
	MUST(n == 0);
	return 0;
}'''),
dict(id="C17-partial-dup-unreported", prop="C17",
 edits=[("small/obuf.c", """			if (obuf_alloc_pos(buf, to_copy) == NULL)
				return size - to_copy;
""", """			if (obuf_alloc_pos(buf, to_copy) == NULL)
				return 0;
""")],
 needs="memory runs out while data is copied which fits partly into the current vector",
 breaks="the caller is told that nothing was appended, the first part of the data stays in the buffer",
 demo=SETUP + r'''
#include "obuf.h"
int main(void)
{
	up(1 << 20, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 1000);
	static char data[1 << 21];
	MUST(obuf_dup(&b, data, 100) == 100);
	size_t n = obuf_dup(&b, data, sizeof(data));
	MUST(n < sizeof(data));
	MUST(obuf_size(&b) == 100 + n);
	return 0;
}'''),
dict(id="C09-used-before-slab", prop="C09",
 edits=[("small/mempool.c", """	struct mslab *slab = pool->first_hot_slab;
	if (slab == NULL) {
		if (pool->spare) {""", """	struct mslab *slab = pool->first_hot_slab;
	pool->slabs.stats.used += pool->objsize;
	if (slab == NULL) {
		if (pool->spare) {"""), ("small/mempool.c", """	pool->slabs.stats.used += pool->objsize;
	void *ptr = mslab_alloc(pool, slab);
""", """	void *ptr = mslab_alloc(pool, slab);
""")],
 needs="an object is refused",
 breaks="objects that do not exist are counted",
 demo=SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(1 << 20, 0, 1 << 20);
	struct mempool p; mempool_create(&p, &cache, 1000);
	size_t n = 0;
	while (mempool_alloc(&p)) n++;
	MUST(mempool_count(&p) == n);
	return 0;
}'''),
dict(id="C14-size-after-free", prop="C14",
 edits=[("include/small/lsregion.h", """			size_t slab_size = slab->slab_size;
			lsregion->slabs.stats.total -= slab_size;
			free(slab);
			quota_release(lsregion->arena->quota, slab_size);
""", """			lsregion->slabs.stats.total -= slab->slab_size;
			free(slab);
			quota_release(lsregion->arena->quota, slab->slab_size);
""")],
 needs="the memory of a large slab is reused or unmapped as soon as it is freed",
 breaks="an arbitrary amount is given back to the quota",
 flags="-O1 -g -Wl,--wrap=free", demo=SETUP + r'''
#include "lsregion.h"
void __real_free(void *); static int reuse;
void __wrap_free(void *p) { if (reuse) memset(p, 1, 100); __real_free(p); } /* another thread may write there */
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct lsregion r; lsregion_create(&r, &arena);
	MUST(lsregion_alloc(&r, 2 << 20, 1));
	reuse = 1;
	lsregion_gc(&r, 1);
	reuse = 0;
	MUST(quota_used(&quota) == 0);
	return 0;
}'''),
]
