from bugs1 import SETUP, HOOK, WRAP
BUGS = [
dict(id="C06-release-32bit", prop="C06",
 edits=[("include/small/quota_lessor.h", "		size_t release = available - QUOTA_USE_MIN - QUOTA_UNIT_SIZE;\n", "		uint32_t release = available - QUOTA_USE_MIN - QUOTA_UNIT_SIZE;\n")],
 needs="more than 4 GB of leases ended at once",
 breaks="the unused quota is kept instead of given back",
 nolib=True, demo=r'''
#include "quota.h"
#include "quota_lessor.h"
int main(void)
{
	struct quota q; struct quota_lessor l;
	quota_init(&q, 64ull << 30);
	quota_lessor_create(&l, &q);
	size_t n = (5ull << 30) + 12345;
	MUST(quota_lease(&l, n) > 0);
	quota_end_lease(&l, n);
	MUST(quota_available(&l) < 2 * QUOTA_USE_MIN);
	MUST(quota_used(&q) < 2 * QUOTA_USE_MIN);
	return 0;
}'''),
dict(id="C08-used-before-malloc", prop="C08",
 edits=[("small/slab_cache.c", """	if (quota_use(cache->arena->quota, size) < 0)
		return NULL;
	struct slab *slab = (struct slab *) malloc(size);
	if (slab == NULL) {
		quota_release(cache->arena->quota, size);
		return NULL;
	}
""", """	if (quota_use(cache->arena->quota, size) < 0)
		return NULL;
	cache->allocated.stats.used += size;
	struct slab *slab = (struct slab *) malloc(size);
	if (slab == NULL) {
		cache->allocated.stats.used -= size;
		quota_release(cache->arena->quota, size);
		return NULL;
	}
"""), ("small/slab_cache.c", """	slab_list_add(&cache->allocated, slab, next_in_cache);
	cache->allocated.stats.used += size;
""", """	slab_list_add(&cache->allocated, slab, next_in_cache);
""")],
 needs="another thread reads the used size while a large slab is being refused by malloc",
 breaks="a used size is seen which the cache never had",
 flags="-O1 -g -Wl,--wrap=malloc", demo=SETUP + r'''
static int refuse; static size_t seen;
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n)
{
	if (!refuse) return __real_malloc(n);
	seen = slab_cache_used(&cache); /* what another thread would see now */
	return NULL;
}
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	MUST(slab_get(&cache, 1000));
	size_t used = slab_cache_used(&cache);
	refuse = 1;
	MUST(slab_get(&cache, 8 << 20) == NULL);
	refuse = 0;
	MUST(seen == used);
	return 0;
}'''),
dict(id="C11-max-size-not-aligned", prop="C11",
 edits=[("small/small.c", "	alloc->objsize_max = small_align(alloc->objsize_max, granularity);\n", "	alloc->objsize_max = small_align(alloc->objsize_max, sizeof(intptr_t));\n")],
 needs="a granularity above 8 and an object of the largest size class",
 breaks="objects of the largest size class are not aligned to the granularity",
 demo=SETUP + r'''
#include "small.h"
int main(void)
{
	for (int g = 8; g <= 64; g *= 2) {
		up(64 << 20, 0, 4 << 20);
		struct small_alloc s; float f;
		small_alloc_create(&s, &cache, 64, g, 1.3, &f);
		for (int i = 0; i < 8; i++)
			MUST(((uintptr_t)smalloc(&s, s.objsize_max) & (g - 1)) == 0);
	}
	return 0;
}'''),
dict(id="C12-destroy-skips-empty", prop="C12",
 edits=[("small/small.c", """	while ((pool = mempool_iterator_next(&it))) {
		mempool_destroy(pool);
	}""", """	while ((pool = mempool_iterator_next(&it))) {
		/* Nothing to free in unused pools. */
		if (mempool_count(pool) > 0)
			mempool_destroy(pool);
	}""")],
 needs="an allocator destroyed while pools without objects keep a spare slab, with the slab cache used on",
 breaks="spare slabs are not given back to the slab cache",
 demo=SETUP + r'''
#include "small.h"
int main(void)
{
	up(64 << 20, 0, 4 << 20);
	struct small_alloc s; float f;
	small_alloc_create(&s, &cache, 8, 8, 1.3, &f);
	void *p = smalloc(&s, 100);
	smfree(&s, p, 100);
	small_alloc_destroy(&s);
	MUST(slab_cache_used(&cache) == 0);
	return 0;
}'''),
dict(id="C12-sweep-stops-early", prop="C12",
 edits=[("small/small.c", """			small_mempool_deactivate(pool);
			if (pool->pool.spare != NULL)
				mempool_free_spare_slab(&pool->pool);
""", """			small_mempool_deactivate(pool);
			if (pool->pool.spare != NULL) {
				/* There is memory for the object now. */
				mempool_free_spare_slab(&pool->pool);
				break;
			}
""")],
 needs="memory exhausted while several pools keep an empty slab and the first of them is too small for the request",
 breaks="an allocation is refused although reclaiming the empty slabs gives enough memory",
 demo=SETUP + r'''
#include "small.h"
static char *o[400000]; static int sz[400000];
int main(void)
{
	int served = 0, tried = 0;
	for (int a = 16; a <= 4000; a += 256) for (int b = a + 500; b <= 16000; b += 1500) {
		up(8 << 20, 0, 1 << 20);
		struct small_alloc s; float f;
		small_alloc_create(&s, &cache, 8, 8, 1.05, &f);
		/* activate pools of many sizes by wasting memory in them, then empty them */
		int n = 0;
		for (int x = a; x <= b; x += 112)
			for (int i = 0; i < 40; i++) { char *p = smalloc(&s, x); if (!p) break; o[n] = p; sz[n++] = x; }
		for (int i = 0; i < n; i++) smfree(&s, o[i], sz[i]);
		/* fill the memory with the largest objects */
		tried++;
		for (n = 0; (o[n] = smalloc(&s, s.objsize_max)); n++);
		served += n;
		small_alloc_destroy(&s);
		slab_cache_destroy(&cache);
		slab_arena_destroy(&arena);
	}
	fprintf(stderr, "served %d in %d runs\n", served, tried);
	MUST(served >= 13056);
	return 0;
}'''),
dict(id="C13-callback-on-refusal", prop="C13",
 edits=[("include/small/region.h", """	region->reserved = false;
#endif
	void *ptr = region_reserve(region, size);
	if (ptr != NULL) {
		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
						       struct rslab,
						       slab.next_in_list);
		assert(size <= rslab_unused(slab));

		if (small_unlikely(region->on_alloc_cb != NULL))
			region->on_alloc_cb(region, size, region->cb_arg);
""", """	region->reserved = false;
#endif
	if (small_unlikely(region->on_alloc_cb != NULL))
		region->on_alloc_cb(region, size, region->cb_arg);
	void *ptr = region_reserve(region, size);
	if (ptr != NULL) {
		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
						       struct rslab,
						       slab.next_in_list);
		assert(size <= rslab_unused(slab));

""")],
 needs="an allocation refused for lack of memory in a region with callbacks",
 breaks="the callback reports memory which was not allocated",
 demo=SETUP + r'''
#include "region.h"
static size_t sum;
static void a(struct region *r, size_t n, void *x) { sum += n; }
static void t(struct region *r, size_t u, void *x) { sum = u; }
int main(void)
{
	up(1 << 20, 0, 1 << 20);
	struct region r; region_create(&r, &cache);
	region_set_callbacks(&r, a, t, NULL);
	MUST(region_alloc(&r, 100));
	MUST(region_alloc(&r, 8 << 20) == NULL);
	MUST(sum == region_used(&r));
	return 0;
}'''),
dict(id="C15-pos-32bit", prop="C15",
 edits=[("small/lsregion.c", "	size_t prev_pos = svp->pos;\n", "	uint32_t prev_pos = svp->pos;\n")],
 needs="a single allocation of more than 4 GB which was flushed already",
 breaks="flushed data is returned again",
 flags="-O1 -g -DNDEBUG", demo=SETUP + r'''
#include "lsregion.h"
#include <sys/uio.h>
int main(void)
{
	up(64ull << 30, 0, 65536);
	struct lsregion l; lsregion_create(&l, &arena);
	struct lsregion_svp svp; lsregion_svp_create(&svp);
	if (!lsregion_alloc(&l, (4ull << 30) + 5000, 1)) return 0;
	struct iovec iov[4]; int n = 4;
	MUST(lsregion_to_iovec(&l, iov, &n, &svp) == 1 && n == 1);
	n = 4; lsregion_to_iovec(&l, iov, &n, &svp);
	MUST(n == 0);
	return 0;
}'''),
dict(id="C20-copy-to-the-view", prop="C20",
 edits=[("small/matras.c", """		void *new_extent = matras_copy_read_view_extent(m, extent3);
		if (!new_extent)
			return 0;
		extent2[n2] = new_extent;
		extent3 = (char *)new_extent;
""", """		void *new_extent = matras_copy_read_view_extent(m, extent3);
		if (!new_extent)
			return 0;
		if (m->head.prev_view->prev_view == NULL &&
		    m->head.prev_view->next_view == &m->head) {
			/* The only view: keep addresses of the current version. */
			extent2p[n2] = new_extent;
		} else {
			extent2[n2] = new_extent;
			extent3 = (char *)new_extent;
		}
""")],
 needs="a reader that looked up a block of the only read view before the owner touches and changes the block",
 breaks="the reader sees the new contents through the old view",
 demo=r'''
#include "matras.h"
enum { EXT = 64 };
static void *ea(struct matras_allocator *a) { return malloc(EXT); }
static void ef(struct matras_allocator *a, void *p) { free(p); }
int main(void)
{
	struct matras_allocator al; struct matras m; matras_id_t id; struct matras_view v;
	matras_allocator_create(&al, EXT, ea, ef);
	matras_create(&m, 32, &al, NULL);
	for (int i = 0; i < 10; i++) memset(matras_alloc(&m, &id), i, 32);
	matras_create_read_view(&m, &v);
	char *p = matras_view_get(&m, &v, 5);
	memset(matras_touch(&m, 5), 55, 32);
	MUST(*p == 5);
	MUST(*(char *)matras_get(&m, 5) == 55);
	return 0;
}'''),
dict(id="C23-keep-slabs-when-full", prop="C23",
 edits=[("small/slab_cache.c", """	if (slab->order == cache->order_max &&
	    !rlist_empty(&cache->orders[slab->order].slabs)) {""", """	if (slab->order == cache->order_max &&
	    !rlist_empty(&cache->orders[slab->order].slabs) &&
	    quota_used(cache->arena->quota) < quota_total(cache->arena->quota)) {""")],
 needs="quota exhausted by one thread while another frees all it has",
 breaks="a cache keeps all its free memory when it is needed most, other threads are refused although everything was freed",
 demo=SETUP + r'''
int main(void)
{
	up(4 << 20, 0, 1 << 20);
	struct slab *s[4];
	for (int i = 0; i < 4; i++) MUST(s[i] = slab_get(&cache, 1000000));
	for (int i = 0; i < 4; i++) slab_put(&cache, s[i]);
	/* another user of the arena gets all but the one slab which the cache keeps */
	for (int i = 0; i < 3; i++) MUST(slab_map(&arena));
	return 0;
}'''),
]
