from bugs1 import SETUP, HOOK, WRAP
BUGS = [
dict(id="C11-objsize-max-not-capped", prop="C11",
 edits=[("small/small.c", """	small_mempool_create_groups(alloc, cur_order_pool, last_pool);
	alloc->objsize_max = objsize;
""", """	small_mempool_create_groups(alloc, cur_order_pool, last_pool);
""")],
 needs="an allocation factor so small that there are more size classes up to the largest size than pools, and a request between the largest pool and the largest size",
 breaks="the request gets an object of the last pool although it does not fit",
 demo=SETUP + r'''
#include "small.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	static struct small_alloc a; float f;
	small_alloc_create(&a, &cache, 8, 1, 1.002, &f);
	for (size_t n = 1; n < 200000; n += 37) {
		struct small_alloc_info i;
		small_alloc_info(&a, NULL, n, &i);
		MUST(i.real_size >= n);
		char *p = smalloc(&a, n);
		MUST(p != NULL);
		smfree(&a, p, n);
	}
	return 0;
}'''),
dict(id="C02-stale-next-on-retry", prop="C02",
 edits=[("include/small/lf_lifo.h", """	do {
		void *tail = head->next;
		lf_lifo(elem)->next = tail;
		/*
		 * Sic: add 1""", """	void *tail = head->next;
	lf_lifo(elem)->next = tail;
	do {
		/*
		 * Sic: add 1""")],
 needs="another thread pushes or pops between the read of the head and the compare-and-swap of a push, which updates the expected value on failure",
 breaks="the pushed element is linked to an element that is not the top any more: elements are lost or handed out twice",
 nolib=True, files=HOOK, demo=r'''
#include "lf_lifo.h"
#include "hook.h"
static struct lf_lifo l; static char a[1 << 16] __attribute__((aligned(65536))), b[1 << 16] __attribute__((aligned(65536))), c[1 << 16] __attribute__((aligned(65536)));
static void other(void) { lf_lifo_push(&l, b); }
int main(void)
{
	lf_lifo_init(&l);
	lf_lifo_push(&l, a);
	demo_hook = other;
	lf_lifo_push(&l, c);
	MUST(lf_lifo_pop(&l) == c);
	MUST(lf_lifo_pop(&l) == b);
	MUST(lf_lifo_pop(&l) == a);
	MUST(lf_lifo_pop(&l) == NULL);
	return 0;
}'''),
dict(id="C06-idle-lessor-keeps", prop="C06",
 edits=[("include/small/quota_lessor.h", """		size_t release = available - QUOTA_USE_MIN - QUOTA_UNIT_SIZE;
""", """		size_t release = lessor->leased > QUOTA_USE_MIN ?
			available - QUOTA_USE_MIN - QUOTA_UNIT_SIZE :
			available - 2 * QUOTA_USE_MIN + QUOTA_UNIT_SIZE;
"""), ("include/small/quota_lessor.h", """	if (available >= 2 * QUOTA_USE_MIN) {
""", """	if (available >= 2 * QUOTA_USE_MIN && size >= QUOTA_UNIT_SIZE) {
""")],
 needs="more than two chunks are given back in pieces of less than one unit each",
 breaks="an idle lessor keeps any amount of the shared quota",
 nolib=True, demo=r'''
#include <stddef.h>
#include <sys/types.h>
#include "quota.h"
#include "quota_lessor.h"
int main(void)
{
	struct quota q; struct quota_lessor l;
	quota_init(&q, 64 << 20);
	quota_lessor_create(&l, &q);
	for (int i = 0; i < 8 << 10; i++) MUST(quota_lease(&l, 1000) == 1000);
	for (int i = 0; i < 8 << 10; i++) quota_end_lease(&l, 1000);
	MUST(quota_leased(&l) == 0);
	MUST(quota_used(&q) < 2 << 20);
	return 0;
}'''),
dict(id="C06-halved-below-required", prop="C06",
 edits=[("include/small/quota_lessor.h", """		if (use == required)
			return -1;
		/* Take less in advance, but never less than required. */
		use = use / 2 > required ? use / 2 : required;
""", """		if (use <= QUOTA_UNIT_SIZE)
			return -1;
		/* Take less in advance. */
		use = use / 2;
""")],
 needs="the shared quota has less left than required, but at least a unit",
 breaks="a lease is granted that is not covered by the shared quota",
 nolib=True, demo=r'''
#include <stddef.h>
#include <sys/types.h>
#include "quota.h"
#include "quota_lessor.h"
int main(void)
{
	struct quota q; struct quota_lessor l;
	quota_init(&q, 4 << 20);
	quota_lessor_create(&l, &q);
	MUST(quota_use(&q, (4 << 20) - 300 * 1024) > 0);
	MUST(quota_lease(&l, 400 * 1024) == -1);
	MUST(quota_leased(&l) == 0);
	MUST(quota_lease(&l, 290 * 1024) > 0);
	MUST(quota_leased(&l) <= quota_used(&q));
	return 0;
}'''),
dict(id="C13-reset-stops-at-unused", prop="C13",
 edits=[("include/small/region.h", """	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list)
		slab->used = 0;
""", """	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list) {
		/* The rest was reset before. */
		if (slab->used == 0)
			break;
		slab->used = 0;
	}
""")],
 needs="a block which was reserved but never used, in front of used ones, at a reset",
 breaks="blocks behind it count as used although the region is empty: later truncations and joins go wrong",
 demo=SETUP + r'''
#include "region.h"
int main(void)
{
	up(64 << 20, 0, 1 << 16);
	struct region r; region_create(&r, &cache);
	memset(region_alloc(&r, 3000), 1, 3000);
	MUST(region_reserve(&r, 9000) != NULL);
	region_truncate(&r, region_used(&r));	/* drops the reservation */
	memset(region_alloc(&r, 2000), 1, 2000);
	MUST(region_reserve(&r, 50000) != NULL);
	region_reset(&r);
	for (int i = 0; i < 3; i++) {
		memset(region_alloc(&r, 40000), 2, 40000);
		memset(region_alloc(&r, 10), 3, 10);
		region_truncate(&r, 0);
		MUST(region_used(&r) == 0);
	}
	/* what the region keeps is what the cache has in use */
	MUST(region_total(&r) == slab_cache_used(&cache));
	char *p;
	MUST((p = region_alloc(&r, 100)) != NULL); memset(p, 5, 100);
	MUST(region_reserve(&r, 9000) != NULL);
	region_reset(&r);
	MUST((p = region_alloc(&r, 9000)) != NULL); memset(p, 7, 9000);
	MUST((p = region_alloc(&r, 200)) != NULL); memset(p, 8, 200);
	p = region_join(&r, 9200);
	for (int i = 0; i < 9200; i++) MUST(p[i] == (i < 9000 ? 7 : 8));
	region_free(&r);

	/* a used block, an unused one in front, reset, drop the front one, continue in the other */
	region_create(&r, &cache);
	MUST((p = region_alloc(&r, 1000)) != NULL);
	MUST(region_reserve(&r, 9000) != NULL);
	region_reset(&r);
	region_truncate(&r, 0);
	MUST(region_total(&r) == 0);
	region_free(&r);
	return 0;
}'''),
dict(id="C17-destroy-used-only", prop="C17",
 edits=[("small/obuf.c", """	for (i = 0; i < buf->n_iov; i++) {
		struct slab *slab = slab_from_data(buf->iov[i].iov_base);""", """	for (i = 0; i <= buf->pos && i < buf->n_iov; i++) {
		struct slab *slab = slab_from_data(buf->iov[i].iov_base);""")],
 needs="the buffer is destroyed after a rollback or reset which left allocated vectors behind the position",
 breaks="the memory of the vectors behind the current position is not given back",
 demo=SETUP + r'''
#include <sys/uio.h>
#include "obuf.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 1000);
	struct obuf_svp s = obuf_create_svp(&b);
	for (int i = 0; i < 100; i++) MUST(obuf_alloc(&b, 1000) != NULL);
	obuf_rollback_to_svp(&b, &s);
	obuf_destroy(&b);
	MUST(slab_cache_used(&cache) == 0);
	return 0;
}'''),
dict(id="C22-refusal-rewinds", prop="C22",
 edits=[("include/small/static.h", """		if (size > SMALL_STATIC_SIZE)
			return NULL;
		static_storage_pos = 0;
	}
""", """		static_storage_pos = 0;
		if (size > SMALL_STATIC_SIZE)
			return NULL;
	}
""")],
 needs="a request that is larger than the buffer between requests which fit",
 breaks="the next request overwrites recent strings although the buffer has room",
 demo=r'''
#include "static.h"
int main(void)
{
	char *a = static_alloc(100), *b = static_alloc(100);
	memset(a, 1, 100); memset(b, 2, 100);
	MUST(static_alloc(SMALL_STATIC_SIZE + 1) == NULL);
	memset(static_alloc(100), 3, 100);
	for (int i = 0; i < 100; i++) MUST(a[i] == 1 && b[i] == 2);
	return 0;
}'''),
dict(id="C22-offset-aligned", prop="C22",
 edits=[("include/small/static.h", """	void *unaligned = static_reserve(size + alignment - 1);
	if (unaligned == NULL)
		return NULL;
	return (void *) small_align((size_t) unaligned, alignment);
""", """	char *unaligned = (char *) static_reserve(size + alignment - 1);
	if (unaligned == NULL)
		return NULL;
	size_t pos = unaligned - static_storage_buffer;
	return static_storage_buffer + small_align(pos, alignment);
""")],
 needs="an alignment stricter than that of the buffer itself",
 breaks="the returned address is not aligned",
 demo=r'''
#include "static.h"
int main(void)
{
	for (size_t a = 1; a <= 4096; a *= 2) {
		char *p = static_aligned_alloc(10, a);
		MUST(p != NULL && (size_t)p % a == 0);
	}
	return 0;
}'''),
dict(id="C23-destroy-large-by-capacity", prop="C23",
 edits=[("small/slab_cache.c", """			size_t slab_size = slab->size;
			VALGRIND_MEMPOOL_FREE(cache, slab_data(slab));
			free(slab);
			quota_release(cache->arena->quota, slab_size);
		} else {""", """			size_t capacity = slab_capacity(slab);
			VALGRIND_MEMPOOL_FREE(cache, slab_data(slab));
			free(slab);
			quota_release(cache->arena->quota, capacity);
		} else {""")],
 needs="a slab cache is destroyed with a large slab whose header alone fills the last unit of quota",
 breaks="a unit of quota stays charged for ever",
 demo=SETUP + r'''
int main(void)
{
	up(64 << 20, 0, 1 << 16);
	for (size_t n = 100000; n < 101024; n++) {
		slab_cache_create(&cache, &arena);
		MUST(slab_get(&cache, n) != NULL);
		slab_cache_destroy(&cache);
		MUST(quota_used(&quota) == 0);
	}
	return 0;
}'''),
]
