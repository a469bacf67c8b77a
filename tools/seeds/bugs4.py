from bugs1 import SETUP, HOOK, WRAP
from bugs3 import MATRAS
BUGS = [
dict(id="C05-use-gives-up", prop="C05",
 edits=[("include/small/quota.h", """	assert(size_in_units);
	while (1) {
		uint64_t value = quota->value;
		uint32_t total_in_units = value >> 32;
		uint32_t used_in_units = value & UINT32_MAX;

		/* Sic""", """	assert(size_in_units);
	for (int attempts = 0;; attempts++) {
		/* Do not spin on a hopelessly contended quota. */
		if (attempts == 64)
			return -1;
		uint64_t value = quota->value;
		uint32_t total_in_units = value >> 32;
		uint32_t used_in_units = value & UINT32_MAX;

		/* Sic""")],
 needs="64 attempts in a row to update the quota which lose against other threads",
 breaks="a request is refused because of contention alone",
 nolib=True, files=HOOK, demo=r'''
#include "quota.h"
#include "hook.h"
static struct quota q; static int n;
static void other(void) { if (n++ & 1) quota_release(&q, 1024); else MUST(quota_use(&q, 1024) > 0); if (n < 200) demo_hook = other; }
int main(void)
{
	quota_init(&q, 100 * 1024);
	demo_hook = other;
	MUST(quota_use(&q, 5 * 1024) > 0);
	return 0;
}'''),
dict(id="C02-hoisted-element", prop="C02",
 edits=[("include/small/lf_lifo.h", """	do {
		void *tail = head->next;
		struct lf_lifo *elem = lf_lifo(tail);
		if (elem == NULL)
			return NULL;
""", """	void *tail = head->next;
	struct lf_lifo *elem = lf_lifo(tail);
	do {
		if (lf_lifo(tail) == NULL)
			return NULL;
"""), ("include/small/lf_lifo.h", """				 aba_value(tail));
		if""", """				 aba_value(tail));
		/* A failed update loads the new head into tail. */
		if""")],
 needs="the head changes in the middle of a pop",
 breaks="an element which somebody else owns is popped, the one on top is lost",
 nolib=True, files=HOOK, demo=r'''
#include "lf_lifo.h"
#include "hook.h"
static struct lf_lifo h; static char *e[3]; static void *got;
static void other(void) { got = lf_lifo_pop(&h); }
int main(void)
{
	for (int i = 0; i < 3; i++) e[i] = aligned_alloc(65536, 65536);
	lf_lifo_init(&h);
	for (int i = 0; i < 3; i++) lf_lifo_push(&h, e[i]);
	demo_hook = other;
	void *p = lf_lifo_pop(&h);
	MUST(p != got);
	return 0;
}'''),
dict(id="C03-offset-32bit", prop="C03",
 edits=[("small/slab_arena.c", """		ptr = arena->arena + used - arena->slab_size;
""", """		uint32_t offset = used - arena->slab_size;
		ptr = (char *)arena->arena + offset;
""")],
 needs="more than 4 GB are preallocated and in use",
 breaks="slabs are handed out a second time",
 demo=r'''
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
int main(void)
{
	static struct quota q; static struct slab_arena a;
	quota_init(&q, 8ull << 30);
	MUST(slab_arena_create(&a, &q, 6ull << 30, 1u << 30, SLAB_ARENA_PRIVATE) == 0);
	char *s[6];
	for (int i = 0; i < 6; i++) { MUST(s[i] = slab_map(&a)); for (int j = 0; j < i; j++) MUST(s[i] != s[j]); }
	return 0;
}'''),
dict(id="C04-used-refund-lost", prop="C04",
 edits=[("small/slab_arena.c", """		__sync_sub_and_fetch(&arena->used, arena->slab_size);
""", """		/* Only if nobody took a slab in the meantime. */
		__sync_bool_compare_and_swap(&arena->used, used,
					     used - arena->slab_size);
""")],
 needs="another thread takes a slab while the mapping of a slab is being refused",
 breaks="the arena counts a slab which it never handed out",
 flags=WRAP, demo=SETUP + r'''
void *__real_mmap(void *, size_t, int, int, int, long); int __real_munmap(void *, size_t); void *__real_malloc(size_t);
static int arm; static void *other;
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
int __wrap_munmap(void *a, size_t n) { return __real_munmap(a, n); }
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, long o)
{
	if (arm == 1) { arm = 0; other = slab_map(&arena); MUST(other); return MAP_FAILED; }
	return __real_mmap(a, n, p, f, d, o);
}
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	arm = 1;
	MUST(slab_map(&arena) == NULL && other);
	MUST(arena.used == 1 << 20);
	MUST(quota_used(&quota) == 1 << 20);
	return 0;
}'''),
dict(id="C06-lease-counted-on-refusal", prop="C06",
 edits=[("include/small/quota_lessor.h", """	size_t required = size + lessor->leased - lessor->used;
""", """	size_t available = lessor->used - lessor->leased;
	size_t required = size - available;
	lessor->leased = lessor->used;
"""), ("include/small/quota_lessor.h", """			lessor->leased += size;
			return size;
		}
		if (use""", """			lessor->leased += required;
			return size;
		}
		if (use""")],
 needs="a lease larger than what the lessor has in advance, refused by the quota",
 breaks="the refused lease leaves what was available as leased",
 nolib=True, demo=r'''
#include "quota.h"
#include "quota_lessor.h"
int main(void)
{
	struct quota q; struct quota_lessor l;
	quota_init(&q, 2 << 20);
	quota_lessor_create(&l, &q);
	MUST(quota_lease(&l, 1000) == 1000);
	MUST(quota_lease(&l, 10 << 20) == -1);
	MUST(quota_leased(&l) == 1000);
	return 0;
}'''),
dict(id="C11-group-of-33", prop="C11",
 edits=[("small/small.c", """	while (last_in_group < last && pool_count++ < POOL_PER_GROUP_MAX - 1)""",
"""	while (last_in_group < last && pool_count++ < POOL_PER_GROUP_MAX)""")],
 needs="more than 32 size classes with the same slab size: a small growth factor",
 breaks="a size class allocates from pools of another size",
 flags="-O1 -g -DNDEBUG", demo=SETUP + r'''
#include "small.h"
int main(void)
{
	up(256 << 20, 0, 1 << 22);
	struct small_alloc a; float f; small_alloc_create(&a, &cache, 16, 8, 1.01, &f);
	struct small_alloc_info i;
	for (size_t n = 1; n < a.objsize_max; n += 7) {
		void *p = smalloc(&a, n); MUST(p);
		small_alloc_info(&a, p, n, &i);
		MUST(i.real_size >= n);
		smfree(&a, p, n);
	}
	return 0;
}'''),
dict(id="C12-last-deactivated", prop="C12",
 edits=[("small/small.c", """	if (small_mempool == small_mempool->group->last)
		return false;
""", """	/* At least one pool must be left in the group. */
	if ((mask & (mask - 1)) == 0)
		return false;
""")],
 needs="memory runs out when the last pool of a group is empty while a smaller pool of the group is active",
 breaks="size classes above the remaining pool are left without a pool",
 flags="-O1 -g -DNDEBUG", demo=SETUP + r'''
#include "small.h"
int main(void)
{
	up(8 << 20, 0, 1 << 20);
	struct small_alloc a; float f; small_alloc_create(&a, &cache, 16, 8, 1.3, &f);
	static void *o[1000000]; int n = 0;
	/* activates the pool of this size; objects made before that were in the last pool */
	while (n < 1000000 && (o[n] = smalloc(&a, 40))) n++;
	struct small_mempool *sm = &a.small_mempool_cache[0];
	while (sm->pool.objsize < 40) sm++;
	for (int i = 0; i < n; i++) {
		struct mslab *s = (struct mslab *)slab_from_ptr(o[i], sm->pool.slab_ptr_mask);
		if (s->mempool != &sm->pool) { smfree(&a, o[i], 40); o[i] = NULL; }
	}
	while (smalloc(&a, 40));
	while (smalloc(&a, 40));
	/* every size class still allocates from a pool of at least its size */
	for (uint32_t k = 0; k < a.small_mempool_cache_size; k++) {
		struct small_mempool *p = &a.small_mempool_cache[k];
		MUST(p->used_pool->pool.objsize >= p->pool.objsize);
		MUST(p->used_pool >= p->group->first && p->used_pool <= p->group->last);
	}
	return 0;
}'''),
dict(id="C13-aligned-fast-path", prop="C13",
 edits=[("include/small/region.h", """	/* reserve extra to allow for alignment */
	void *ptr = region_reserve(region, size + alignment - 1);
""", """	if (!rlist_empty(&region->slabs.slabs)) {
		/* Often there is no padding at all. */
		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
						       struct rslab,
						       slab.next_in_list);
		if (size <= rslab_unused(slab))
			return (void *)small_align(
				(uintptr_t)rslab_data_end(slab), alignment);
	}
	/* reserve extra to allow for alignment */
	void *ptr = region_reserve_slow(region, size + alignment - 1);
""")],
 needs="an aligned allocation which fits into the block without its padding, but not with it",
 breaks="the allocation reaches over the end of its block",
 flags="-O1 -g -DNDEBUG", demo=SETUP + r'''
#include "region.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	for (int d = 0; d < 64; d++) {
		struct region r; region_create(&r, &cache);
		MUST(region_alloc(&r, 1001));
		struct rslab *s = rlist_first_entry(&r.slabs.slabs, struct rslab, slab.next_in_list);
		size_t n = rslab_unused(s) - d;
		char *p = region_aligned_alloc(&r, n, 64);
		s = rlist_first_entry(&r.slabs.slabs, struct rslab, slab.next_in_list);
		MUST(p && p + n <= (char *)s + s->slab.size);
		region_destroy(&r);
	}
	return 0;
}'''),
dict(id="C14-gc-last-slab", prop="C14",
 edits=[("include/small/lsregion.h", """		if (slab->max_id > min_id)
			break;
""", """		/* Collecting a nearly empty current block gains nothing. */
		if (slab->max_id > min_id ||
		    (next_is_end && slab->slab_used < slab->slab_size / 16))
			break;
"""), ("include/small/lsregion.h", """	rlist_foreach_entry_safe(slab, &lsregion->slabs.slabs, next_in_list,
				 next) {
		if""", """	rlist_foreach_entry_safe(slab, &lsregion->slabs.slabs, next_in_list,
				 next) {
		bool next_is_end = &next->next_in_list ==
				   &lsregion->slabs.slabs;
		if""")],
 needs="everything is collected while little was allocated from the last block",
 breaks="used stays above zero without live data",
 demo=SETUP + r'''
#include "lsregion.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct lsregion l; lsregion_create(&l, &arena);
	lsregion_alloc(&l, 1000, 1);
	lsregion_gc(&l, 1);
	MUST(lsregion_used(&l) == 0);
	return 0;
}'''),
dict(id="C15-full-slab-skipped", prop="C15",
 edits=[("small/lsregion.c", """		if (lslab->slab_id < prev_id ||
		    (lslab->slab_id == prev_id &&
		     lslab->slab_used - lslab_sizeof() == prev_pos)) {
			continue;
		}""", """		if (lslab->slab_id < prev_id ||
		    (lslab->slab_id == prev_id && (lslab_unused(lslab) == 0 ||
		     lslab->slab_used - lslab_sizeof() == prev_pos))) {
			continue;
		}""")],
 needs="a block partly exported and filled up to its last byte before the next export",
 breaks="the rest of the block is never exported",
 demo=SETUP + r'''
#include <sys/uio.h>
#include "lsregion.h"
int main(void)
{
	up(64 << 20, 0, 1 << 16);
	struct lsregion l; lsregion_create(&l, &arena);
	struct lsregion_svp svp; lsregion_svp_create(&svp); struct iovec v[4]; int n = 4;
	lsregion_alloc(&l, 1000, 1);
	lsregion_to_iovec(&l, v, &n, &svp); MUST(n == 1 && v[0].iov_len == 1000);
	size_t rest = (1 << 16) - lslab_sizeof() - 1000;
	lsregion_alloc(&l, rest, 2);
	n = 4; lsregion_to_iovec(&l, v, &n, &svp);
	MUST(n == 1 && v[0].iov_len == rest);
	return 0;
}'''),
dict(id="C17-reset-used-only", prop="C17",
 edits=[("small/obuf.c", """	int iovcnt = obuf_iovcnt(buf);
	int i;
	for (i = 0; i < iovcnt; i++)
		buf->iov[i].iov_len = 0;
	buf->pos = 0;""", """	/* The vectors up to the current position are in use. */
	int i;
	for (i = 0; i < buf->pos; i++)
		buf->iov[i].iov_len = 0;
	if (buf->pos == 0)
		buf->iov[0].iov_len = 0;
	buf->pos = 0;""")],
 needs="a reset of a buffer with more than one vector, then growing into the last one again",
 breaks="stale bytes of before the reset appear in the vectors",
 flags="-O1 -g -DNDEBUG", demo=SETUP + r'''
#include "obuf.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 4096);
	static char d[100000]; memset(d, 1, sizeof(d));
	for (int k = 0; k < 3; k++) {
		size_t sum = 0;
		for (int i = 0; i < 10; i++) MUST(obuf_dup(&b, d, 5000) == 5000);
		for (int i = 0; i < obuf_iovcnt(&b); i++) sum += b.iov[i].iov_len;
		MUST(sum == obuf_size(&b) && sum == 50000);
		obuf_reset(&b);
	}
	return 0;
}'''),
dict(id="C18-small-first-vector-moves", prop="C18",
 edits=[("small/obuf.c", """	if (iov->iov_len > 0) {
		/* Move to the next buffer. */
		if""", """	if (buf->pos == 0 && iov->iov_len > 0 && iov->iov_len <= 64 &&
	    size > capacity) {
		/* Not worth a vector of its own: move it to the new buffer. */
		size_t need = capacity;
		while (need < size + iov->iov_len)
			need *= 2;
		struct slab *slab = slab_get(buf->slabc, need);
		if (slab == NULL)
			return NULL;
		memcpy(slab_data(slab), iov->iov_base, iov->iov_len);
		slab_put(buf->slabc, slab_from_data(iov->iov_base));
		iov->iov_base = slab_data(slab);
		buf->capacity[0] = slab_capacity(slab);
		return (char *)iov->iov_base + iov->iov_len;
	} else if (iov->iov_len > 0) {
		/* Move to the next buffer. */
		if""")],
 needs="a savepoint after at most 64 bytes, then space for more than the first vector is reserved",
 breaks="published bytes move, their old memory is freed",
 demo=SETUP + r'''
#include "obuf.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 4096);
	char *p = obuf_alloc(&b, 20); memset(p, 3, 20);
	struct obuf_svp s = obuf_create_svp(&b);
	MUST(obuf_alloc(&b, 100000));
	MUST(b.iov[0].iov_base == p && obuf_svp_to_ptr(&b, &s) == p + 20);
	return 0;
}'''),
dict(id="C10-old-spare-forgotten", prop="C10",
 edits=[("small/mempool.c", """		if (pool->spare > slab) {
			mempool_free_spare_slab(pool);
			pool->spare = slab;""", """		if (pool->spare > slab) {
			/* Prefer lower addresses. */
			pool->spare = slab;""")],
 needs="a slab becomes empty while an empty slab at a higher address is in reserve",
 breaks="the former reserve slab is neither used nor given back",
 demo=SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct mempool p; mempool_create(&p, &cache, 1000);
	static void *o[3000];
	for (int k = 0; k < 20; k++) {
		for (int i = 0; i < 3000; i++) MUST(o[i] = mempool_alloc(&p));
		for (int i = 2999; i >= 0; i--) mempool_free(&p, o[i]);
	}
	for (int k = 0; k < 20; k++) {
		for (int i = 0; i < 3000; i++) MUST(o[i] = mempool_alloc(&p));
		for (int i = 0; i < 3000; i++) mempool_free(&p, o[i]);
	}
	struct mempool_stats s; mempool_stats(&p, &s);
	MUST(s.slabcount <= 1);
	return 0;
}'''),
dict(id="C21-reserve-shared-level", prop="C21",
 edits=[("small/matras.c", """	int max_extents_required = count * 2 + root_is_to_be_copied;""", """	int ptrs_in_ext = m->extent_size / sizeof(void *);
	int max_extents_required = count + root_is_to_be_copied +
		/* Blocks share the extents of the second level. */
		(count + ptrs_in_ext - 1) / ptrs_in_ext;""")],
 needs="space reserved for touching blocks which lie in different second-level extents",
 breaks="a touch which was reserved for is refused",
 demo=MATRAS + r'''
int main(void)
{
	matras_id_t id; struct matras_view v; up(32);
	for (int i = 0; i < 40; i++) MUST(matras_alloc(&m, &id));
	matras_create_read_view(&m, &v);
	MUST(matras_touch_reserve(&m, 2) == 0);
	budget = 0;
	MUST(matras_touch(&m, 0) && matras_touch(&m, 39));
	return 0;
}'''),
dict(id="C22-aligned-keeps-pos", prop="C22",
 edits=[("include/small/static.h", """		static_storage_pos = (char *) res - static_storage_buffer;
		static_storage_pos += size;""", """		static_storage_pos = small_align(static_storage_pos, alignment);
		static_storage_pos += size;""")],
 needs="an alignment larger than that of the buffer itself",
 breaks="the position is behind what was returned: the next request overlaps it",
 demo=r'''
#include "static.h"
int main(void)
{
	for (size_t al = 1; al <= 4096; al *= 2) for (int k = 0; k < 50; k++) {
		char *a = static_aligned_alloc(100, al);
		char *b = static_alloc(100);
		MUST((uintptr_t)a % al == 0);
		MUST(b >= a + 100 || b + 100 <= a);
	}
	return 0;
}'''),
dict(id="C09-spare-not-linked", prop="C09",
 edits=[("small/mempool.c", """		} else if (pool->spare) {
			slab_list_del(&pool->slabs, &slab->slab,
				      next_in_list);
			slab_put_with_order(pool->cache, &slab->slab);
		} else {
			pool->spare = slab;
		}""", """		} else if (pool->spare) {
			pool->slabs.stats.total -= slab->slab.size;
			rlist_del_entry(&slab->slab, next_in_list);
			slab_put_with_order(pool->cache, &slab->slab);
		} else {
			/* The reserve is not a part of the pool any more. */
			rlist_del_entry(&slab->slab, next_in_list);
			pool->spare = slab;
		}"""), ("small/mempool.c", """			slab = pool->spare;
			pool->spare = NULL;
""", """			slab = pool->spare;
			pool->spare = NULL;
			rlist_add_entry(&pool->slabs.slabs, &slab->slab,
					next_in_list);
""")],
 needs="a pool is destroyed while it has an empty slab in reserve",
 breaks="the slab is not handed back to the slab cache",
 demo=SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct mempool p; mempool_create(&p, &cache, 1000);
	void *o = mempool_alloc(&p); mempool_free(&p, o);
	mempool_destroy(&p);
	MUST(slab_cache_used(&cache) == 0);
	return 0;
}'''),
dict(id="C24-truncate-keeps-reserved", prop="C24", asan=True,
 edits=[("small/region_asan.c", """	struct region_allocation *alloc, *tmp;
	if (region->reserved != 0) {""", """	struct region_allocation *alloc, *tmp;
	/* A reservation on top of the savepoint may be used later. */
	if (region->reserved != 0 && cut_size != 0) {""")],
 needs="a truncation to what is already used, after a reservation",
 breaks="the reserved space stays accessible and the next reservation is taken for a double one",
 demo=SETUP + r'''
#include "region.h"
#include <sanitizer/asan_interface.h>
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct region r; region_create(&r, &cache);
	region_alloc(&r, 100);
	size_t svp = region_used(&r);
	char *p = region_reserve(&r, 500);
	region_truncate(&r, svp);
	MUST(__asan_address_is_poisoned(p + 10));
	return 0;
}'''),
dict(id="C24-ids-not-atomic", prop="C24", asan=True,
 edits=[("small/util.c", """	return pm_atomic_fetch_add(&small_asan_id_next, 1);""", """	unsigned int id = pm_atomic_load(&small_asan_id_next);
	pm_atomic_store(&small_asan_id_next, id + 1);
	return id;""")],
 needs="two threads create pools at the same time",
 breaks="pools share an identifier: freeing an object to the wrong pool is not noticed",
 demo=SETUP + r'''
#include <pthread.h>
#include "mempool.h"
unsigned int small_asan_reserve_id(void);
enum { N = 3000000 };
static unsigned ids[2][N];
static void *run(void *a) { unsigned *p = a; for (int i = 0; i < N; i++) p[i] = small_asan_reserve_id(); return NULL; }
static unsigned char seen[2 * N + 100];
int main(void)
{
	pthread_t t[2];
	for (int i = 0; i < 2; i++) pthread_create(&t[i], NULL, run, ids[i]);
	for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
	for (int i = 0; i < 2; i++) for (int j = 0; j < N; j++) { MUST(ids[i][j] < sizeof(seen)); MUST(!seen[ids[i][j]]++); }
	return 0;
}'''),
]
