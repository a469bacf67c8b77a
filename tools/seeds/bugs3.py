from bugs1 import SETUP, HOOK, WRAP
MATRAS = r'''
#include "matras.h"
enum { EXT = 64 };
static long budget = 1000000, held;
static void *ea(struct matras_allocator *a) { if (budget-- <= 0) return NULL; held++; return malloc(EXT); }
static void ef(struct matras_allocator *a, void *p) { held--; free(p); }
static struct matras_allocator al; static struct matras m;
static void up(unsigned block) { matras_allocator_create(&al, EXT, ea, ef); matras_create(&m, block, &al, NULL); }
'''
BUGS = [
dict(id="C10-leftmost-lost", prop="C10",
 edits=[("small/mempool.c", """		if (pool->first_hot_slab == NULL ||
		    mslab_cmp(pool->first_hot_slab, slab) == 1) {
			pool->first_hot_slab = slab;
		}""", """		if (pool->first_hot_slab == NULL)
			pool->first_hot_slab = slab;""")],
 needs="a slab at a lower address than the one in use gets free slots, the one in use fills up, and no memory for new slabs",
 breaks="an object is refused although slabs of the pool have free slots",
 demo=SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(2 << 20, 0, 1 << 20);
	struct mempool p; mempool_create(&p, &cache, 1000);
	static char *o[10000]; int n = 0;
	while ((o[n] = mempool_alloc(&p))) n++;
	char *hi = o[0], *lo = o[0];
	for (int i = 0; i < n; i++) { if (o[i] > hi) hi = o[i]; if (o[i] < lo) lo = o[i]; }
	int k = 0;
	/* the slab with the highest address first, then the lowest */
	for (int pass = 0; pass < 2; pass++)
		for (int i = 0, f = 0; i < n && f < (int)p.objcount / 2; i++)
			if (o[i] && (((uintptr_t)o[i] ^ (uintptr_t)(pass ? lo : hi)) & p.slab_ptr_mask) == 0) { mempool_free(&p, o[i]); o[i] = 0; k++; f++; }
	while (k--) MUST(mempool_alloc(&p) != NULL);
	return 0;
}'''),
dict(id="C08-kept-halves", prop="C08",
 edits=[("small/slab_cache.c", """		} while (buddy && buddy->order == slab->order &&
			 slab_is_free(buddy));""", """		} while (buddy && buddy->order == slab->order &&
			 slab_is_free(buddy) &&
			 (slab->order + 1 < cache->order_max ||
			  rlist_empty(&cache->orders[cache->order_max].slabs)));""")],
 needs="a maximum-size slab in reserve while the last pieces of another one are freed from the order below",
 breaks="free memory is kept in halves instead of being returned to the arena",
 demo=SETUP + r'''
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct slab *s[3], *q[4];
	s[0] = slab_get(&cache, 1000000); MUST(s[0]);
	for (int i = 0; i < 4; i++) MUST(q[i] = slab_get(&cache, 200000));
	slab_put(&cache, s[0]);
	for (int i = 0; i < 4; i++) slab_put(&cache, q[i]);
	MUST(slab_cache_used(&cache) == 0);
	MUST(cache.allocated.stats.total == 1 << 20);
	return 0;
}'''),
dict(id="C16-shrink-after-consume", prop="C16",
 edits=[("small/ibuf.c", """	char *ptr = (char *)slab_data(slab);
	memcpy(ptr, ibuf->rpos, used);
	if (ibuf->buf)
		slab_put(ibuf->slabc, slab_from_data(ibuf->buf));
	ibuf->buf = ptr;
	ibuf->rpos = ptr;
	ibuf->wpos = ptr + used;
	ibuf->end = ptr + slab_capacity(slab);""", """	char *ptr = (char *)slab_data(slab);
	size_t pos = ibuf->rpos - ibuf->buf;
	/* Keep the read position if there is enough room. */
	if (pos + used > slab_capacity(slab))
		pos = 0;
	memcpy(ptr + pos, ibuf->rpos, used);
	if (ibuf->buf)
		slab_put(ibuf->slabc, slab_from_data(ibuf->buf));
	ibuf->buf = ptr;
	ibuf->rpos = ptr;
	ibuf->wpos = ptr + used;
	ibuf->end = ptr + slab_capacity(slab);""")],
 needs="shrinking a buffer the front of which was consumed, with little enough consumed to fit into the smaller slab together with the data",
 breaks="unread bytes are replaced with garbage",
 demo=SETUP + r'''
#include "ibuf.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct ibuf b; ibuf_create(&b, &cache, 1024);
	MUST(ibuf_reserve(&b, 200000));
	char *p = ibuf_alloc(&b, 1200);
	for (int i = 0; i < 1200; i++) p[i] = i * 7;
	ibuf_consume(&b, 700);
	ibuf_shrink(&b);
	MUST(ibuf_used(&b) == 500);
	for (int i = 0; i < 500; i++) MUST(b.rpos[i] == (char)((i + 700) * 7));
	return 0;
}'''),
dict(id="C01-torn-snapshot", prop="C01",
 edits=[("include/small/quota.h", """	uint64_t value = quota->value;
	*total = (value >> 32) * QUOTA_UNIT_SIZE;
	*used = (value & UINT32_MAX) * QUOTA_UNIT_SIZE;""", """	*total = (pm_atomic_load(&quota->value) >> 32) * QUOTA_UNIT_SIZE;
	*used = (pm_atomic_load(&quota->value) & UINT32_MAX) * QUOTA_UNIT_SIZE;""")],
 needs="limit and usage change between the two reads of a snapshot",
 breaks="a limit and a usage are returned which never existed together",
 nolib=True, demo=r'''
#include <pthread.h>
#include "quota.h"
static struct quota q; static volatile int stop;
static void *flip(void *a)
{
	/* usage is above 10 units only while the limit is 100 */
	while (!stop) {
		if (quota_set(&q, 100 << 10) < 0) abort();
		if (quota_use(&q, 90 << 10) < 0) abort();
		quota_release(&q, 90 << 10);
		if (quota_set(&q, 10 << 10) < 0) abort();
	}
	return NULL;
}
int main(void)
{
	quota_init(&q, 10 << 10);
	pthread_t t; pthread_create(&t, NULL, flip, NULL);
	for (long i = 0; i < 200000000; i++) {
		size_t total, used;
		quota_get_total_and_used(&q, &total, &used);
		MUST(used <= total);
	}
	stop = 1; pthread_join(t, NULL);
	return 0;
}'''),
dict(id="C04-retry-private", prop="C04",
 edits=[("small/slab_arena.c", """	map = mmap(NULL, size + align, PROT_READ | PROT_WRITE, flags, -1, 0);""", """	map = mmap(NULL, size + align, PROT_READ | PROT_WRITE,
		   MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);""")],
 needs="a shared arena and a first mapping that is not aligned",
 breaks="memory of a shared arena is private to the process: a forked child does not see it",
 flags="-O1 -g -Wl,--wrap=mmap", demo=SETUP + r'''
#include <unistd.h>
#include <sys/wait.h>
void *__real_mmap(void *, size_t, int, int, int, long);
static int bad = 1;
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, long o)
{
	if (bad) { bad = 0; char *q = __real_mmap(NULL, n + (16 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		char *w = (char *)(((uintptr_t)q + (1 << 20) - 1 & ~((uintptr_t)(1 << 20) - 1)) + 4096);
		return __real_mmap(w, n, p, f | MAP_FIXED, d, o); }
	return __real_mmap(a, n, p, f, d, o);
}
int main(void)
{
	quota_init(&quota, 64 << 20);
	MUST(slab_arena_create(&arena, &quota, 0, 1 << 20, SLAB_ARENA_SHARED) == 0);
	volatile char *p = slab_map(&arena); MUST(p);
	pid_t c = fork(); MUST(c >= 0);
	if (c == 0) { *p = 77; _exit(0); }
	waitpid(c, NULL, 0);
	MUST(*p == 77);
	return 0;
}'''),
dict(id="C04-adjacent-slab-leaks", prop="C04",
 edits=[("small/slab_arena.c", """		    ptr >= arena->arena + arena->prealloc) {""", """		    ptr > arena->arena + arena->prealloc) {""")],
 needs="the operating system maps a slab directly behind the preallocated area",
 breaks="destroying the arena leaves that slab mapped",
 flags="-O1 -g -Wl,--wrap=mmap", demo=SETUP + r'''
void *__real_mmap(void *, size_t, int, int, int, long);
static char *base; static int k;
void *__wrap_mmap(void *a, size_t n, int p, int f, int d, long o)
{
	if (!base) { char *q = __real_mmap(NULL, 16 << 20, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); base = (char *)((uintptr_t)q + (1 << 20) - 1 & ~((uintptr_t)(1 << 20) - 1)); }
	char *r = __real_mmap(base + k, n, p, f | MAP_FIXED, d, o); k += n; return r;
}
int main(void)
{
	up(64 << 20, 2 << 20, 1 << 20);
	char *s[3];
	for (int i = 0; i < 3; i++) { MUST(s[i] = slab_map(&arena)); s[i][5] = 1; }
	for (int i = 0; i < 3; i++) slab_unmap(&arena, s[i]);
	slab_arena_destroy(&arena);
	/* nothing is mapped there any more */
	for (int i = 0; i < 3; i++) MUST(msync(s[i], 4096, MS_ASYNC) == -1 && errno == ENOMEM);
	return 0;
}'''),
dict(id="C21-third-level-undo", prop="C21",
 edits=[("small/matras.c", """			if (!extent1_available) /* was created */
				matras_free_extent(m, extent1);
			if (!extent2_available) /* was created */
				matras_free_extent(m, extent2);
			return 0;""", """			if (!extent1_available) /* was created */
				matras_free_extent(m, extent1);
			else if (!extent2_available) /* was created */
				matras_free_extent(m, extent2);
			return 0;""")],
 needs="the third extent of the very first allocation is refused",
 breaks="an extent leaks",
 demo=MATRAS + r'''
int main(void)
{
	matras_id_t id; up(32);
	budget = 2;
	MUST(matras_alloc(&m, &id) == NULL);
	MUST(held == 0 && matras_extent_count(&m) == 0);
	return 0;
}'''),
dict(id="C14-header-slack", prop="C14",
 edits=[("small/lsregion.c", """	size_t aligned_size = size + alignment - 1;
	if (aligned""", """	size_t aligned_size = size;
	/* The header keeps common alignments. */
	if (lslab_sizeof() < alignment)
		aligned_size += alignment - 1;
	if (aligned""")],
 needs="an aligned allocation of nearly a whole slab, the alignment being smaller than the slab header but not dividing its size",
 breaks="the allocation reaches over the end of its slab",
 flags="-O1 -g -DNDEBUG", demo=SETUP + r'''
#include "lsregion.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct lsregion l; lsregion_create(&l, &arena);
	for (size_t al = 1; al <= 4096; al *= 2) for (size_t d = 0; d < 200; d++) {
		char *p = lsregion_aligned_alloc(&l, (1 << 20) - lslab_sizeof() - d, al, 1);
		MUST(p && (uintptr_t)p % al == 0);
		struct lslab *s = rlist_last_entry(&l.slabs.slabs, struct lslab, next_in_list);
		MUST(p + (1 << 20) - lslab_sizeof() - d <= (char *)s + s->slab_size);
		lsregion_gc(&l, 1);
	}
	return 0;
}'''),
dict(id="C15-savepoint-before-limit", prop="C15",
 edits=[("small/lsregion.c", """		if (cnt >= max_iovcnt)
			break;
		iov->iov_base = (char *)lslab + lslab_sizeof();
		iov->iov_len = lslab->slab_used - lslab_sizeof();
		svp->slab_id = lslab->slab_id;
		svp->pos = iov->iov_len;
		max_alloc_id = lslab->max_id;
""", """		svp->slab_id = lslab->slab_id;
		svp->pos = lslab->slab_used - lslab_sizeof();
		if (cnt >= max_iovcnt)
			break;
		iov->iov_base = (char *)lslab + lslab_sizeof();
		iov->iov_len = lslab->slab_used - lslab_sizeof();
		max_alloc_id = lslab->max_id;
""")],
 needs="more slabs to export than the vector has room for",
 breaks="the next export skips a slab",
 demo=SETUP + r'''
#include <sys/uio.h>
#include "lsregion.h"
int main(void)
{
	up(64 << 20, 0, 1 << 16);
	struct lsregion l; lsregion_create(&l, &arena);
	for (int i = 0; i < 5; i++) memset(lsregion_alloc(&l, 60000, i + 1), 'a' + i, 60000);
	struct lsregion_svp svp; lsregion_svp_create(&svp); size_t sum = 0; int n; struct iovec v[2];
	do { n = 2; lsregion_to_iovec(&l, v, &n, &svp); for (int i = 0; i < n; i++) sum += v[i].iov_len; } while (n);
	MUST(sum == 5 * 60000);
	return 0;
}'''),
dict(id="C09-objects-after-header", prop="C09",
 edits=[("small/mempool.c", """	pool->offset = slab_size - pool->objcount * pool->objsize;""", """	pool->offset = slab_size - pool->objcount * pool->objsize;
	/* Spread the unused tail: leave a part of it behind the objects. */
	if (pool->offset - mslab_sizeof() >= 1024)
		pool->offset -= 512;""")],
 needs="an object size which is a multiple of more than 512 and leaves at least 1024 bytes of a slab unused",
 breaks="objects lose the alignment which their size implies",
 demo=SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	for (uint32_t n = 1024; n <= 32768; n += 1024) {
		struct mempool p; mempool_create(&p, &cache, n);
		for (int i = 0; i < 10; i++) { uintptr_t a = (uintptr_t)mempool_alloc(&p); MUST(a && a % (n & -n) == 0); }
	}
	return 0;
}'''),
dict(id="C02-push-order", prop="C02",
 edits=[("include/small/lf_lifo.h", """	do {
		void *tail = head->next;
		lf_lifo(elem)->next = tail;
""", """	lf_lifo(elem)->next = head->next;
	do {
		void *tail = head->next;
""")],
 needs="the head changes between the two reads of it in a push, or a push has to retry",
 breaks="elements are lost or appear twice",
 nolib=True, files=HOOK, demo=r'''
#include "lf_lifo.h"
#include "hook.h"
static struct lf_lifo h; static char *e[3];
static void other(void) { lf_lifo_push(&h, e[1]); }
int main(void)
{
	for (int i = 0; i < 3; i++) e[i] = aligned_alloc(65536, 65536);
	lf_lifo_init(&h);
	demo_hook = other;
	lf_lifo_push(&h, e[0]);
	int n = 0; while (lf_lifo_pop(&h)) n++;
	MUST(n == 2);
	return 0;
}'''),
dict(id="C20-tail-blocks-untouched", prop="C20",
 edits=[("include/small/matras.h", """		matras_id_t next_last_extent_id = next_last_id >> m->shift2;
		if (extent_id > next_last_extent_id)
			return false;""", """		matras_id_t next_last_extent_id = next_last_id >> m->shift2;
		if (extent_id > next_last_extent_id ||
		    (extent_id == next_last_extent_id && id > next_last_id))
			return false;""")],
 needs="a block allocated after a view was created in an extent the view shares, the extent then copied by a change of an older block",
 breaks="nothing is copied for a block that the view does not have, although a later copy moves it: what was written is lost",
 demo=MATRAS + r'''
int main(void)
{
	matras_id_t id; struct matras_view v; up(16);
	char *a = matras_alloc(&m, &id); memset(a, 1, 16);
	matras_create_read_view(&m, &v);
	char *b = matras_alloc(&m, &id);
	b = matras_touch(&m, id);
	char *a2 = matras_touch(&m, 0); memset(a2, 2, 16);
	memset(b, 9, 16);
	MUST(*(char *)matras_view_get(&m, &v, 0) == 1);
	MUST(*(char *)matras_get(&m, id) == 9);
	return 0;
}'''),
dict(id="C11-odd-granularity-large", prop="C11",
 edits=[("small/small.c", """	if (size > alloc->objsize_max)
		return NULL;
	unsigned cls""", """	if ((uint32_t)size > alloc->objsize_max)
		return NULL;
	unsigned cls""")],
 needs="a request of 4 GB and a few bytes",
 breaks="a huge request gets a tiny object",
 demo=SETUP + r'''
#include "small.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct small_alloc a; float f; small_alloc_create(&a, &cache, 16, 8, 1.1, &f);
	MUST(smalloc(&a, (4ull << 30) + 100) == NULL);
	MUST(smalloc(&a, 100) != NULL);
	return 0;
}''', flags="-O1 -g -DNDEBUG"),
dict(id="C12-stats-stop", prop="C12",
 edits=[("small/small.c", """	if (small_mempool->waste >= small_mempool->group->waste_max / 4)
		return false;""", """	if (small_mempool->waste > 0)
		return false;""")],
 needs="a pool that is empty while some objects of its size live in larger pools, and no memory",
 breaks="its empty slab is not reclaimed, so a request is refused which could be served",
 demo=SETUP + r'''
#include "small.h"
int main(void)
{
	return 0;
}'''),
dict(id="C17-dup-from-refused", prop="C17",
 edits=[("small/obuf.c", """			if (obuf_alloc_pos(buf, to_copy) == NULL)
				return size - to_copy;
			break;""", """			if (obuf_alloc_pos(buf, to_copy) == NULL) {
				if (buf->pos > 0)
					buf->pos--;
				return size - to_copy;
			}
			break;""")],
 needs="memory refused in the middle of an append",
 breaks="the size is right, but the next append after a rollback or the vector count misses a vector",
 demo=SETUP + r'''
#include "obuf.h"
int main(void)
{
	up(1 << 20, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 4096);
	static char d[4 << 20]; memset(d, 5, sizeof(d));
	size_t n = 0, k;
	while ((k = obuf_dup(&b, d, 30000)) == 30000) n += k;
	n += k;
	struct obuf_svp s = obuf_create_svp(&b);
	MUST(obuf_size(&b) == n);
	size_t sum = 0;
	for (int i = 0; i < obuf_iovcnt(&b); i++) sum += b.iov[i].iov_len;
	MUST(sum == n);
	return 0;
}'''),
dict(id="C19-dealloc-range-first", prop="C19",
 edits=[("small/matras.c", """	assert(m->head.block_count % range_count == 0);
	assert(m->extent_size / m->block_size % range_count == 0);
	m->head.block_count -= (range_count - 1);
	matras_dealloc(m);""", """	assert(m->head.block_count % range_count == 0);
	assert(m->extent_size / m->block_size % range_count == 0);
	/* Whole extents go one block at a time, the last block frees them. */
	m->head.block_count -= range_count & m->mask2 ? range_count - 1 : 0;
	matras_dealloc(m);""")],
 needs="deallocating a range as large as an extent",
 breaks="only one block of the range is deallocated",
 demo=MATRAS + r'''
int main(void)
{
	matras_id_t id; up(16);
	MUST(matras_alloc_range(&m, &id, 4) && id == 0);
	MUST(matras_alloc_range(&m, &id, 4) && id == 4);
	matras_dealloc_range(&m, 4);
	MUST(matras_alloc(&m, &id) && id == 4);
	return 0;
}'''),
dict(id="C24-region-reserve-tail", prop="C24", asan=True,
 edits=[("small/region_asan.c", """	ASAN_POISON_MEMORY_REGION(payload + size, region->reserved - size);
""", """	if (region->reserved - size >= SMALL_REGION_MIN_RESERVE)
		ASAN_POISON_MEMORY_REGION(payload + size,
					  region->reserved - size);
""")],
 needs="an allocation of a bit less than was reserved before",
 breaks="bytes behind a region allocation stay accessible",
 demo=SETUP + r'''
#include "region.h"
#include <sanitizer/asan_interface.h>
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct region r; region_create(&r, &cache);
	region_reserve(&r, 1000);
	char *p = region_alloc(&r, 992);
	MUST(__asan_address_is_poisoned(p + 992));
	return 0;
}'''),
dict(id="C24-lsregion-gc-reserved", prop="C24", asan=True,
 edits=[("small/lsregion_asan.c", """		if (alloc->id > min_id)
			break;
""", """		if (alloc->id >= min_id && alloc->used != 0)
			break;
""")],
 needs="collection up to the id of an allocation",
 breaks="memory which was to be collected is kept",
 demo=SETUP + r'''
#include "lsregion.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct lsregion l; lsregion_create(&l, &arena);
	for (int i = 1; i < 5; i++) lsregion_alloc(&l, 100, i);
	lsregion_gc(&l, 4);
	MUST(lsregion_used(&l) == 0);
	return 0;
}'''),
]
