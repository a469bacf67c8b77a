from bugs1 import SETUP, HOOK, WRAP
from bugs3 import MATRAS
BUGS = [
dict(id="C10-slab-order-by-int", prop="C10",
 edits=[("small/mempool.c", """	return lhs > rhs ? 1 : (lhs < rhs ? -1 : 0);
""", """	return (int)((intptr_t)lhs - (intptr_t)rhs);
""")],
 needs="slabs of one pool which are more than 2 GB apart, or whose addresses are equal in the low 32 bits",
 breaks="the tree of partly used slabs is not ordered any more: slabs with free slots are lost in it",
 flags=WRAP, files=["far.h"], demo='#include "far.h"\n' + SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(64 << 20, 0, 65536);
	static struct mempool pool; mempool_create(&pool, &cache, 1000);
	static void *p[20000]; unsigned x = 1; size_t n = 0, live = 0;
	alarm(60);
	for (int i = 0; i < 200000; i++) {
		x = x * 1103515245 + 12345; size_t k = (x >> 8) % 2000;
		if (p[k]) { mempool_free(&pool, p[k]); p[k] = NULL; live--; }
		else { MUST((p[k] = mempool_alloc(&pool)) != NULL); memset(p[k], (int)k, 1000); live++; }
		n = live > n ? live : n;
	}
	struct mempool_stats s; mempool_stats(&pool, &s);
	MUST(s.objcount == live);
	for (size_t i = 0; i < 2000; i++) if (p[i]) { for (int j = 8; j < 1000; j++) MUST(((unsigned char *)p[i])[j] == (unsigned char)i); mempool_free(&pool, p[i]); }
	mempool_stats(&pool, &s);
	MUST(s.slabcount <= 1);
	return 0;
}'''),
dict(id="C07-fallback-to-malloc", prop="C07",
 edits=[("small/slab_cache.c", """		slab = slab_get_with_order(cache, order);
	assert(slab == NULL || slab->size == slab_real_size(cache, size));
""", """		slab = slab_get_with_order(cache, order);
	assert(slab == NULL || slab->size == slab_real_size(cache, size));
	/* No more whole slabs in the arena, but there may be some quota left. */
	if (slab == NULL && order <= cache->order_max)
		slab = slab_get_large(cache, size);
""")],
 needs="the arena refuses a slab while the quota has less than a slab of it left, or when a mapping fails",
 breaks="a slab of an order is not aligned to its size: it cannot be found by a pointer into it",
 flags=WRAP, files=["wrapmem.h"], demo='#include "wrapmem.h"\n' + SETUP + r'''
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	fail_mmap = 1;
	for (int i = 0; i < 100; i++) {
		struct slab *s = slab_get(&cache, 60000);
		if (s) {
			MUST(((uintptr_t)s & 65535) == 0);
			MUST(slab_from_ptr(slab_data(s), ~(intptr_t)65535) == s);
		}
		fail_mmap = 0;
	}
	return 0;
}'''),
dict(id="C17-rollback-clears-one", prop="C17",
 edits=[("small/obuf.c", """	int i;
	for (i = buf->pos + 1; i < iovcnt; i++)
		buf->iov[i].iov_len = 0;
#ifndef NDEBUG
	buf->reserved = false;
#endif
}""", """	if (buf->pos + 1 < iovcnt)
		buf->iov[buf->pos + 1].iov_len = 0;
#ifndef NDEBUG
	buf->reserved = false;
#endif
}""")],
 needs="a rollback over more than one full vector, and then more output",
 breaks="bytes which were rolled back are sent later",
 demo=SETUP + r'''
#include "obuf.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 1024);
	struct obuf_svp s = obuf_create_svp(&b);
	static char d[9000]; 
	for (int i = 0; i < 100; i++) MUST(obuf_dup(&b, d, 900) == 900);
	obuf_rollback_to_svp(&b, &s);
	MUST(obuf_size(&b) == 0);
	for (int i = 0; i < 10; i++) MUST(obuf_dup(&b, d, 900) == 900);
	size_t n = 0; for (int i = 0; i < obuf_iovcnt(&b); i++) n += b.iov[i].iov_len;
	MUST(n == 9000);
	return 0;
}'''),
dict(id="C13-callback-before-truncation", prop="C13",
 edits=[("small/region.c", """	size_t cut_size = region_used(region) - used;

""", """	size_t cut_size = region_used(region) - used;
	if (small_unlikely(region->on_truncate_cb != NULL))
		region->on_truncate_cb(region, used, region->cb_arg);

"""), ("small/region.c", """	region->reserved = false;
#endif
	if (small_unlikely(region->on_truncate_cb != NULL))
		region->on_truncate_cb(region, used, region->cb_arg);
}

void *
region_join""", """	region->reserved = false;
#endif
}

void *
region_join""")],
 needs="a truncation callback which looks at the region",
 breaks="the callback sees the region as it was before the truncation",
 demo=SETUP + r'''
#include "region.h"
static size_t seen;
static void on_alloc(struct region *r, size_t n, void *a) { (void)r; (void)n; (void)a; }
static void on_trunc(struct region *r, size_t used, void *a) { (void)a; seen = region_used(r); MUST(seen == used); }
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct region r; region_create(&r, &cache);
	region_set_callbacks(&r, on_alloc, on_trunc, NULL);
	MUST(region_alloc(&r, 100)); MUST(region_alloc(&r, 100000));
	region_truncate(&r, 100);
	region_truncate(&r, 0);
	return 0;
}'''),
dict(id="C15-count-in-char", prop="C15",
 edits=[("small/lsregion.c", """	int cnt = 0;
	rlist_foreach_entry(lslab, &lsregion->slabs.slabs, next_in_list) {
""", """	int8_t cnt = 0;
	rlist_foreach_entry(lslab, &lsregion->slabs.slabs, next_in_list) {
""")],
 needs="more than 127 blocks exported at once",
 breaks="the number of vectors wraps: blocks are reported as exported but are not",
 demo=SETUP + r'''
#include "lsregion.h"
int main(void)
{
	up(64 << 20, 0, 65536);
	struct lsregion l; lsregion_create(&l, &arena);
	size_t want = 0, got = 0;
	for (int i = 0; i < 300; i++) { MUST(lsregion_alloc(&l, 50000, i + 1)); want += 50000; }
	static struct iovec v[400]; int n = 400;
	struct lsregion_svp s; lsregion_svp_create(&s);
	MUST(lsregion_to_iovec(&l, v, &n, &s) == 300);
	for (int i = 0; i < n; i++) got += v[i].iov_len;
	MUST(got == want);
	return 0;
}'''),
dict(id="C22-huge-size-wraps", prop="C22",
 edits=[("include/small/static.h", """	if (size > SMALL_STATIC_SIZE - static_storage_pos) {
		if (size > SMALL_STATIC_SIZE)
			return NULL;
""", """	if (static_storage_pos + size > SMALL_STATIC_SIZE) {
		if (size > SMALL_STATIC_SIZE)
			return NULL;
""")],
 needs="a size close to the largest one while the buffer is partly used",
 breaks="a request which can never be served is granted",
 demo=r'''
#include <stddef.h>
#include "static.h"
int main(void)
{
	MUST(static_alloc(1000) != NULL);
	MUST(static_reserve((size_t)-900) == NULL);
	MUST(static_alloc((size_t)-1000) == NULL);
	return 0;
}'''),
dict(id="C06-used-not-rounded", prop="C06",
 edits=[("include/small/quota_lessor.h", """			lessor->used += used;
""", """			lessor->used += use;
""")],
 needs="a lease of more than a chunk which is not a whole number of units",
 breaks="the rest of the last unit stays charged for ever",
 nolib=True, flags="-O1 -g -DNDEBUG", demo=r'''
#include <stddef.h>
#include <sys/types.h>
#include "quota.h"
#include "quota_lessor.h"
int main(void)
{
	struct quota q; struct quota_lessor l;
	quota_init(&q, 64 << 20);
	quota_lessor_create(&l, &q);
	for (int i = 0; i < 20; i++) {
		MUST(quota_lease(&l, (2 << 20) + 10) > 0);
		quota_end_lease(&l, (2 << 20) + 10);
	}
	quota_lessor_destroy(&l);
	MUST(quota_used(&q) == 0);
	return 0;
}'''),
dict(id="C02-tag-carry", prop="C02",
 edits=[("include/small/lf_lifo.h", """		void *newhead = (char *) elem + aba_value((char *) tail + 1);
""", """		void *newhead = (char *) elem + (aba_value(tail) + 1);
""")],
 needs="65536 pushes to one list",
 breaks="the tag overflows into the address of the pushed element",
 nolib=True, demo=r'''
#include <stddef.h>
#include "lf_lifo.h"
static struct lf_lifo l; static char a[1 << 18] __attribute__((aligned(65536)));
int main(void)
{
	lf_lifo_init(&l);
	for (int i = 0; i < 70000; i++) {
		MUST(lf_lifo_push(&l, a + 65536));
		MUST(lf_lifo_pop(&l) == a + 65536);
	}
	return 0;
}'''),
dict(id="C04-trim-swapped", prop="C04",
 edits=[("small/slab_arena.c", """		munmap_checked(map, align - offset);
		map += align - offset;
		munmap_checked(map + size, offset);
""", """		munmap_checked(map, align - offset);
		map += align - offset;
		munmap_checked(map + size, MIN(offset, align - offset));
"""), ("small/slab_arena.c", """#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define MIN(a, b) ((a) < (b) ? (a) : (b))

""", ""), ("small/slab_arena.c", """static void
munmap_checked(void *addr, size_t size)
""", """#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define MIN(a, b) ((a) < (b) ? (a) : (b))

static void
munmap_checked(void *addr, size_t size)
""")],
 needs="a mapping placed in the second half of an aligned range",
 breaks="a part of the surplus mapping is never given back",
 flags=WRAP, files=["mapat.h"], demo='#include "mapat.h"\n' + SETUP + r'''
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	void *p[4];
	for (int i = 0; i < 4; i++) { off = (i + 1) * 200 * 1024; MUST((p[i] = slab_map(&arena)) != NULL); MUST(mapped == (i + 1) << 20); }
	for (int i = 0; i < 4; i++) slab_unmap(&arena, p[i]);
	slab_arena_destroy(&arena);
	MUST(mapped == 0);
	return 0;
}'''),
dict(id="C20-next-link-lost", prop="C20",
 edits=[("small/matras.c", """	m->head.prev_view = v;
	if (v->prev_view)
		v->prev_view->next_view = v;
""", """	m->head.prev_view = v;
""")],
 needs="an older view is closed while a newer one is open",
 breaks="the newer view loses its memory to the head, or extents of the older one are freed although the newer one shares them",
 demo=MATRAS + r'''
int main(void)
{
	up(16);
	matras_id_t id;
	for (int i = 0; i < 40; i++) memset(matras_alloc(&m, &id), 1, 16);
	struct matras_view a, b;
	matras_create_read_view(&m, &a);
	matras_create_read_view(&m, &b);
	matras_destroy_read_view(&m, &a);
	matras_destroy_read_view(&m, &b);
	struct matras_view c, d;
	matras_create_read_view(&m, &c);
	for (int i = 0; i < 40; i++) memset(matras_touch(&m, i), 2, 16);
	matras_create_read_view(&m, &d);
	matras_destroy_read_view(&m, &c);
	for (int i = 0; i < 40; i++) memset(matras_touch(&m, i), 3, 16);
	for (int i = 0; i < 40; i++) MUST(*(char *)matras_view_get(&m, &d, i) == 2);
	matras_destroy_read_view(&m, &d);
	matras_destroy(&m);
	MUST(held == 0);
	return 0;
}'''),
]
