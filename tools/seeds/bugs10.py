from bugs1 import SETUP
from bugs3 import MATRAS
M="small/matras.c"; S="small/small.c"
BUGS = [
dict(id="C21-allocator-destroy-half", prop="C21",
 edits=[(M,"""	while (allocator->num_reserved_extents > 0) {
		void *ext = allocator->reserved_extents;
		allocator->reserved_extents = *(void **)ext;
		allocator->free_func""","""	for (int i = 0; i < allocator->num_reserved_extents; i++) {
		void *ext = allocator->reserved_extents;
		allocator->reserved_extents = *(void **)ext;
		allocator->free_func""")],
 needs="an allocator destroyed while two or more extents are reserved",
 breaks="half of the reserved extents are never given back",
 demo=MATRAS + r'''
int main(void)
{
	matras_id_t id; struct matras_view v; up(16);
	for (int i = 0; i < 10; i++) MUST(matras_alloc(&m, &id));
	matras_create_read_view(&m, &v);
	MUST(matras_touch_reserve(&m, 3) == 0);
	matras_destroy_read_view(&m, &v);
	matras_destroy(&m);
	matras_allocator_destroy(&al);
	MUST(held == 0);
	return 0;
}'''),
dict(id="C12-waste-by-current-pool", prop="C12",
 edits=[(S,"""	assert(pool->waste >= slab->mempool->objsize - pool->pool.objsize);
	pool->waste -= slab->mempool->objsize - pool->pool.objsize;""","""	/* What an object of this pool wastes. */
	size_t waste = pool->used_pool->pool.objsize - pool->pool.objsize;
	pool->waste -= waste < pool->waste ? waste : pool->waste;""")],
 needs="objects taken from a larger pool, freed after their own pool was activated, and memory exhausted later",
 breaks="the emptied pool still counts the waste, is not deactivated and keeps its slab while allocations are refused",
 demo=SETUP + r'''
#include "small.h"
static char *o[400000];
int main(void)
{
	int served = 0;
	for (int x = 100; x <= 3000; x += 100) {
		up(8 << 20, 0, 1 << 20);
		struct small_alloc s; float f;
		small_alloc_create(&s, &cache, 8, 8, 1.05, &f);
		/* empty: how many of the largest objects fit */
		int fit, n = 0;
		for (fit = 0; (o[fit] = smalloc(&s, s.objsize_max)); fit++);
		for (int i = 0; i < fit; i++) smfree(&s, o[i], s.objsize_max);
		while (n < 4000 && (o[n] = smalloc(&s, x))) n++;
		for (int i = 0; i < n; i++) smfree(&s, o[i], x);
		for (n = 0; (o[n] = smalloc(&s, s.objsize_max)); n++);
		served += n;
		fprintf(stderr, "%d of %d\n", n, fit);
		small_alloc_destroy(&s);
		slab_cache_destroy(&cache);
		slab_arena_destroy(&arena);
	}
	fprintf(stderr, "served %d\n", served);
	MUST(served >= 3360);
	return 0;
}'''),
dict(id="C20-empty-view-skipped", prop="C20",
 edits=[(M,"""	if (v->prev_view)
		v->prev_view->next_view = v;""","""	if (v->prev_view && v->prev_view->block_count)
		v->prev_view->next_view = v;""")],
 needs="a view of the empty array, a later view, and the first one destroyed before it",
 breaks="the later view leaves the chain: the data it shows is changed in place",
 demo=MATRAS + r'''
int main(void)
{
	matras_id_t id; struct matras_view v0, v1; up(16);
	matras_create_read_view(&m, &v0);
	char *p = matras_alloc(&m, &id); memset(p, 1, 16);
	matras_create_read_view(&m, &v1);
	matras_destroy_read_view(&m, &v0);
	p = matras_touch(&m, 0); memset(p, 2, 16);
	MUST(*(char *)matras_view_get(&m, &v1, 0) == 1);
	return 0;
}'''),
]
OB="small/obuf_asan.c"; RG="small/region_asan.c"; LS="small/lsregion_asan.c"; U="small/util.c"; SM="small/small_asan.c"
BUGS += [
dict(id="C24-rollback-not-fenced", prop="C24", asan=True,
 edits=[(OB,"""	buf->reserved = false;
	if (buf->iov[buf->pos].iov_base != NULL) {""","""	buf->reserved = false;
	if (buf->pos < SMALL_OBUF_IOV_CHECKED_MAX &&
	    buf->iov[buf->pos].iov_base != NULL) {""")],
 needs="a rollback inside one of the growing vectors, after the vectors of their own are used up",
 breaks="the bytes that were rolled back stay accessible",
 demo=SETUP + r'''
#include "obuf.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 4096);
	struct obuf_svp svp; char *p;
	for (int i = 0; i < 120; i++) MUST(obuf_alloc(&b, 10));
	svp = obuf_create_svp(&b);
	p = obuf_alloc(&b, 20);
	obuf_rollback_to_svp(&b, &svp);
	MUST(__asan_address_is_poisoned(p + 8));
	return 0;
}'''),
dict(id="C24-join-from-front", prop="C24", asan=True,
 edits=[(RG,"		       alloc->used - copy_size, copy_size);","		       (offset < size ? 0 : alloc->used - copy_size), copy_size);")],
 needs="a join which takes only the end of an older allocation",
 breaks="the joined data starts with the wrong bytes",
 demo=SETUP + r'''
#include "region.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct region r; region_create(&r, &cache);
	memcpy(region_alloc(&r, 10), "0123456789", 10);
	memcpy(region_alloc(&r, 4), "abcd", 4);
	MUST(memcmp(region_join(&r, 6), "89abcd", 6) == 0);
	return 0;
}'''),
dict(id="C24-export-reservation", prop="C24", asan=True,
 edits=[(LS,"		iov->iov_len = alloc->used;","		iov->iov_len = alloc->size;")],
 needs="an allocation smaller than its reservation, exported",
 breaks="bytes nobody allocated are exported",
 demo=SETUP + r'''
#include <sys/uio.h>
#include "lsregion.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct lsregion l; lsregion_create(&l, &arena);
	struct lsregion_svp svp; lsregion_svp_create(&svp);
	MUST(lsregion_reserve(&l, 100));
	MUST(lsregion_alloc(&l, 10, 1));
	struct iovec v[4]; int n = 4;
	MUST(lsregion_to_iovec(&l, v, &n, &svp) == 1);
	MUST(n == 1 && v[0].iov_len == 10);
	return 0;
}'''),
dict(id="C24-lease-rounded-up", prop="C24", asan=True,
 edits=[(SM,"	if (quota_lease(alloc->quota, size) < 0)\n","	if (quota_lease(alloc->quota,\n			small_align(size, SMALL_ASAN_ALIGNMENT)) < 0)\n")],
 needs="many objects of sizes not divisible by four, allocated and freed",
 breaks="freeing an object returns less than it took from the quota, allocations are refused at last",
 demo=SETUP + r'''
#include "small.h"
int main(void)
{
	up(2 << 20, 0, 1 << 20);
	struct small_alloc s; float f;
	small_alloc_create(&s, &cache, 8, 8, 1.3, &f);
	for (int i = 0; i < 1000000; i++) {
		void *p = smalloc(&s, 101);
		MUST(p);
		smfree(&s, p, 101);
	}
	return 0;
}'''),
dict(id="C24-large-alignment-doubled", prop="C24", asan=True,
 edits=[(U,"""	if (((uintptr_t)payload % (2 * alignment)) == 0)
		payload -= alignment;""","""	/* Nobody relies on more than half a page. */
	if (alignment < 2048 && ((uintptr_t)payload % (2 * alignment)) == 0)
		payload -= alignment;""")],
 needs="an object of a pool whose natural alignment is 2048 or more",
 breaks="memory is aligned better than asked for, misaligned use of it is not seen",
 demo=SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	for (int al = 64; al <= 4096; al *= 2) for (int i = 1; i < 100; i++) {
		struct mempool p; mempool_create(&p, &cache, al * (2 * i - 1));
		char *o = mempool_alloc(&p);
		MUST((uintptr_t)o % al == 0 && (uintptr_t)o % (2 * al) != 0);
	}
	return 0;
}'''),
]
BUGS += [
dict(id="C17-last-vector-unused", prop="C17",
 edits=[("small/obuf.c","""		assert(capacity == iov->iov_len);
		if (buf->pos + 1 >= SMALL_OBUF_IOV_MAX)""","""		assert(capacity == iov->iov_len);
		/* The slot after the last buffer ends the array. */
		if (buf->pos + 2 >= SMALL_OBUF_IOV_MAX)""")],
 needs="an append which needs the last of the 32 vectors",
 breaks="it is refused although a vector is free and memory is plentiful",
 demo=SETUP + r'''
#include "obuf.h"
int main(void)
{
	up((size_t)1 << 40, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 1);
	while (obuf_iovcnt(&b) < SMALL_OBUF_IOV_MAX - 1) {
		/* fill what is left without touching it, then one more byte */
		size_t left = b.capacity[b.pos] - b.iov[b.pos].iov_len;
		if (left) MUST(obuf_alloc(&b, left));
		MUST(obuf_alloc(&b, 1));
	}
	size_t left = b.capacity[b.pos] - b.iov[b.pos].iov_len;
	if (left) MUST(obuf_alloc(&b, left));
	MUST(obuf_dup(&b, "x", 1) == 1);
	return 0;
}'''),
]
