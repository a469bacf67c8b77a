from bugs1 import SETUP, HOOK, WRAP
from bugs3 import MATRAS
import sys
A="small/slab_arena.c"; Q="include/small/quota.h"; L="include/small/quota_lessor.h"; SC="small/slab_cache.c"
BUGS = [
dict(id="C03-cursor-given-back", prop="C03",
 edits=[(A,"""	if (quota_use(arena->quota, arena->slab_size) < 0)
		return NULL;

	/** Need to allocate a new slab. */
	size_t used = pm_atomic_fetch_add(&arena->used, arena->slab_size);
	used += arena->slab_size;
""","""	/** Need to allocate a new slab. */
	size_t used = pm_atomic_fetch_add(&arena->used, arena->slab_size);
	used += arena->slab_size;
	if (quota_use(arena->quota, arena->slab_size) < 0) {
		__sync_sub_and_fetch(&arena->used, arena->slab_size);
		return NULL;
	}
""")],
 needs="a slab is handed out between the step of the preallocation cursor and the refusal by the quota in another thread",
 breaks="the same preallocated slab is handed out twice",
 files=HOOK, demo=SETUP + r'''
#include "hook.h"
static struct slab_arena ar; static void *b;
static void other(void) { b = slab_map(&ar); }
static void check(int skip)
{
	quota_init(&quota, 2 << 16);
	MUST(slab_arena_create(&ar, &quota, 4 << 16, 1 << 16, MAP_PRIVATE) == 0);
	MUST(quota_use(&quota, 1 << 16) >= 0);
	b = NULL;
	demo_skip = skip; demo_hook = other;
	void *a = slab_map(&ar);
	demo_hook = NULL;
	quota_set(&quota, 8 << 16);
	void *c = slab_map(&ar), *d = slab_map(&ar);
	MUST(c && d && c != d);
	MUST(a == NULL || (a != b && a != c && a != d));
	MUST(b == NULL || (b != c && b != d));
}
int main(void)
{
	for (int skip = 0; skip < 6; skip++) check(skip);
	return 0;
}'''),
dict(id="C05-mapping-serialised", prop="C05",
 edits=[(A,"""	ptr = mmap_checked(arena->slab_size, arena->slab_size,
			   arena->flags);
	if (!ptr) {""","""	static volatile int mapping;
	while (__sync_lock_test_and_set(&mapping, 1))
		;
	ptr = mmap_checked(arena->slab_size, arena->slab_size,
			   arena->flags);
	__sync_lock_release(&mapping);
	if (!ptr) {""")],
 needs="a thread is stalled inside the system call that maps a slab",
 breaks="every other thread that needs a new slab waits for it",
 flags=WRAP, demo=SETUP + r'''
#include <unistd.h>
static struct slab_arena ar[2]; static int nest;
void *__real_mmap(void *, size_t, int, int, int, long); int __real_munmap(void *, size_t); void *__real_malloc(size_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, long o)
{
	/* while this call is stuck, another user of an arena gets a slab */
	if (nest == 1) { nest = 2; MUST(slab_map(&ar[1]) != NULL); }
	return __real_mmap(a, n, p, f, fd, o);
}
int __wrap_munmap(void *a, size_t n) { return __real_munmap(a, n); }
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
int main(void)
{
	quota_init(&quota, 64 << 20);
	for (int i = 0; i < 2; i++) MUST(slab_arena_create(&ar[i], &quota, 0, 1 << 20, MAP_PRIVATE) == 0);
	alarm(10);
	nest = 1;
	MUST(slab_map(&ar[0]) != NULL);
	MUST(nest == 2);
	return 0;
}'''),
dict(id="C06-destroy-with-leases", prop="C06",
 edits=[(L,"""	quota_release(lessor->source, lessor->used);
	lessor->used = 0;
""","""	size_t available = quota_available(lessor);
	if (available > 0)
		quota_release(lessor->source, available);
	lessor->used = 0;
""")],
 needs="a lessor is destroyed with leases outstanding",
 breaks="what was leased stays charged for ever",
 nolib=True, demo=r'''
#include <stddef.h>
#include <sys/types.h>
#include "quota.h"
#include "quota_lessor.h"
int main(void)
{
	struct quota q; struct quota_lessor l;
	quota_init(&q, 64 << 20);
	for (int i = 0; i < 4; i++) {
		quota_lessor_create(&l, &q);
		for (int k = 0; k < i; k++) MUST(quota_lease(&l, 700 << 10) > 0);
		quota_lessor_destroy(&l);
		MUST(quota_used(&q) == 0);
	}
	return 0;
}'''),
dict(id="C06-missing-amount-32bit", prop="C06",
 edits=[(L,"	size_t required = size + lessor->leased - lessor->used;","	uint32_t required = size + lessor->leased - lessor->used;")],
 needs="a lease of more than 4 GB at once",
 breaks="the lease is granted without being covered by the shared quota",
 nolib=True, demo=r'''
#include <stddef.h>
#include <sys/types.h>
#include "quota.h"
#include "quota_lessor.h"
int main(void)
{
	struct quota q; struct quota_lessor l;
	quota_init(&q, 64UL << 30);
	quota_lessor_create(&l, &q);
	ssize_t n = (5L << 30) + 12345;
	MUST(quota_lease(&l, n) == n);
	MUST(quota_leased(&l) == (size_t)n);
	MUST(quota_used(&q) >= (size_t)n);
	return 0;
}'''),
dict(id="C23-quota-back-before-heap", prop="C23",
 edits=[(SC,"""	free(slab);
	quota_release(cache->arena->quota, slab_size);
	return;""","""	quota_release(cache->arena->quota, slab_size);
	free(slab);
	return;""")],
 needs="another thread takes the released quota before the large slab is freed",
 breaks="more memory is in use than the quota allows",
 flags="-O1 -g -Wl,--wrap=free", demo=SETUP + r'''
static void *large;
void __real_free(void *);
void __wrap_free(void *p)
{
	/* the block is still there, so it must still be charged */
	if (p && p == large) MUST(quota_used(&quota) >= (3 << 20));
	__real_free(p);
}
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	large = slab_get(&cache, 3 << 20);
	MUST(large != NULL);
	MUST(quota_used(&quota) >= (3 << 20));
	slab_put(&cache, large);
	large = NULL;
	MUST(quota_used(&quota) == 0);
	return 0;
}'''),
dict(id="C08-used-while-splitting", prop="C08",
 edits=[(SC,"""	slab = rlist_shift_entry(&list->slabs, struct slab, next_in_list);
	if (slab->order != order) {
""","""	slab = rlist_shift_entry(&list->slabs, struct slab, next_in_list);
	/* Taken, until it is known what is left of it. */
	cache->allocated.stats.used += slab->size;
	if (slab->order != order) {
"""),(SC,"""		cache->orders[slab->order].stats.total += slab->size;
	}
	slab_set_used(cache, slab);
""","""		cache->orders[slab->order].stats.total += slab->size;
	}
	cache->allocated.stats.used -= slab_order_size(cache, list - cache->orders);
	slab_set_used(cache, slab);
""")],
 needs="another thread reads slab_cache_used() while a slab is being split",
 breaks="the reading is a value that was never the used size",
 files=["step.h"], demo=SETUP + r'''
#include "step.h"
static size_t lo, hi; static struct slab *s; static int order; static volatile int bad;
static void get(void) { s = slab_get_with_order(&cache, order); }
static void put(void) { slab_put_with_order(&cache, s); }
static void look(void) { size_t u = slab_cache_used(&cache); if (u != lo && u != hi) bad = 1; }
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	for (order = 0; order <= 6; order++) {
		lo = slab_cache_used(&cache);
		hi = lo + ((size_t)cache.order0_size << order);
		demo_step(-1, get, look);
		MUST(steps > 20);
		MUST(s && slab_cache_used(&cache) == hi);
		demo_step(-1, put, look);
		MUST(!bad);
	}
	return 0;
}'''),
dict(id="C08-merge-gives-up", prop="C08",
 edits=[(SC,"""		do {
			slab = slab_merge(cache, slab, buddy);
			buddy = slab_buddy(cache, slab);
		} while (buddy && buddy->order == slab->order &&
			 slab_is_free(buddy));""","""		int merges = 0;
		do {
			slab = slab_merge(cache, slab, buddy);
			buddy = slab_buddy(cache, slab);
		} while (++merges < 6 && buddy && buddy->order == slab->order &&
			 slab_is_free(buddy));""")],
 needs="the last live slab is more than six orders below the maximum and all of its neighbours are free",
 breaks="the free halves never merge again: a maximum-size request is refused although nothing is live",
 demo=SETUP + r'''
int main(void)
{
	up(4 << 20, 0, 4 << 20);
	for (int order = 0; order <= cache.order_max; order++) {
		struct slab *s = slab_get_with_order(&cache, order);
		MUST(s != NULL);
		slab_put_with_order(&cache, s);
		s = slab_get_with_order(&cache, cache.order_max);
		MUST(s != NULL);
		slab_put_with_order(&cache, s);
	}
	return 0;
}'''),
dict(id="C21-reserve-looks-at-end", prop="C21",
 edits=[("small/matras.c","""	return matras_allocator_reserve(m->allocator, max_extents_required);""","""	/* The array has grown since: there is nothing of the view at its end. */
	if (count == 1 && !matras_needs_touch(m, m->head.block_count - 1))
		return 0;
	return matras_allocator_reserve(m->allocator, max_extents_required);""")],
 needs="blocks are added in a new extent after the view was made, then a reservation for one block and a touch of an older block when memory has run out",
 breaks="a touch covered by a reservation fails",
 demo=MATRAS + r'''
int main(void)
{
	up(16);
	matras_id_t id;
	for (int i = 0; i < 64; i++) MUST(matras_alloc(&m, &id));
	struct matras_view v;
	matras_create_read_view(&m, &v);
	MUST(matras_alloc(&m, &id));
	MUST(matras_touch_reserve(&m, 1) == 0);
	budget = 0;
	MUST(matras_touch(&m, 0));
	return 0;
}'''),
dict(id="C15-vector-capped", prop="C15",
 edits=[("small/lsregion.c","""		iov->iov_len = lslab->slab_used - lslab_sizeof();
""","""		iov->iov_len = lslab->slab_used - lslab_sizeof();
		/* Some kernels do not like larger vectors. */
		if (iov->iov_len > 0x7ffff000)
			iov->iov_len = 0x7ffff000;
""")],
 needs="a slab of the region holds more than 2 GB",
 breaks="the tail of it is missing from the exported vectors",
 demo=SETUP + r'''
#include "lsregion.h"
#include <sys/uio.h>
int main(void)
{
	quota_init(&quota, 16UL << 30);
	MUST(slab_arena_create(&arena, &quota, 0, 1 << 20, MAP_PRIVATE) == 0);
	struct lsregion l;
	lsregion_create(&l, &arena);
	size_t n = 3UL << 30;
	MUST(lsregion_alloc(&l, n, 1));
	struct iovec iov[4]; int cnt = 4;
	struct lsregion_svp svp, end;
	lsregion_svp_create(&svp);
	lsregion_to_iovec(&l, iov, &cnt, &svp);
	size_t sum = 0;
	for (int i = 0; i < cnt; i++) sum += iov[i].iov_len;
	MUST(sum == n);
	lsregion_destroy(&l);
	return 0;
}'''),
dict(id="C23-join-shares-state", prop="C23",
 edits=[("small/region.c","""	struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
					       struct rslab,
					       slab.next_in_list);

	if (slab->used >= size) {""","""	static struct rslab *slab;
	slab = rlist_first_entry(&region->slabs.slabs, struct rslab,
				 slab.next_in_list);

	if (slab->used >= size) {""")],
 needs="two threads join data of their own regions at the same time",
 breaks="one of them gets the other's bytes",
 files=["step.h"], demo=SETUP + r'''
#include "region.h"
#include "step.h"
static struct slab_cache c[2]; static struct region r[2]; static char *p[2]; enum { N = 15000 };
static void join(int i) { p[i] = region_join(&r[i], N); }
static void a(void) { join(0); }
static void b(void) { join(1); }
static int once(long k)
{
	quota_init(&quota, 64 << 20);
	MUST(slab_arena_create(&arena, &quota, 4 << 20, 1 << 16, MAP_PRIVATE) == 0);
	for (int i = 0; i < 2; i++) {
		slab_cache_create(&c[i], &arena);
		region_create(&r[i], &c[i]);
		region_set_callbacks(&r[i], NULL, NULL, NULL);
		region_reserve(&r[i], 2000);
		for (int n = 0; n < N; n += 1000) { char *x = region_alloc(&r[i], 1000); MUST(x); memset(x, 'a' + i, 1000); }
		/* the next slab is there already */
		struct slab *s = slab_get(&c[i], N + 200); MUST(s); slab_put(&c[i], s);
	}
	demo_step(k, a, b);
	if (!p[1]) return 0; /* the call was over before */
	for (int i = 0; i < 2; i++) for (int n = 0; n < N; n++) MUST(p[i][n] == 'a' + i);
	return 1;
}
int main(void)
{
	for (long k = 0; k < 3000; k++) {
		pid_t pid = fork();
		if (pid == 0) _exit(once(k) ? 0 : 77);
		int st; waitpid(pid, &st, 0);
		MUST(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77));
		if (WEXITSTATUS(st) == 77) { MUST(k > 50); break; }
	}
	return 0;
}'''),
dict(id="C04-surplus-unmapped", prop="C04",
 edits=[(A,"""	if (ptr == NULL)
		return;

	lf_lifo_push""","""	if (ptr == NULL)
		return;
	/* Do not keep much more than what was asked for at the start. */
	if (arena->used > 64 * (size_t)arena->slab_size &&
	    arena->used > 2 * arena->prealloc &&
	    (ptr < arena->arena || ptr >= arena->arena + arena->prealloc)) {
		__sync_sub_and_fetch(&arena->used, arena->slab_size);
		quota_release(arena->quota, arena->slab_size);
		munmap_checked(ptr, arena->slab_size);
		return;
	}

	lf_lifo_push""")],
 needs="more than 64 slabs of an arena in use at once, and a slab given back while another thread reads it as the head of the list of free slabs",
 breaks="the arena gives slabs back to the system while another thread may still be reading them, and the charge is not what was handed out",
 files=["step.h"], demo=SETUP + r'''
#include "step.h"
enum { S = 1 << 16, N = 100 };
static void *p[N]; static void *got, *other;
static void map(void) { got = slab_map(&arena); }
static void steal(void)
{
	/* another thread takes the free slab, and gives it back while many are in use */
	void *x = slab_map(&arena);
	if (!x || x == got) return;
	slab_unmap(&arena, x);
}
static void once(long k)
{
	quota_init(&quota, 64 << 20);
	MUST(slab_arena_create(&arena, &quota, 0, S, MAP_PRIVATE) == 0);
	for (int i = 0; i < 40; i++) MUST((p[i] = slab_map(&arena)));
	slab_unmap(&arena, p[7]);
	slab_unmap(&arena, p[8]);
	for (int i = 40; i < N; i++) MUST((p[i] = slab_map(&arena)));
	size_t used = quota_used(&quota);
	MUST(used == (N - 2) * (size_t)S);
	for (int i = 10; i < 30; i++) slab_unmap(&arena, p[i]);
	MUST(quota_used(&quota) == used);
	demo_step(k, map, steal);
	MUST(got != NULL);
	memset(got, 1, S);
}
int main(void)
{
	for (long k = 0; k < 60; k++) {
		pid_t pid = fork();
		if (pid == 0) { once(k); _exit(0); }
		int st; waitpid(pid, &st, 0);
		MUST(WIFEXITED(st) && WEXITSTATUS(st) == 0);
	}
	return 0;
}'''),
]
