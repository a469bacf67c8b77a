from bugs1 import SETUP, HOOK, WRAP
from bugs3 import MATRAS
BUGS = [
dict(id="C28-page-left-on-refusal", prop="C28",
 edits=[("small/small_features.c", """	if (madvise(ptr, size, MADV_DONTDUMP) == 0)
		ret = true;

	if (munmap(ptr, size)) {
""", """	if (madvise(ptr, size, MADV_DONTDUMP) != 0)
		goto out;
	ret = true;

	if (munmap(ptr, size)) {
""")],
 needs="madvise() refuses the advice (old kernel, sandbox, or low on memory)",
 breaks="every probe on such a system leaves a page mapped",
 flags=WRAP + " -Wl,--wrap=madvise", files=["wrapmem.h"], demo='#include "wrapmem.h"\n' + r'''
#include "small_features.h"
int __wrap_madvise(void *p, size_t n, int a) { (void)p; (void)n; (void)a; errno = EINVAL; return -1; }
int main(void)
{
	for (int i = 0; i < 10; i++) MUST(!small_test_feature(SMALL_FEATURE_DONTDUMP));
	MUST(mapped == 0);
	return 0;
}'''),
dict(id="C28-answer-remembered", prop="C28",
 edits=[("small/small_features.c", """	return rt_helpers[feature] ? rt_helpers[feature]() : true;
""", """	/* The system doesn't change while we run: ask it once. */
	static uint64_t tested_mask, available_mask;
	if (!(tested_mask & mask)) {
		if (!rt_helpers[feature] || rt_helpers[feature]())
			available_mask |= mask;
		tested_mask |= mask;
	}
	return available_mask & mask;
""")],
 needs="the first probe fails for lack of memory",
 breaks="the feature counts as missing for the rest of the process",
 flags=WRAP, files=["wrapmem.h"], demo='#include "wrapmem.h"\n' + r'''
#include "small_features.h"
int main(void)
{
	fail_mmap = 1;
	MUST(!small_test_feature(SMALL_FEATURE_DONTDUMP));
	MUST(small_test_feature(SMALL_FEATURE_DONTDUMP));
	return 0;
}'''),
dict(id="C02-pop-gives-up", prop="C02",
 edits=[("include/small/lf_lifo.h", """	do {
		void *tail = head->next;
		struct lf_lifo *elem = lf_lifo(tail);
		if (elem == NULL)
			return NULL;
""", """	/* Don't fight for an element for too long. */
	for (int attempt = 0; attempt < 16; attempt++) {
		void *tail = head->next;
		struct lf_lifo *elem = lf_lifo(tail);
		if (elem == NULL)
			return NULL;
"""), ("include/small/lf_lifo.h", """				 aba_value(tail));
		if (pm_atomic_compare_exchange_weak(&head->next, &tail, newhead))
			return elem;
	} while (true);
""", """				 aba_value(tail));
		if (pm_atomic_compare_exchange_weak(&head->next, &tail, newhead))
			return elem;
	}
	return NULL;
""")],
 needs="sixteen other operations one after the other each complete between the read of the head and the compare-and-swap of one pop",
 breaks="a pop reports an empty list which never was empty",
 files=HOOK, nolib=True, demo=r'''
#include "lf_lifo.h"
#include "hook.h"
#include <sys/mman.h>
static struct lf_lifo l; static char *m; static int rounds;
static void other(void)
{
	rounds++;
	lf_lifo_push(&l, m + 65536 * (1 + rounds));
	if (rounds < 18) { demo_skip = 0; demo_hook = other; }
}
int main(void)
{
	m = mmap(NULL, 65536 * 24, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	m = (char *)(((uintptr_t)m + 65535) & ~65535UL);
	lf_lifo_init(&l);
	lf_lifo_push(&l, m);
	demo_skip = 0; demo_hook = other;
	MUST(lf_lifo_pop(&l) != NULL);
	return 0;
}'''),
dict(id="C04-late-slab-keeps-charge", prop="C04",
 edits=[("small/slab_arena.c", """	if (!ptr) {
		__sync_sub_and_fetch(&arena->used, arena->slab_size);
		quota_release(arena->quota, arena->slab_size);
	}
""", """	if (!ptr) {
		/* Maybe a slab was returned in the meantime. */
		ptr = lf_lifo_pop(&arena->cache);
		if (ptr)
			return ptr;
		__sync_sub_and_fetch(&arena->used, arena->slab_size);
		quota_release(arena->quota, arena->slab_size);
	}
""")],
 needs="mmap() is refused, and another thread returned a slab after this one found the list empty",
 breaks="the used counter and the quota keep the charge of a slab which does not exist",
 flags=WRAP, files=["wrapmem.h"], demo=r'''
#define __wrap_mmap demo_mmap
#include "wrapmem.h"
#undef __wrap_mmap
''' + SETUP + r'''
static void *other;
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, long o)
{
	if (other) { void *s = other; other = NULL; slab_unmap(&arena, s); errno = ENOMEM; return MAP_FAILED; }
	return demo_mmap(a, n, p, f, fd, o);
}
int main(void)
{
	up(64 << 20, 0, 65536);
	void *a = slab_map(&arena); MUST(a);
	other = a;
	void *b = slab_map(&arena);
	MUST(quota_used(&quota) == 65536);
	MUST(arena.used == 65536);
	(void)b;
	return 0;
}'''),
dict(id="C08-put-into-full-order", prop="C08",
 edits=[("small/slab_cache.c", """		assert(slab->size == cache->arena->slab_size);
		slab_list_del(&cache->allocated, slab, next_in_cache);
		cache->orders[slab->order].stats.total -= slab->size;
		slab_unmap(cache->arena, slab);
	} else {
""", """		assert(slab->size == cache->arena->slab_size);
		/* Keep the one which was used last: it is warm. */
		struct slab *cold = rlist_first_entry(&cache->orders[slab->order].slabs,
						      struct slab, next_in_list);
		slab_list_del(&cache->allocated, slab, next_in_cache);
		cache->orders[slab->order].stats.total -= slab->size;
		rlist_add_entry(&cache->orders[slab->order].slabs, slab, next_in_list);
		rlist_del_entry(cold, next_in_list);
		slab_unmap(cache->arena, cold);
	} else {
""")],
 needs="two whole slabs of one cache are free, and the cache is destroyed or used on afterwards",
 breaks="the slab given back to the arena stays on the list of the cache and is given back again",
 demo=SETUP + r'''
int main(void)
{
	up(64 << 20, 0, 65536);
	struct slab *a = slab_get(&cache, 65536 - 64), *b = slab_get(&cache, 65536 - 64);
	slab_put(&cache, a); slab_put(&cache, b);
	slab_cache_destroy(&cache);
	void *p = slab_map(&arena), *q = slab_map(&arena);
	MUST(p && q && p != q);
	return 0;
}'''),
dict(id="C06-lease-rounded-quota-not", prop="C06",
 edits=[("include/small/quota_lessor.h", """	for (;;) {
		ssize_t used = quota_use(lessor->source, use);
		if (used >= 0) {
			lessor->used += used;
""", """	for (;;) {
		if (quota_use(lessor->source, use) >= 0) {
			lessor->used += use;
""")],
 needs="a lease above 1 MB which is not a multiple of a quota unit",
 breaks="the remainder of the unit is charged but never given back",
 demo=r'''
#include "quota.h"
#include "quota_lessor.h"
int main(void)
{
	struct quota q; quota_init(&q, 64 << 20);
	struct quota_lessor l; quota_lessor_create(&l, &q);
	MUST(quota_lease(&l, (2 << 20) + 100) > 0);
	MUST(quota_used(&q) == l.used);
	quota_end_lease(&l, (2 << 20) + 100);
	quota_lessor_destroy(&l);
	MUST(quota_used(&q) == 0);
	return 0;
}'''),
dict(id="C20-view-of-shorter-past", prop="C20",
 edits=[("small/matras.c", """	if (v->root == next_view->root && next_view->block_count)
		return;
""", """	if (v->root == next_view->root)
		return;
""")],
 needs="all blocks are deallocated after a read view was created, and the view is destroyed",
 breaks="memory of a view whose successor is empty",
 demo=MATRAS + r'''
int main(void)
{
	up(8);
	matras_id_t id;
	for (int i = 0; i < 30; i++) MUST(matras_alloc(&m, &id));
	struct matras_view v; matras_create_read_view(&m, &v);
	for (int i = 0; i < 30; i++) matras_dealloc(&m);
	matras_destroy_read_view(&m, &v);
	matras_destroy(&m);
	MUST(held == 0);
	return 0;
}'''),
dict(id="C16-truncate-before-move", prop="C16",
 edits=[("small/ibuf.c", """	if (size + used <= capacity) {
		ibuf_unpoison_consumed(ibuf);
		ibuf_unpoison_unallocated(ibuf);
		memmove(ibuf->buf, ibuf->rpos, used);
""", """	if (size + used <= capacity) {
		ibuf_unpoison_consumed(ibuf);
		ibuf_unpoison_unallocated(ibuf);
		/* Most of the time the consumed part is the larger one. */
		if (ibuf_pos(ibuf) * 2 >= capacity)
			memcpy(ibuf->buf, ibuf->rpos, used & ~(size_t)7);
		memmove(ibuf->buf, ibuf->rpos, used);
""")],
 needs="more than half consumed, and the rest overlaps",
 breaks="nothing visible: the bytes are copied twice",
 demo=r'''int main(void) { return 1; }'''),
]
BUGS.pop()
