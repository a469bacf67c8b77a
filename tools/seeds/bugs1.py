SETUP = r'''
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
static struct quota quota; static struct slab_arena arena; static struct slab_cache cache;
static void up(size_t limit, size_t prealloc, unsigned slab)
{
	quota_init(&quota, limit);
	MUST(slab_arena_create(&arena, &quota, prealloc, slab, MAP_PRIVATE) == 0);
	slab_cache_create(&cache, &arena);
}
'''
HOOK = ["pmatomic.h", "hook.h"]
WRAP = "-O1 -g -Wl,--wrap=mmap -Wl,--wrap=munmap -Wl,--wrap=malloc"
BUGS = [
dict(id="C01-release-stale-limit", prop="C01",
 edits=[("include/small/quota.h", """	assert(size_in_units);
	while (1) {
		uint64_t value = quota->value;
		uint32_t total_in_units = value >> 32;
		uint32_t used_in_units = value & UINT32_MAX;

		assert(size_in_units <= used_in_units);""", """	assert(size_in_units);
	uint32_t total_in_units = quota->value >> 32;
	while (1) {
		uint64_t value = quota->value;
		uint32_t used_in_units = value & UINT32_MAX;

		assert(size_in_units <= used_in_units);""")],
 needs="the limit is changed by another thread between the read of the limit and a retry of the compare-and-swap in quota_release()",
 breaks="a concurrent change of the limit is silently undone",
 nolib=True, files=HOOK, demo=r'''
#include "quota.h"
#include "hook.h"
static struct quota q;
static void other(void) { MUST(quota_set(&q, 50 * 1024) == 50 * 1024); }
int main(void)
{
	quota_init(&q, 100 * 1024);
	MUST(quota_use(&q, 10 * 1024) > 0);
	demo_hook = other;
	quota_release(&q, 5 * 1024);
	MUST(quota_total(&q) == 50 * 1024);
	MUST(quota_used(&q) == 5 * 1024);
	return 0;
}'''),
dict(id="C01-set-check-once", prop="C01",
 edits=[("include/small/quota.h", """	while (1) {
		uint64_t value = quota->value;
		uint32_t used_in_units = value & UINT32_MAX;
		if (new_total_in_units < used_in_units)
			return  -1;
""", """	if (new_total_in_units < (quota->value & UINT32_MAX))
		return  -1;
	while (1) {
		uint64_t value = quota->value;
		uint32_t used_in_units = value & UINT32_MAX;
""")],
 needs="usage grows above the new limit between the check and the (retried) compare-and-swap of quota_set()",
 breaks="the limit is lowered below the usage",
 nolib=True, files=HOOK, demo=r'''
#include "quota.h"
#include "hook.h"
static struct quota q;
static void other(void) { MUST(quota_use(&q, 90 * 1024) > 0); }
int main(void)
{
	quota_init(&q, 100 * 1024);
	demo_hook = other;
	quota_set(&q, 50 * 1024);
	MUST(quota_used(&q) <= quota_total(&q));
	return 0;
}'''),
dict(id="C02-pop-keeps-old-tag", prop="C02",
 edits=[("include/small/lf_lifo.h", """		void *newhead = ((char *) lf_lifo(elem->next) +
				 aba_value(tail));""", """		void *newhead = elem->next;""")],
 needs="a pop stalled between reading the head's successor and its compare-and-swap, while others pop two elements, push another one and push the first again",
 breaks="ABA: the counter of the head goes back to an old value, an element is handed out twice and another one is lost",
 nolib=True, files=HOOK, demo=r'''
#include "lf_lifo.h"
#include "hook.h"
static struct lf_lifo head; static char *A, *B, *C;
static void other(void)
{
	MUST(lf_lifo_pop(&head) == A);
	MUST(lf_lifo_pop(&head) == B);
	lf_lifo_push(&head, C);
	lf_lifo_push(&head, A);
}
int main(void)
{
	char *m = mmap(0, 5 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	A = (char *)(((uintptr_t)m + 65535) & ~65535ul); B = A + 65536; C = B + 65536;
	lf_lifo_init(&head);
	lf_lifo_push(&head, B);
	lf_lifo_push(&head, A);
	demo_hook = other;
	MUST(lf_lifo_pop(&head) == A);
	MUST(lf_lifo_pop(&head) == C);
	MUST(lf_lifo_pop(&head) == NULL);
	return 0;
}'''),
dict(id="C02-tag-narrowed", prop="C02",
 edits=[("include/small/lf_lifo.h", "	return (intptr_t) a & 0xffff;\n", "	return (intptr_t) a & 0xff;\n")],
 needs="256 pushes during one stalled pop, with the same element on top again",
 breaks="ABA protection wraps after 256 pushes instead of 65536",
 nolib=True, files=HOOK, demo=r'''
#include "lf_lifo.h"
#include "hook.h"
static struct lf_lifo head; static char *A, *B, *C;
static void other(void)
{
	MUST(lf_lifo_pop(&head) == A);
	MUST(lf_lifo_pop(&head) == B);
	for (int i = 0; i < 254; i++) { lf_lifo_push(&head, C); MUST(lf_lifo_pop(&head) == C); }
	lf_lifo_push(&head, C);
	lf_lifo_push(&head, A);
}
int main(void)
{
	char *m = mmap(0, 5 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	A = (char *)(((uintptr_t)m + 65535) & ~65535ul); B = A + 65536; C = B + 65536;
	lf_lifo_init(&head);
	lf_lifo_push(&head, B);
	lf_lifo_push(&head, A);
	demo_hook = other;
	MUST(lf_lifo_pop(&head) == A);
	MUST(lf_lifo_pop(&head) == C);
	MUST(lf_lifo_pop(&head) == NULL);
	return 0;
}'''),
dict(id="C03-prealloc-check-then-act", prop="C03",
 edits=[("small/slab_arena.c", """	size_t used = pm_atomic_fetch_add(&arena->used, arena->slab_size);
	used += arena->slab_size;
	if (used <= arena->prealloc) {
		ptr = arena->arena + used - arena->slab_size;
		VALGRIND_MAKE_MEM_UNDEFINED(ptr, arena->slab_size);
		return ptr;
	}
""", """	bool prealloc = arena->used < arena->prealloc;
	size_t used = pm_atomic_fetch_add(&arena->used, arena->slab_size);
	if (prealloc) {
		ptr = arena->arena + used;
		VALGRIND_MAKE_MEM_UNDEFINED(ptr, arena->slab_size);
		return ptr;
	}
""")],
 needs="two threads racing for the last preallocated slab",
 breaks="a slab beyond the preallocated area, not backed by memory of the arena, is handed out",
 files=HOOK + ["wrapmem.h"], flags=WRAP, demo=SETUP + r'''
#include "hook.h"
#include "wrapmem.h"
static void *other_slab;
static void other(void) { other_slab = slab_map(&arena); }
int main(void)
{
	up(64 << 20, 1 << 20, 1 << 20);
	/* the other thread comes at each atomic operation in turn */
	for (int skip = 0; skip < 3; skip++) {
		long before = mapped;
		MUST(slab_arena_create(&arena, &quota, 1 << 20, 1 << 20, MAP_PRIVATE) == 0);
		demo_hook = other; demo_skip = skip;
		char *p = slab_map(&arena); demo_hook = 0; demo_skip = 0;
		if (!other_slab) continue;
		char *o = other_slab;
		MUST(p != o);
		/* two slabs, two slabs of memory */
		MUST(mapped - before == 2 << 20);
		memset(p, 1, 1 << 20); memset(o, 2, 1 << 20);
		slab_unmap(&arena, p); slab_unmap(&arena, o);
		slab_arena_destroy(&arena); other_slab = 0;
	}
	return 0;
}'''),
dict(id="C04-failed-map-keeps-used", prop="C04",
 edits=[("small/slab_arena.c", """	if (!ptr) {
		__sync_sub_and_fetch(&arena->used, arena->slab_size);
		quota_release(arena->quota, arena->slab_size);
	}
""", """	if (!ptr)
		quota_release(arena->quota, arena->slab_size);
""")],
 needs="mmap failing while a slab is obtained",
 breaks="the arena counts a slab as used which it does not have",
 flags=WRAP, files=["wrapmem.h"], demo=SETUP + r'''
#include "wrapmem.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	size_t used = arena.used;
	fail_mmap = 1;
	MUST(slab_map(&arena) == NULL);
	MUST(arena.used == used);
	MUST(quota_used(&quota) == used);
	return 0;
}'''),
dict(id="C04-aligned-retry-leak", prop="C04",
 edits=[("small/slab_arena.c", """	} else {
		/* The address is returned aligned. */
		munmap_checked(map + size, align);
	}
	return map;""", """	}
	return map;""")],
 needs="the first mapping is misaligned and the second, larger one happens to be aligned",
 breaks="address space of one slab is leaked",
 flags=WRAP, files=[], demo=SETUP + r'''
/* a stand-in for mmap: the first mapping is misaligned, the next one aligned */
static int n; static long mapped; static char *base;
void *__real_mmap(void *, size_t, int, int, int, long); int __real_munmap(void *, size_t); void *__real_malloc(size_t);
void *__wrap_malloc(size_t k) { return __real_malloc(k); }
void *__wrap_mmap(void *a, size_t k, int p, int f, int fd, long o)
{
	char *want = n++ == 0 ? base + 4096 : base;
	void *r = __real_mmap(want, k, p, f | MAP_FIXED, fd, o);
	if (r != MAP_FAILED) mapped += k;
	return r;
}
int __wrap_munmap(void *a, size_t k) { mapped -= k; return __real_munmap(a, k); }
int main(void)
{
	size_t S = 1 << 20;
	char *r = __real_mmap(0, 8 * S, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	base = (char *)(((uintptr_t)r + S - 1) & ~(S - 1));
	up(64 << 20, 0, S);
	char *p = slab_map(&arena);
	MUST(p && ((uintptr_t)p & (S - 1)) == 0);
	MUST(mapped == (long)S);
	slab_unmap(&arena, p);
	slab_arena_destroy(&arena);
	MUST(mapped == 0);
	return 0;
}'''),
dict(id="C05-pop-takes-lock", prop="C05",
 edits=[("include/small/lf_lifo.h", """		void *tail = head->next;
		lf_lifo(elem)->next = tail;
""", """		void *tail = pm_atomic_load(&head->next);
		/* A pop is in progress. */
		if (lf_lifo(tail) == lf_lifo((void *) 0x10000))
			continue;
		lf_lifo(elem)->next = tail;
"""), ("include/small/lf_lifo.h", """		void *tail = head->next;
		struct lf_lifo *elem = lf_lifo(tail);
		if (elem == NULL)
			return NULL;
""", """		void *tail = pm_atomic_load(&head->next);
		struct lf_lifo *elem = lf_lifo(tail);
		if (elem == NULL)
			return NULL;
		if (elem == lf_lifo((void *) 0x10000))
			continue;
		/* Nobody may reuse the element while its link is read. */
		if (!pm_atomic_compare_exchange_weak(&head->next, &tail,
						     (char *) 0x10000 + aba_value(tail)))
			continue;
"""), ("include/small/lf_lifo.h", """				 aba_value(tail));
		if (pm_atomic_compare_exchange_weak(&head->next, &tail, newhead))
			return elem;""", """				 aba_value(tail));
		pm_atomic_exchange(&head->next, newhead);
		return elem;""")],
 needs="a thread suspended in the middle of a pop",
 breaks="lock freedom: all other threads spin until the suspended one goes on",
 nolib=True, files=["pmatomic.h"], flags="-O1 -g", demo=r'''
#include <pthread.h>
#include <unistd.h>
#include "lf_lifo.h"
static struct lf_lifo head; static char *A, *B;
static __thread int main_thread; static volatile int done, left;
static void *other(void *x)
{
	void *p = lf_lifo_pop(&head);
	if (p) lf_lifo_push(&head, p);
	done = 1;
	return x;
}
/* while this thread is stopped anywhere in its operation another one must make progress */
static void stop(void)
{
	if (!main_thread || left-- != 0) return;
	pthread_t t; done = 0;
	MUST(pthread_create(&t, 0, other, 0) == 0);
	for (int i = 0; i < 3000 && !done; i++) usleep(1000);
	if (!done) { fprintf(stderr, "a stopped thread blocks the others\n"); _exit(1); }
	pthread_join(t, 0);
}
void demo_before(void *o) { stop(); }
void demo_after(void *o) { stop(); }
int main(void)
{
	char *m = mmap(0, 5 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	A = (char *)(((uintptr_t)m + 65535) & ~65535ul); B = A + 65536;
	/* stop at each point in turn */
	for (int i = 0; i < 12; i++) {
		main_thread = 0;
		lf_lifo_init(&head);
		lf_lifo_push(&head, B);
		lf_lifo_push(&head, A);
		main_thread = 1; left = i;
		MUST(lf_lifo_pop(&head) != NULL);
	}
	return 0;
}'''),
dict(id="C07-order-of-32bit-size", prop="C07",
 edits=[("include/small/slab_cache.h", "slab_order(struct slab_cache *cache, size_t size)\n", "slab_order(struct slab_cache *cache, unsigned size)\n")],
 needs="a request a little larger than 4 GB",
 breaks="a slab of the smallest order is returned for a request of more than 4 GB",
 demo=SETUP + r'''
int main(void)
{
	up(64ull << 30, 0, 4 << 20);
	size_t n = (4ull << 30) + 1000;
	struct slab *s = slab_get(&cache, n);
	MUST(s == NULL || slab_capacity(s) >= n);
	if (s) slab_put(&cache, s);
	return 0;
}''', flags="-O1 -g -DNDEBUG"),
dict(id="C08-failed-large-keeps-quota", prop="C08",
 edits=[("small/slab_cache.c", """	if (slab == NULL) {
		quota_release(cache->arena->quota, size);
		return NULL;
	}
""", """	if (slab == NULL)
		return NULL;
""")],
 needs="malloc failing for a large slab",
 breaks="quota stays charged for memory which was never obtained",
 flags=WRAP, files=["wrapmem.h"], demo=SETUP + r'''
#include "wrapmem.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	size_t used = quota_used(&quota);
	fail_malloc = 1;
	MUST(slab_get(&cache, 8 << 20) == NULL);
	MUST(quota_used(&quota) == used);
	return 0;
}'''),
dict(id="C09-cold-slab-not-unlinked", prop="C09",
 edits=[("small/mempool.c", """			slab = rlist_shift_entry(&pool->cold_slabs, struct mslab,
						 next_in_cold);""", """			slab = rlist_first_entry(&pool->cold_slabs, struct mslab,
						 next_in_cold);""")],
 needs="no memory for a new slab while a full slab has a few free objects, then that slab is drained and used again",
 breaks="a slab is in the list of cold slabs twice or after it was freed: objects of other slabs or freed memory are handed out",
 flags="-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all", demo=SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(2 << 20, 0, 1 << 20);
	struct mempool p; mempool_create(&p, &cache, 1000);
	static char *o[10000]; int n = 0;
	while ((o[n] = mempool_alloc(&p))) { memset(o[n], n, 1000); n++; }
	/* one free object per slab: all slabs are cold */
	for (int round = 0; round < 20; round++) {
		int k = 0; char *last = 0;
		static int freed[10000];
		for (int i = 0; i < n; i++) {
			char *s = (char *)((uintptr_t)o[i] & p.slab_ptr_mask);
			if (s != last) { freed[k++] = i; last = s; mempool_free(&p, o[i]); o[i] = 0; }
		}
		for (int i = 0; i < k; i++) {
			char *q = mempool_alloc(&p);
			MUST(q != NULL);
			for (int j = 0; j < n; j++) MUST(!o[j] || q + 1000 <= o[j] || o[j] + 1000 <= q);
			o[freed[i]] = q; memset(q, 1, 1000);
		}
		MUST(mempool_alloc(&p) == NULL);
	}
	for (int i = 0; i < n; i++) mempool_free(&p, o[i]);
	mempool_destroy(&p);
	return 0;
}'''),
dict(id="C10-single-slot-refused", prop="C10",
 edits=[("small/mempool.c", """	struct mslab *slab = pool->first_hot_slab;
	if (slab == NULL) {
		if (pool->spare) {""", """	struct mslab *slab = pool->first_hot_slab;
	/* A cold slab is only good for one object: prefer a new one. */
	if (slab == NULL && rlist_empty(&pool->cold_slabs) == false &&
	    pool->spare == NULL && pool->slabs.stats.total <
	    slab_order_size(pool->cache, pool->slab_order))
		return NULL;
	if (slab == NULL) {
		if (pool->spare) {"""),
  ("small/mempool.c", """		} else if (! rlist_empty(&pool->cold_slabs)) {
			slab = rlist_shift_entry(&pool->cold_slabs, struct mslab,
						 next_in_cold);
		} else {""", """		} else if (! rlist_empty(&pool->cold_slabs) &&
			   rlist_first_entry(&pool->cold_slabs, struct mslab,
					     next_in_cold)->nfree > 1) {
			slab = rlist_shift_entry(&pool->cold_slabs, struct mslab,
						 next_in_cold);
		} else {""")],
 needs="no memory for a new slab while the only free slots are single ones in otherwise full slabs",
 breaks="an object is refused although the pool owns a free slot",
 demo=SETUP + r'''
#include "mempool.h"
int main(void)
{
	up(2 << 20, 0, 1 << 20);
	struct mempool p; mempool_create(&p, &cache, 1000);
	static char *o[10000]; int n = 0;
	while ((o[n] = mempool_alloc(&p))) n++;
	mempool_free(&p, o[n / 2]);
	MUST(mempool_alloc(&p) != NULL);
	return 0;
}'''),
dict(id="C13-join-over-empty-slab", prop="C13",
 edits=[("small/region.c", """	while (offset > 0 && slab->used <= offset) {
		memcpy(ptr + offset - slab->used, rslab_data(slab), slab->used);""", """	while (offset > 0 && slab->used > 0 && slab->used <= offset) {
		memcpy(ptr + offset - slab->used, rslab_data(slab), slab->used);""")],
 needs="region_join() over blocks with an unused one among them: a reservation that was never allocated followed by a larger one",
 breaks="the joined copy contains garbage",
 flags="-O1 -g -DNDEBUG", demo=SETUP + r'''
#include "region.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct region r; region_create(&r, &cache);
	size_t page = 4096;
	char *a = region_alloc(&r, 2000); memset(a, 'a', 2000);
	/* reserved but not used; what is needed turns out to be larger */
	region_reserve(&r, 3 * page);
	char *b = region_alloc(&r, 20 * page); memset(b, 'b', 20 * page);
	char *j = region_join(&r, 20 * page + 1000);
	for (int i = 0; i < 1000; i++) MUST(j[i] == 'a');
	for (size_t i = 0; i < 20 * page; i++) MUST(j[1000 + i] == 'b');
	return 0;
}'''),
dict(id="C14-failed-large-quota", prop="C14",
 edits=[("small/lsregion.c", "			quota_release(quota, slab_size);\n			return NULL;", "			quota_release(quota, aligned_size);\n			return NULL;")],
 needs="malloc failing for an allocation larger than a slab whose header crosses a quota unit",
 breaks="a unit of quota stays charged after a refused allocation",
 flags=WRAP, files=["wrapmem.h"], demo=SETUP + r'''
#include "wrapmem.h"
#include "lsregion.h"
int main(void)
{
	up(64 << 20, 0, 1 << 20);
	struct lsregion l; lsregion_create(&l, &arena);
	size_t used = quota_used(&quota);
	fail_malloc = 1;
	MUST(lsregion_alloc(&l, 4 << 20, 1) == NULL);
	MUST(quota_used(&quota) == used);
	return 0;
}'''),
dict(id="C16-release-before-grow", prop="C16",
 edits=[("small/ibuf.c", """		struct slab *slab = slab_get(ibuf->slabc, new_capacity);
		if (slab == NULL)
			return NULL;
		char *ptr = (char *) slab_data(slab);
		memcpy(ptr, ibuf->rpos, used);
		if (ibuf->buf)
			slab_put(ibuf->slabc, slab_from_data(ibuf->buf));
		ibuf->buf = ptr;
		ibuf->end = ibuf->buf + slab_capacity(slab);""", """		/* Nothing to copy: let the memory be reused right away. */
		char *old = ibuf->buf;
		if (old != NULL && used == 0) {
			slab_put(ibuf->slabc, slab_from_data(old));
			old = NULL;
		}
		struct slab *slab = slab_get(ibuf->slabc, new_capacity);
		if (slab == NULL)
			return NULL;
		char *ptr = (char *) slab_data(slab);
		memcpy(ptr, ibuf->rpos, used);
		if (old != NULL)
			slab_put(ibuf->slabc, slab_from_data(old));
		ibuf->buf = ptr;
		ibuf->end = ibuf->buf + slab_capacity(slab);""")],
 needs="an empty buffer that has memory, asked for more than it has when memory is exhausted",
 breaks="after a refused request the buffer uses memory it gave back",
 demo=SETUP + r'''
#include "ibuf.h"
int main(void)
{
	up(1 << 20, 0, 1 << 20);
	struct ibuf b; ibuf_create(&b, &cache, 16320);
	MUST(ibuf_alloc(&b, 100));
	ibuf_reset(&b);
	MUST(ibuf_reserve(&b, 4 << 20) == NULL);
	/* the memory of the buffer belongs to nobody else */
	char *p = ibuf_alloc(&b, 100);
	if (p) for (int i = 0; i < 60; i++) {
		struct slab *s = slab_get(&cache, 16000);
		if (!s) break;
		char *d = slab_data(s);
		MUST(d + slab_capacity(s) <= p || p + 100 <= d);
	}
	return 0;
}'''),
dict(id="C17-realloc-put-first", prop="C17",
 edits=[("small/obuf.c", """			struct slab *slab = slab_get(buf->slabc, capacity);
			if (slab == NULL)
				return NULL;
			struct slab *old =
				slab_from_data(buf->iov[buf->pos].iov_base);
			slab_put(buf->slabc, old);
			buf->iov""", """			struct slab *old =
				slab_from_data(buf->iov[buf->pos].iov_base);
			slab_put(buf->slabc, old);
			struct slab *slab = slab_get(buf->slabc, capacity);
			if (slab == NULL)
				return NULL;
			buf->iov""")],
 needs="an allocated but empty buffer is too small for a reservation and memory is exhausted",
 breaks="after a refused request the output buffer uses memory it gave back",
 demo=SETUP + r'''
#include "obuf.h"
int main(void)
{
	up(1 << 20, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 16320);
	MUST(obuf_alloc(&b, 100));
	obuf_reset(&b);
	MUST(obuf_alloc(&b, 4 << 20) == NULL);
	char *p = obuf_alloc(&b, 100);
	if (p) for (int i = 0; i < 60; i++) {
		struct slab *s = slab_get(&cache, 16000);
		if (!s) break;
		char *d = slab_data(s);
		MUST(d + slab_capacity(s) <= p || p + 100 <= d);
	}
	return 0;
}'''),
dict(id="C18-rollback-skips-full", prop="C18",
 edits=[("small/obuf.c", """	int i;
	for (i = buf->pos + 1; i < iovcnt; i++)
		buf->iov[i].iov_len = 0;
#ifndef NDEBUG
	buf->reserved = false;
#endif
}""", """	int i;
	/* Only the buffers up to the first empty one have data. */
	for (i = buf->pos + 1; i < iovcnt && i <= SMALL_OBUF_IOV_MAX / 4; i++)
		buf->iov[i].iov_len = 0;
#ifndef NDEBUG
	buf->reserved = false;
#endif
}""")],
 needs="a rollback over more than eight vectors",
 breaks="lengths of vectors beyond the savepoint stay, data appears again",
 flags="-O1 -g -DNDEBUG", demo=SETUP + r'''
#include "obuf.h"
int main(void)
{
	up(256 << 20, 0, 1 << 20);
	struct obuf b; obuf_create(&b, &cache, 16);
	struct obuf_svp s = obuf_create_svp(&b);
	for (int i = 0; i < 2000000; i++) MUST(obuf_dup(&b, "0123456789abcdef", 16) == 16);
	obuf_rollback_to_svp(&b, &s);
	for (int i = 0; i < b.n_iov; i++) MUST(b.iov[i].iov_len == 0);
	return 0;
}'''),
dict(id="C19-range-capacity-32bit", prop="C19",
 edits=[("small/matras.c", "	if (m->head.block_count + range_count > m->capacity) {\n", "	if ((matras_id_t)(m->head.block_count + range_count) > m->capacity) {\n")],
 needs="2^32 blocks allocated, then a range",
 breaks="block ids wrap around and live blocks are handed out again",
 flags="-O1 -g -DNDEBUG", demo=r'''
#include "matras.h"
enum { EXT = 1 << 16 };
static void *ea(struct matras_allocator *a)
{
	void *p = mmap(0, EXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	return p == MAP_FAILED ? NULL : p;
}
static void ef(struct matras_allocator *a, void *p) { munmap(p, EXT); }
int main(void)
{
	struct matras_allocator al; struct matras m; matras_id_t id;
	matras_allocator_create(&al, EXT, ea, ef);
	matras_create(&m, 1 << 4, &al, NULL);
	/* 2^12 blocks of 16 bytes per extent: pretend to be nearly full with one shared data extent */
	MUST(m.capacity == (size_t)1 << 32);
	matras_id_t range = EXT / 16;
	void *first = matras_alloc_range(&m, &id, range);
	MUST(first && id == 0);
	size_t n;
	for (n = range; n < m.capacity; n += range) {
		void *p = matras_alloc_range(&m, &id, range);
		if (!p) return 0; /* not enough memory here */
		MUST(id == (matras_id_t)n);
		munmap(p, EXT); /* the data is not needed */
	}
	MUST(matras_alloc_range(&m, &id, range) == NULL);
	return 0;
}'''),
dict(id="C21-touch-undo", prop="C21",
 edits=[("small/matras.c", """		void *new_extent = matras_copy_read_view_extent(m, extent3);
		if (!new_extent)
			return 0;
""", """		void *new_extent = matras_copy_read_view_extent(m, extent3);
		if (!new_extent) {
			/* Do not keep a copy of the second level for nothing. */
			extent1[n1] = extent2p;
			matras_free_read_view_extent(m, extent2);
			return 0;
		}
""")],
 needs="a refused copy of a data extent after an earlier touch of another block under the same second-level extent",
 breaks="the current version loses the blocks touched before, their copies are leaked",
 demo=r'''
#include "matras.h"
enum { EXT = 64 };
static int live, left = 1 << 30;
static void *ea(struct matras_allocator *a) { if (left-- <= 0) return NULL; live++; return malloc(EXT); }
static void ef(struct matras_allocator *a, void *p) { live--; free(p); }
int main(void)
{
	struct matras_allocator al; struct matras m; matras_id_t id; struct matras_view v;
	matras_allocator_create(&al, EXT, ea, ef);
	matras_create(&m, 32, &al, NULL);
	for (int i = 0; i < 16; i++) memset(matras_alloc(&m, &id), i, 32);
	matras_create_read_view(&m, &v);
	memset(matras_touch(&m, 0), 100, 32);
	left = 0;
	MUST(matras_touch(&m, 5) == NULL);
	left = 1 << 30;
	MUST(*(char *)matras_get(&m, 0) == 100);
	matras_destroy_read_view(&m, &v);
	matras_destroy(&m);
	MUST(live == 0);
	return 0;
}'''),
dict(id="C21-reserve-failure-drops-all", prop="C21",
 edits=[("small/matras.c", """		void *ext = allocator->alloc_func(allocator);
		if (ext == NULL)
			return -1;
""", """		void *ext = allocator->alloc_func(allocator);
		if (ext == NULL) {
			/* Do not keep a part of what was asked for. */
			matras_allocator_destroy(allocator);
			return -1;
		}
""")],
 needs="a reservation refused while an earlier reservation has not been used yet",
 breaks="a touch is refused although space for it was reserved",
 demo=r'''
#include "matras.h"
enum { EXT = 64 };
static int left = 1 << 30;
static void *ea(struct matras_allocator *a) { if (left-- <= 0) return NULL; return malloc(EXT); }
static void ef(struct matras_allocator *a, void *p) { free(p); }
int main(void)
{
	struct matras_allocator al; struct matras m; matras_id_t id; struct matras_view v;
	matras_allocator_create(&al, EXT, ea, ef);
	matras_create(&m, 32, &al, NULL);
	for (int i = 0; i < 64; i++) MUST(matras_alloc(&m, &id));
	matras_create_read_view(&m, &v);
	MUST(matras_touch_reserve(&m, 2) == 0);
	left = 1;
	MUST(matras_touch_reserve(&m, 10) == -1);
	left = 0;
	MUST(matras_touch(&m, 0)); MUST(matras_touch(&m, 20));
	return 0;
}'''),
dict(id="C22-shared-position", prop="C22",
 edits=[("small/static.c", "__thread size_t static_storage_pos = 0;", "size_t static_storage_pos = 0;"),
        ("include/small/static.h", "extern __thread size_t static_storage_pos;", "extern size_t static_storage_pos;")],
 needs="two threads using their static buffers alternately",
 breaks="requests of one thread move the position in the buffer of another: recent strings are overwritten early",
 demo=r'''
#include <pthread.h>
#include "static.h"
static void *other(void *x) { static_reset(); MUST(static_alloc(100)); return x; }
int main(void)
{
	char *a = static_alloc(1000); memset(a, 'a', 1000);
	pthread_t t; pthread_create(&t, 0, other, 0); pthread_join(t, 0);
	char *b = static_alloc(1000); memset(b, 'b', 1000);
	for (int i = 0; i < 1000; i++) MUST(a[i] == 'a');
	return 0;
}'''),
dict(id="C24-small-tail-not-fenced", prop="C24", asan=True,
 edits=[("small/lsregion_asan.c", "	ASAN_POISON_MEMORY_REGION(payload + size, alloc->size - size);\n", """	/* Not worth it for a few bytes. */
	if (alloc->size - size >= 16)
		ASAN_POISON_MEMORY_REGION(payload + size, alloc->size - size);
""")],
 needs="an allocation up to 15 bytes smaller than its reservation",
 breaks="bytes behind an allocation are accessible",
 demo=r'''
#include "quota.h"
#include "slab_arena.h"
#include "lsregion.h"
#include <sanitizer/asan_interface.h>
int main(void)
{
	struct quota q; struct slab_arena a; struct lsregion l;
	quota_init(&q, 64 << 20);
	slab_arena_create(&a, &q, 0, 1 << 20, MAP_PRIVATE);
	lsregion_create(&l, &a);
	char *p = lsregion_reserve(&l, 72);
	char *r = lsregion_alloc(&l, 64, 1);
	MUST(p == r);
	MUST(__asan_address_is_poisoned(r + 64));
	return 0;
}'''),
]
