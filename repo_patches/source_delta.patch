From 31302ecffa55b63bea89f31769585708462b3eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 01/24] fix: lf_lifo_is_empty() returns false for a drained
 list

Once something was pushed and popped, the low bits of the list head keep
the ABA counter, so comparing the whole word with NULL never succeeds.
---
 include/small/lf_lifo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/small/lf_lifo.h b/include/small/lf_lifo.h
index 8181fef..38b7bb3 100644
--- a/include/small/lf_lifo.h
+++ b/include/small/lf_lifo.h
@@ -114,7 +114,8 @@ lf_lifo_pop(struct lf_lifo *head)
 static inline bool
 lf_lifo_is_empty(struct lf_lifo *head)
 {
-	return head->next == NULL;
+	/* The ABA counter stays in the head of a list which was drained. */
+	return lf_lifo(head->next) == NULL;
 }
 
 #if defined(__cplusplus)
-- 
2.43.0


From bd41641661579287135e3e460481619d7d349371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 02/24] fix: quota_use() overflows when usage plus size exceeds
 32-bit units

The sum of two values each not greater than QUOTA_MAX may not fit in
32 bits: an assertion failed in debug builds, and in release builds the
request was granted and the usage wrapped around.
---
 include/small/quota.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 238d15e..7df1b7f 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -140,12 +140,13 @@ quota_use(struct quota *quota, size_t size)
 		uint32_t total_in_units = value >> 32;
 		uint32_t used_in_units = value & UINT32_MAX;
 
+		/* Sic: the sum can overflow, the difference can not. */
+		if (size_in_units > total_in_units - used_in_units)
+			return -1;
+
 		uint32_t new_used_in_units = used_in_units + size_in_units;
 		assert(new_used_in_units > used_in_units);
 
-		if (new_used_in_units > total_in_units)
-			return -1;
-
 		uint64_t new_value =
 			((uint64_t) total_in_units << 32) | new_used_in_units;
 
-- 
2.43.0


From c44c598f4c959e8ca12b976701066247e218b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 03/24] fix: quota_release() rejects the whole QUOTA_MAX

quota_use() grants a request of exactly QUOTA_MAX bytes, but releasing it
in one call failed an assertion.
---
 include/small/quota.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 7df1b7f..8696190 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -160,7 +160,7 @@ quota_use(struct quota *quota, size_t size)
 static inline ssize_t
 quota_release(struct quota *quota, size_t size)
 {
-	assert(size < QUOTA_MAX);
+	assert(size <= QUOTA_MAX);
 	uint32_t size_in_units = (size + (QUOTA_UNIT_SIZE - 1))
 				  / QUOTA_UNIT_SIZE;
 	assert(size_in_units);
-- 
2.43.0


From 2cc25a6a43985f9810a69fc5e2dc1fdf490bb938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 04/24] fix: quota_lease() refuses a lease that fits in the
 quota

The amount taken in advance was halved until it became less than what is
required, so the required amount itself was never tried: a lease was
refused although the source quota had enough for it.
---
 include/small/quota_lessor.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/small/quota_lessor.h b/include/small/quota_lessor.h
index cdd15f7..16caca6 100644
--- a/include/small/quota_lessor.h
+++ b/include/small/quota_lessor.h
@@ -127,16 +127,18 @@ quota_lease(struct quota_lessor *lessor, ssize_t size)
 	size_t required = size + lessor->leased - lessor->used;
 	size_t use = required > QUOTA_USE_MIN ? required : QUOTA_USE_MIN;
 
-	for (; use >= required; use = use/2) {
-
+	for (;;) {
 		ssize_t used = quota_use(lessor->source, use);
 		if (used >= 0) {
 			lessor->used += used;
 			lessor->leased += size;
 			return size;
 		}
+		if (use == required)
+			return -1;
+		/* Take less in advance, but never less than required. */
+		use = use / 2 > required ? use / 2 : required;
 	}
-	return -1;
 }
 
 /*
-- 
2.43.0


From f513e9c5d31b5f00a9167bcc4e04ecdbfda41311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:23 +0000
Subject: [PATCH 05/24] fix: slab_get() returns a tiny slab for a size close to
 SIZE_MAX

The size of the slab header was added without checking for overflow.
---
 small/slab_cache.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/small/slab_cache.c b/small/slab_cache.c
index 5ac33ad..c434fa8 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -270,6 +270,9 @@ slab_get_with_order(struct slab_cache *cache, uint8_t order)
 struct slab *
 slab_get_large(struct slab_cache *cache, size_t size)
 {
+	/* The size of the slab can't be represented. */
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	size += slab_sizeof();
 	if (quota_use(cache->arena->quota, size) < 0)
 		return NULL;
@@ -317,6 +320,9 @@ struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
 	struct slab *slab;
+	/* The size of the slab can't be represented. */
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	uint8_t order = slab_order(cache, size + slab_sizeof());
 	if (order == cache->order_max + 1)
 		slab = slab_get_large(cache, size);
-- 
2.43.0


From beec99e7cfcc5efa88875ca8f15ef1fad56ed6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 06/24] fix: used size of a new slab cache is not initialized
 under ASAN

---
 small/slab_cache_asan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index af89995..72ea5f6 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -35,6 +35,7 @@ void
 slab_cache_create(struct slab_cache *cache, struct slab_arena *arena)
 {
 	quota_lessor_create(&cache->quota, arena->quota);
+	cache->used = 0;
 	cache->id = small_asan_reserve_id();
 	slab_cache_set_thread(cache);
 }
-- 
2.43.0


From e2595fb35a51ba519ad7be2b6ac71f5c7baa9b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 07/24] fix: mempool keeps all empty slabs if one object fits
 in a slab

If a slab has room for one object, it goes from full to completely free
on the first mempool_free(), which handled only the transition to the
tree of hot slabs, so such slabs were never given back.
---
 small/mempool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/small/mempool.c b/small/mempool.c
index 72a9719..31da969 100644
--- a/small/mempool.c
+++ b/small/mempool.c
@@ -131,7 +131,8 @@ mslab_free(struct mempool *pool, struct mslab *slab, void *ptr)
 		}
 	} else if (slab->nfree == 1) {
 		rlist_add_entry(&pool->cold_slabs, slab, next_in_cold);
-	} else if (slab->nfree == pool->objcount) {
+	}
+	if (slab->nfree == pool->objcount) {
 		/** Free the slab. */
 		if (slab == pool->first_hot_slab) {
 			pool->first_hot_slab =
-- 
2.43.0


From 6b8e7d6a7ca3e289dc4bba8814e0a22b54be64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 08/24] fix: region_reset() leaves the region used if it has
 several slabs

region_reset() is documented to mark the region as empty, but it only
emptied the newest slab: memory of older slabs stayed accounted as used
and was joinable.
---
 include/small/region.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 27d142f..0bb2a05 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -307,13 +307,10 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 static inline void
 region_reset(struct region *region)
 {
-	if (! rlist_empty(&region->slabs.slabs)) {
-		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
-						       struct rslab,
-						       slab.next_in_list);
-		region->slabs.stats.used -= slab->used;
+	struct rslab *slab;
+	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list)
 		slab->used = 0;
-	}
+	region->slabs.stats.used = 0;
 #ifndef NDEBUG
 	region->reserved = false;
 #endif
-- 
2.43.0


From 797d18835d908881129ca49c0403de647d01e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 09/24] fix: region returns wrong memory for a size close to
 SIZE_MAX

The size of a slab to allocate, as well as the size with the reserve for
alignment, wrapped around.
---
 include/small/region.h | 2 ++
 small/region.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 0bb2a05..c5399d3 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -261,6 +261,8 @@ region_alloc(struct region *region, size_t size)
 static inline void *
 region_aligned_reserve(struct region *region, size_t size, size_t alignment)
 {
+	if (small_unlikely(size > SIZE_MAX - alignment))
+		return NULL;
 	/* reserve extra to allow for alignment */
 	void *ptr = region_reserve(region, size + alignment - 1);
 	/* assuming NULL==0, aligned NULL still a NULL */
diff --git a/small/region.c b/small/region.c
index 32ab981..50ab916 100644
--- a/small/region.c
+++ b/small/region.c
@@ -38,6 +38,8 @@ region_reserve_slow(struct region *region, size_t size)
 {
 	/* The new slab must have at least this many bytes available. */
 	size_t slab_min_size = size + rslab_sizeof() - slab_sizeof();
+	if (slab_min_size < size)
+		return NULL;
 
 	struct rslab *slab;
 	slab = (struct rslab *) slab_get(region->cache, slab_min_size);
-- 
2.43.0


From 6962968938e58864c2d355a01c1e6d922d722fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 10/24] fix: region miscounts allocations of 4 GB and more

The used size of a slab, the unused size and the effective size of an
aligned allocation were truncated to 32 bits.
---
 include/small/region.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index c5399d3..bb40623 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -180,7 +180,7 @@ struct rslab
 	 * extra members.
 	 */
 	struct slab slab;
-	uint32_t used;
+	size_t used;
 };
 
 static inline uint32_t
@@ -202,7 +202,7 @@ rslab_data_end(struct rslab *slab)
 }
 
 /** How much memory is available in a given block? */
-static inline uint32_t
+static inline size_t
 rslab_unused(struct rslab *slab)
 {
 	return slab->slab.size - rslab_sizeof() - slab->used;
@@ -286,8 +286,8 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 		 * account for optional padding before the allocated
 		 * block (alignment)
 		 */
-		uint32_t effective_size = (uint32_t)(
-			(char *)ptr - (char *)rslab_data_end(slab) + size);
+		size_t effective_size =
+			(char *)ptr - (char *)rslab_data_end(slab) + size;
 
 		assert(effective_size <= rslab_unused(slab));
 
-- 
2.43.0


From 6860833ab1efe586d68092851edbeb8dc0bc890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:44 +0000
Subject: [PATCH 11/24] fix: region_join() under ASAN copies wrong part of an
 allocation

If the joined size covers an allocation only partially then the last
bytes of the allocation should be copied, not the first ones.
---
 small/region_asan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/small/region_asan.c b/small/region_asan.c
index ea61e8c..7f37028 100644
--- a/small/region_asan.c
+++ b/small/region_asan.c
@@ -145,7 +145,8 @@ region_join(struct region *region, size_t size)
 		if (offset < copy_size)
 			copy_size = offset;
 		memcpy(ret + offset - copy_size,
-		       small_asan_payload_from_header(alloc), copy_size);
+		       (char *)small_asan_payload_from_header(alloc) +
+		       alloc->used - copy_size, copy_size);
 
 		offset -= copy_size;
 		alloc = rlist_next_entry(alloc, link);
-- 
2.43.0


From 8097541011738ac86c354d27025fab88a67fef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 12/24] fix: lsregion returns wrong memory for a size close to
 SIZE_MAX

Both the end of the requested memory and the size of a large slab
wrapped around.
---
 include/small/lsregion.h | 5 +++--
 small/lsregion.c         | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/small/lsregion.h b/include/small/lsregion.h
index bec534e..2abdd5c 100644
--- a/include/small/lsregion.h
+++ b/include/small/lsregion.h
@@ -246,8 +246,9 @@ lsregion_aligned_reserve(struct lsregion *lsregion, size_t size,
 					next_in_list);
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
-		void *pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		char *pos = (char *)small_align((size_t)*unaligned, alignment);
+		char *end = (char *)lslab_end(slab);
+		if (pos <= end && size <= (size_t)(end - pos))
 			return pos;
 	}
 	return lsregion_aligned_reserve_slow(lsregion, size, alignment,
diff --git a/small/lsregion.c b/small/lsregion.c
index 4b3446c..a0fff07 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -47,9 +47,12 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		char *end = lslab_end(slab);
+		if ((char *)pos <= end && size <= (size_t)(end - (char *)pos))
 			return pos;
 	}
+	if (size > SIZE_MAX - alignment - lslab_sizeof())
+		return NULL;
 	/*
 	 * Need to allocate more, since it can happen, that the
 	 * new slab won't be aligned by the needed alignment, and
-- 
2.43.0


From b0f39ebb8bb07a8c0da1bde9c5d8537e5076c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 13/24] fix: lsregion_to_iovec() loses data allocated after an
 unused slab

A slab that was reserved but not used is not necessarily the last one:
it is followed by another slab if the next reservation does not fit.
---
 small/lsregion.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/small/lsregion.c b/small/lsregion.c
index a0fff07..1497405 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -106,9 +106,13 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 	int max_iovcnt = *iovcnt;
 	int cnt = 0;
 	rlist_foreach_entry(lslab, &lsregion->slabs.slabs, next_in_list) {
-		/* There might be an unused slab at the end of the list. */
+		/*
+		 * There might be slabs reserved but not used. Not only at the
+		 * end of the list: if the next reservation doesn't fit into
+		 * such a slab then one more is added after it.
+		 */
 		if (lslab->max_id == LSLAB_NOT_USED_ID)
-			break;
+			continue;
 		/* An already seen slab with no new allocations. */
 		if (lslab->slab_id < prev_id ||
 		    (lslab->slab_id == prev_id &&
-- 
2.43.0


From 06bb57fd3e12d24d4900ca705fa406ac5a23835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 14/24] fix: lsregion_to_iovec() loses data of a reused cached
 slab

The id of a cached slab was assigned when the slab was cached rather than
reused, so slabs created in between had greater ids but were older.
---
 small/lsregion.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/small/lsregion.c b/small/lsregion.c
index 1497405..2ea8de3 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -78,6 +78,12 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		/* If there is the cached slab then use it. */
 		slab = lsregion->cached;
 		lsregion->cached = NULL;
+		/*
+		 * Slabs could be created since the slab was cached. Ids must
+		 * grow along the list, otherwise a savepoint in a newer slab
+		 * would hide the data of this one.
+		 */
+		slab->slab_id = ++lsregion->slab_id;
 		rlist_add_tail_entry(&lsregion->slabs.slabs, slab,
 				     next_in_list);
 	} else {
-- 
2.43.0


From 9d0ec0f45d119cc4f20816feac143b915f90dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:59 +0000
Subject: [PATCH 15/24] fix: ibuf hangs or returns wrong memory for a huge size

The end of the requested space wrapped around, and doubling the capacity
never ended for a size above half of the address space.
---
 include/small/ibuf.h | 4 ++--
 small/ibuf.c         | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/small/ibuf.h b/include/small/ibuf.h
index b67dc9a..aff8016 100644
--- a/include/small/ibuf.h
+++ b/include/small/ibuf.h
@@ -151,7 +151,7 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size);
 static inline void *
 ibuf_reserve(struct ibuf *ibuf, size_t size)
 {
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		ibuf_unpoison_unallocated(ibuf);
 		return ibuf->wpos;
 	}
@@ -162,7 +162,7 @@ static inline void *
 ibuf_alloc(struct ibuf *ibuf, size_t size)
 {
 	void *ptr;
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		/*
 		 * In case of using same buffer we need to unpoison newly
 		 * allocated memory after previous ibuf_alloc or poison after
diff --git a/small/ibuf.c b/small/ibuf.c
index 03370da..9c95f57 100644
--- a/small/ibuf.c
+++ b/small/ibuf.c
@@ -69,9 +69,12 @@ ibuf_reinit(struct ibuf *ibuf)
 void *
 ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 {
-	assert(ibuf->wpos + size > ibuf->end);
+	assert(size > ibuf_unused(ibuf));
 	size_t used = ibuf_used(ibuf);
 	size_t capacity = ibuf_capacity(ibuf);
+	/* The capacity is doubled below until the data fits. */
+	if (size > SIZE_MAX / 2 - used)
+		return NULL;
 	/*
 	 * Check if we have enough space in the
 	 * current buffer. In this case de-fragment it
-- 
2.43.0


From f3af218e4d83c112d5f07e128033268922570435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:41 +0000
Subject: [PATCH 16/24] fix: obuf hangs or returns wrong memory for a huge size

The end of the requested space wrapped around, and doubling the capacity
never ended for a size above half of the address space.
---
 include/small/obuf.h | 4 ++--
 small/obuf.c         | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/small/obuf.h b/include/small/obuf.h
index 898bc27..192fe76 100644
--- a/include/small/obuf.h
+++ b/include/small/obuf.h
@@ -175,7 +175,7 @@ obuf_reserve(struct obuf *buf, size_t size)
 {
 	void *ptr = NULL;
 	assert(!buf->reserved);
-	if (buf->iov[buf->pos].iov_len + size > buf->capacity[buf->pos]) {
+	if (size > buf->capacity[buf->pos] - buf->iov[buf->pos].iov_len) {
 		ptr = obuf_reserve_slow(buf, size);
 	} else {
 		struct iovec *iov = &buf->iov[buf->pos];
@@ -199,7 +199,7 @@ obuf_alloc(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	void *ptr;
-	if (iov->iov_len + size <= buf->capacity[buf->pos]) {
+	if (size <= buf->capacity[buf->pos] - iov->iov_len) {
 		ptr = (char *) iov->iov_base + iov->iov_len;
 	} else {
 		ptr = obuf_reserve_slow(buf, size);
diff --git a/small/obuf.c b/small/obuf.c
index dd0b030..7bf888d 100644
--- a/small/obuf.c
+++ b/small/obuf.c
@@ -175,6 +175,9 @@ obuf_reserve_slow(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	size_t capacity = buf->capacity[buf->pos];
+	/* The capacity is doubled below until the size fits. */
+	if (size > SIZE_MAX / 2)
+		return NULL;
 	if (iov->iov_len > 0) {
 		/* Move to the next buffer. */
 		if (buf->pos + 1 >= SMALL_OBUF_IOV_MAX)
-- 
2.43.0


From 41a19f100a2fa618fe40d54240451f65482a2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:35 +0000
Subject: [PATCH 17/24] fix: matras read view destruction leaks extents of a
 longer version

A view that shares the root or a second level extent with the previous
view may have more blocks than that view. Extents with the extra blocks
were not freed if the current version had replaced them.
---
 small/matras.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 991eeac..88acd98 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -406,12 +406,13 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		return;
 	if (v->root == next_view->root && next_view->block_count)
 		return;
-	if (prev_view && v->root == prev_view->root && prev_view->block_count)
+	if (prev_view && v->root == prev_view->root &&
+	    prev_view->block_count >= v->block_count)
 		return;
 	void **extent1 = (void **)v->root;
 	void **extent1n = (void **) next_view->root;
 	void **extent1p = 0;
-	if (prev_view)
+	if (prev_view && prev_view->block_count)
 		extent1p = (void **) prev_view->root;
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
@@ -427,8 +428,10 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			extent2n = (void **) extent1n[i1];
 		}
 		if (prev_view && prev_view->block_count > j1) {
-			if (extent1[i1] == extent1p[i1])
-				continue;
+			/*
+			 * If the extent is shared with the previous view,
+			 * only blocks that the latter doesn't have are freed.
+			 */
 			extent2p = (void **) extent1p[i1];
 		}
 		for (i2 = j2 = 0;
@@ -445,9 +448,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			}
 			matras_free_read_view_extent(m, extent3);
 		}
-		matras_free_read_view_extent(m, extent2);
+		if (extent2 != extent2p)
+			matras_free_read_view_extent(m, extent2);
 	}
-	matras_free_read_view_extent(m, extent1);
+	if (extent1 != extent1p)
+		matras_free_read_view_extent(m, extent1);
 }
 
 /*
-- 
2.43.0


From 2970026f51dd038a5491d9408b4d58c6e23e5e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:06 +0000
Subject: [PATCH 18/24] fix: matras breaks if an extent pair can address 2^32
 blocks or more

Shifting an identifier by 32 bits or more is undefined. On x86 every
block took two extents and the root extent was overrun, e.g. with
512 KB extents and 8-byte blocks.
---
 small/matras.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 88acd98..1de9bca 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -78,6 +78,9 @@ matras_create(struct matras *m, matras_id_t block_size,
 		log2_capacity = 32;
 	m->capacity = (size_t)1 << log2_capacity;
 	m->shift1 = log1 * 2 - log2 - log3;
+	/* A block identifier can't be shifted by all its bits or more. */
+	if (m->shift1 >= sizeof(matras_id_t) * CHAR_BIT)
+		m->shift1 = sizeof(matras_id_t) * CHAR_BIT - 1;
 	m->shift2 = log1 - log2;
 	m->mask1 = (((matras_id_t)1) << m->shift1) - ((matras_id_t)1);
 	m->mask2 = (((matras_id_t)1) << m->shift2) - ((matras_id_t)1);
@@ -149,7 +152,8 @@ matras_destroy(struct matras *m)
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
 	matras_id_t i1 = 0, j1 = 0, i2, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
+	/* Number of used pointers in the second level extent. */
+	matras_id_t ptrs_in_ext = (matras_id_t)1 << (m->shift1 - m->shift2);
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
@@ -417,7 +421,8 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
 	matras_id_t i1 = 0, j1 = 0, i2, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
+	/* Number of used pointers in the second level extent. */
+	matras_id_t ptrs_in_ext = (matras_id_t)1 << (m->shift1 - m->shift2);
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
-- 
2.43.0


From 3ffcc200e427f3c06e40fe5da0c5c35f2357865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:06 +0000
Subject: [PATCH 19/24] fix: matras destruction runs away if all 2^32 blocks
 are allocated

The 32-bit loop counter wrapped around before it reached the number of
blocks.
---
 small/matras.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 1de9bca..10bc4ab 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -151,7 +151,9 @@ matras_destroy(struct matras *m)
 
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	matras_id_t i1 = 0, i2;
+	/* The number of blocks may be greater than the maximum block id. */
+	size_t j1 = 0, j2;
 	/* Number of used pointers in the second level extent. */
 	matras_id_t ptrs_in_ext = (matras_id_t)1 << (m->shift1 - m->shift2);
 	struct matras_view *v = &m->head;
@@ -420,7 +422,9 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		extent1p = (void **) prev_view->root;
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	matras_id_t i1 = 0, i2;
+	/* The number of blocks may be greater than the maximum block id. */
+	size_t j1 = 0, j2;
 	/* Number of used pointers in the second level extent. */
 	matras_id_t ptrs_in_ext = (matras_id_t)1 << (m->shift1 - m->shift2);
 	for (; j1 < v->block_count; i1++, j1 += step1) {
-- 
2.43.0


From 190c9af8c2ff4cd9b7c18935ba15da1db58f7a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:46 +0000
Subject: [PATCH 20/24] fix: static buffer returns wrong memory for a size
 close to SIZE_MAX

---
 include/small/static.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/small/static.h b/include/small/static.h
index ab28cb4..e1ff8c6 100644
--- a/include/small/static.h
+++ b/include/small/static.h
@@ -73,7 +73,7 @@ static_reset(void)
 static inline void *
 static_reserve(size_t size)
 {
-	if (static_storage_pos + size > SMALL_STATIC_SIZE) {
+	if (size > SMALL_STATIC_SIZE - static_storage_pos) {
 		if (size > SMALL_STATIC_SIZE)
 			return NULL;
 		static_storage_pos = 0;
@@ -105,6 +105,8 @@ static_alloc(size_t size)
 static inline void *
 static_aligned_reserve(size_t size, size_t alignment)
 {
+	if (size > SMALL_STATIC_SIZE)
+		return NULL;
 	void *unaligned = static_reserve(size + alignment - 1);
 	if (unaligned == NULL)
 		return NULL;
-- 
2.43.0


From a09ebe5c40707c1c7a879fa10a72b2b532b29ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:33 +0000
Subject: [PATCH 21/24] fix: quota is released before the memory it is charged
 for is freed

Another thread could use the released quota while the large slab was
still allocated, so the memory held could exceed the limit.
---
 include/small/lsregion.h | 5 +++--
 small/slab_cache.c       | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/small/lsregion.h b/include/small/lsregion.h
index 2abdd5c..32d72a2 100644
--- a/include/small/lsregion.h
+++ b/include/small/lsregion.h
@@ -345,9 +345,10 @@ lsregion_gc(struct lsregion *lsregion, int64_t min_id)
 		lsregion->slabs.stats.used -= slab->slab_used - lslab_sizeof();
 		if (slab->slab_size > arena_slab_size) {
 			/* Never put large slabs into cache */
-			quota_release(lsregion->arena->quota, slab->slab_size);
-			lsregion->slabs.stats.total -= slab->slab_size;
+			size_t slab_size = slab->slab_size;
+			lsregion->slabs.stats.total -= slab_size;
 			free(slab);
+			quota_release(lsregion->arena->quota, slab_size);
 		} else if (lsregion->cached != NULL) {
 			lsregion->slabs.stats.total -= slab->slab_size;
 			slab_unmap(lsregion->arena, slab);
diff --git a/small/slab_cache.c b/small/slab_cache.c
index c434fa8..0dea874 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -206,9 +206,9 @@ slab_cache_destroy(struct slab_cache *cache)
 	rlist_foreach_entry_safe(slab, slabs, next_in_cache, tmp) {
 		if (slab->order == cache->order_max + 1) {
 			size_t slab_size = slab->size;
-			quota_release(cache->arena->quota, slab_size);
 			VALGRIND_MEMPOOL_FREE(cache, slab_data(slab));
 			free(slab);
+			quota_release(cache->arena->quota, slab_size);
 		} else {
 			slab_unmap(cache->arena, slab);
 		}
@@ -302,10 +302,10 @@ slab_put_large(struct slab_cache *cache, struct slab *slab)
 	size_t slab_size = slab->size;
 	slab_list_del(&cache->allocated, slab, next_in_cache);
 	cache->allocated.stats.used -= slab_size;
-	quota_release(cache->arena->quota, slab_size);
 	slab_poison(slab);
 	VALGRIND_MEMPOOL_FREE(cache, slab_data(slab));
 	free(slab);
+	quota_release(cache->arena->quota, slab_size);
 	return;
 }
 
-- 
2.43.0


From 8b9fdab8ae192c1329533212cae6484b7e937b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:24 +0000
Subject: [PATCH 22/24] fix: smalloc() uses a pool that it has just deactivated

If memory is refused, smalloc() deactivates the unused pools, which may
include the very pool it has tried, and then tried the same pool again.
The request was refused though the pool that now serves the size had
free objects; or an object was taken from an inactive pool, so that the
waste was miscounted, and the slab of that pool was never reclaimed.
---
 small/small.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/small.c b/small/small.c
index 666cb58..b71afee 100644
--- a/small/small.c
+++ b/small/small.c
@@ -344,8 +344,10 @@ smalloc(struct small_alloc *alloc, size_t size)
 		/*
 		 * In case we run out of memory let's try to deactivate some
 		 * pools and release their sparse slabs. It might not help tho.
+		 * The pool used so far can be among the deactivated ones.
 		 */
 		small_mempool_group_sweep_sparse(alloc);
+		pool = &small_mempool->used_pool->pool;
 		ptr = mempool_alloc(pool);
 	}
 
-- 
2.43.0


From 552292f5e5d70623b8b44075b50a908654338073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:41 +0000
Subject: [PATCH 23/24] fix: region_alloc_array() allocates too little for 4 GB
 and more

The size was computed as an int: it was cut to 32 bits, so that the
array overlapped whatever is allocated next.
---
 include/small/region.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/small/region.h b/include/small/region.h
index bb40623..0e01b7a 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -397,7 +397,10 @@ struct RegionGuard {
 })
 
 #define region_alloc_array(region, T, count, size) ({				\
-	int _tmp_ = sizeof(T) * (count);					\
+	size_t _tmp_;								\
+	/* A size that can't be represented can't be allocated either. */	\
+	if (__builtin_mul_overflow(sizeof(T), (count), &_tmp_))			\
+		_tmp_ = SIZE_MAX;						\
 	*(size) = _tmp_;							\
 	(T *)region_aligned_alloc((region), _tmp_, alignof(T));			\
 })
-- 
2.43.0


From ae67c775b2e2ee13131434064bbfeb18f5663745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:24 +0000
Subject: [PATCH 24/24] fix: obuf rollback in the ASAN flavour left released
 space unfenced

In a vector that several allocations share the bytes after the savepoint
stayed accessible after obuf_rollback_to_svp(), and so did a reservation
that was not used.
---
 small/obuf_asan.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/small/obuf_asan.c b/small/obuf_asan.c
index f885a35..6d7e4a5 100644
--- a/small/obuf_asan.c
+++ b/small/obuf_asan.c
@@ -156,6 +156,10 @@ obuf_rollback_to_svp(struct obuf *buf, struct obuf_svp *svp)
 	buf->used = svp->used;
 	buf->iov[buf->pos].iov_len = svp->iov_len;
 	buf->reserved = false;
+	if (buf->iov[buf->pos].iov_base != NULL) {
+		ASAN_POISON_MEMORY_REGION(obuf_unallocated_ptr(buf),
+					  obuf_unallocated_size(buf));
+	}
 }
 
 void
-- 
2.43.0

