#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one reviewed source for ids, titles and anchors)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
I = "include/small/"; S = "small/"

prop("C01", "A memory quota is never exceeded and never loses or invents an amount",
 "However many threads use, release, resize and read one quota at the same time, every call behaves as if the calls had happened one at a time in an order consistent with real time: usage, counted in whole quota units rounded up, goes up only by granted requests and down only by releases, and never passes the limit. A request is refused only if granting it would pass the limit in force, a limit change is refused only if it would put the limit below current usage, and a refused call changes nothing. A snapshot read of limit and usage returns a pair that existed together, and sizes up to and beyond the maximum quota are answered correctly rather than wrapping around.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "every interleaving of memory accesses of 2-4 threads, every operation history, spurious compare-and-swap failures, sizes from 1 byte to over the maximum",
 "test/quota.cc runs real threads for a while and checks only the final sum; which interleavings occur is luck, refusals are not compared with any legal order and extreme sizes are not tried.",
 [I+"quota.h"],
 [("compare-and-swap retry loops on one packed 64-bit word", "quota.h: quota_set, quota_use, quota_release"),
  ("single-load snapshot", "quota.h: quota_get_total_and_used"),
  ("range guards", "quota.h: QUOTA_MAX checks")],
 [("value", "limit in the high and usage in the low 32 bits, in 1 KiB units", "quota.h: struct quota")],
 ["return values of quota calls", "quota_total/quota_used"])

prop("C02", "The lock-free list is a linearizable stack, safe against ABA",
 "Concurrent pushes and pops of the lock-free list behave as one last-in-first-out stack in an order consistent with real time: every pushed element is popped exactly once, by one thread, no element is lost, duplicated or invented, and a pop returns nothing only if the list was empty at some moment during the call. This holds although popped elements are overwritten by their new owner and pushed again while other threads are in the middle of a pop, for up to 65535 pushes during one pop. The emptiness test agrees with the same order.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving at memory-access granularity of 2-4 threads recycling few elements, with threads stalled arbitrarily long mid-operation and spurious compare-and-swap failures",
 "test/lf_lifo.c is single-threaded and arena_mt.c only hopes that a pop is overtaken by a complete pop/pop/push cycle; the window is a few instructions wide.",
 [I+"lf_lifo.h"],
 [("ABA counter in the low 16 address bits, advanced by each push", "lf_lifo.h: lf_lifo_push, aba_value"),
  ("compare-and-swap of the head against the value that was read", "lf_lifo.h: lf_lifo_push, lf_lifo_pop")],
 [("next", "head pointer tagged with the ABA counter", "lf_lifo.h: struct lf_lifo")],
 ["return values of push/pop/is_empty", "contents of owned elements"])

prop("C03", "The arena hands each slab to one holder at a time, whole and aligned",
 "Every slab the arena returns is aligned to the arena's slab size, is entirely backed by readable and writable memory, overlaps no other slab that is currently held, and stays untouched by anyone else until its holder gives it back. This holds for any number of threads mapping and unmapping concurrently, for preallocated, recycled and freshly mapped slabs, and whatever addresses and failures the operating system answers with.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of map/unmap in several threads and arenas, any preallocation and slab size, mmap returning misaligned addresses or failing",
 "test/arena_mt.c samples a handful of real schedules with a kernel that almost always answers mmap with success and the same layout; failure and misalignment inside a race are never produced.",
 [S+"slab_arena.c", I+"slab_arena.h", I+"lf_lifo.h"],
 [("recycled slabs via lock-free list", "slab_arena.c: slab_map, slab_unmap"),
  ("atomic bump over the preallocated area", "slab_arena.c: slab_map"),
  ("align-and-trim mapping", "slab_arena.c: mmap_checked")],
 [("cache", "free slabs", "slab_arena.h: struct slab_arena"), ("used", "bytes carved so far", "slab_arena.h: struct slab_arena")],
 ["pointers returned by slab_map", "contents of held slabs", "the OS mapping table"])

prop("C04", "Arena accounting is exact, honours options and survives refused mappings",
 "The arena's quota is charged exactly one slab size per distinct slab it has ever handed out, a request is refused only when no free slab was available and either the quota limit or the operating system refused it, and a refused request leaves accounting and mappings as they were. Memory handed back is reused before new memory is taken, the arena never maps more than its preallocation plus its charged slabs, and destroying it returns every mapping it made, and nothing else, to the operating system. The mapping options chosen at creation (private or shared, excluded from core dumps) and the rounding of slab size and preallocation apply to every piece of memory on every path, and failure of the advisory core-dump option never makes a request fail.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings, any pattern of mmap/madvise failures and misaligned answers, all option flags including the legacy form, limits hit and raised at run time",
 "Unit tests never make mmap or madvise fail, run out of quota only single-threaded and do not observe the mapping table at all.",
 [S+"slab_arena.c", I+"slab_arena.h", I+"quota.h"],
 [("undo of usage and quota on failed mapping", "slab_arena.c: slab_map"),
  ("flag translation", "slab_arena.c: slab_arena_flags_init, mmap_checked, madvise_checked"),
  ("teardown of cached slabs and preallocation", "slab_arena.c: slab_arena_destroy")],
 [("used", "bytes ever handed out", "slab_arena.h"), ("quota", "shared limit", "slab_arena.h")],
 ["slab_map results", "quota_used", "the OS mapping table and flags"])

prop("C05", "Quota and arena operations are lock-free: a stalled thread blocks nobody",
 "If any set of threads is suspended at arbitrary points inside quota, lock-free list or arena operations and never resumes, every other thread still completes its own operations within a bounded number of its own steps. When all threads run, contention alone never makes an operation fail or loop forever.",
 ["schedules", "fault_sequences"],
 "every point at which threads can be frozen (each memory access inside an operation), any subset of frozen threads, any following operations, bounded spurious compare-and-swap failures",
 "A test cannot stop a real thread between two particular instructions and leave it there, so no existing test distinguishes lock-free code from code holding a lock.",
 [I+"quota.h", I+"lf_lifo.h", S+"slab_arena.c"],
 [("retry loops that fail only when another thread made progress", "quota.h, lf_lifo.h"),
  ("fetch-and-add without locks", "slab_arena.c: slab_map")], None,
 ["steps taken by the running thread until its call returns"])

prop("C06", "Quota leases are conserved and always covered by the shared quota",
 "At any time the amount leased through a lessor is exactly the sum of its outstanding leases in bytes, it is covered by what the lessor holds of the shared quota, and usage of the shared quota equals the sum of what all lessors and direct users hold, so leases across all threads never pass the limit. A lease is refused only if the missing amount itself does not fit in the shared quota at that time, and a refusal changes neither the lessor nor the quota. Ending leases gives surplus back so that an idle lessor holds less than two lease chunks (2 MB), and destroying a lessor gives back everything it holds.",
 ["histories", "schedules", "inputs"],
 "all lease/end-lease histories of several lessors in different threads over one quota, with direct users and limit changes in between",
 "test/quota_lessor.c is one fixed single-threaded script over a fresh quota.",
 [I+"quota_lessor.h", I+"quota.h"],
 [("chunked leasing with halving fallback", "quota_lessor.h: quota_lease"),
  ("release above twice the chunk", "quota_lessor.h: quota_end_lease"),
  ("return of the remainder", "quota_lessor.h: quota_lessor_destroy")],
 [("used", "bytes taken from the source", "quota_lessor.h"), ("leased", "bytes leased out", "quota_lessor.h")],
 ["lease return values", "quota_leased, quota_available, quota_used"])

prop("C07", "Slabs from the slab cache are exclusive, large enough and aligned",
 "Every slab obtained from the slab cache can hold the requested size, starts at an address aligned to its order's size (for slabs that are not individually allocated), is writable over its whole extent and overlaps no other live slab; its contents change only through its holder until it is freed. A request the cache cannot satisfy, because the quota, the arena or the heap refuses or because the size is absurdly large, returns failure and leaves all live slabs and later requests unaffected.",
 ["histories", "fault_sequences", "configurations", "schedules"],
 "all get/put histories over all orders and large sizes, several caches in different threads over one arena, any pattern of quota, mmap and malloc refusals, page size configurations",
 "test/slab_cache.c does one random walk on one configuration with an OS that never refuses, and checks internal lists rather than the memory handed out.",
 [S+"slab_cache.c", I+"slab_cache.h"],
 [("buddy split and merge", "slab_cache.c: slab_split, slab_merge, slab_buddy"),
  ("order selection", "slab_cache.c: slab_order, slab_get_with_order"),
  ("large slabs via the heap under quota", "slab_cache.c: slab_get_large")],
 [("orders", "free and used slabs per order", "slab_cache.h: struct slab_cache")],
 ["slab_get/slab_get_with_order results", "contents of live slabs"])

prop("C08", "Slab cache accounting is exact and freed slabs coalesce and go back",
 "The reported used size of a slab cache always equals the sum of the sizes of its live slabs, readable at any moment from another thread as a value that was current at some point during the read, and the quota charge matches what the cache and arena actually hold. When neighbouring slabs have all been freed they merge completely, so a cache with no live slabs holds at most one maximum-size free slab, has returned the rest to the arena, can again serve a maximum-size request, and destroying it gives everything back. Requests refused at any point leave this accounting consistent.",
 ["histories", "fault_sequences", "schedules"],
 "all get/put histories, orders and refusal points; reads of the used size at every point of the owner's operations",
 "slab_cache_check in the unit test verifies internal counters against each other, not against what was handed out, never under refusals and never from another thread.",
 [S+"slab_cache.c", I+"slab_cache.h"],
 [("used/total statistics per order", "slab_cache.c: slab_set_used, slab_set_free"),
  ("coalescing and return to arena", "slab_cache.c: slab_put_with_order"),
  ("atomic used counter", "slab_cache.c: slab_cache_used")],
 [("allocated", "statistics of all slabs", "slab_cache.h")],
 ["slab_cache_used", "quota_used", "arena state after teardown"])

prop("C09", "Pool objects are exclusive, correctly sized, aligned and accounted",
 "Every object from a fixed-size pool is writable over the full object size, has the alignment its size implies, overlaps no other live object or allocator metadata, and keeps its contents until it is freed, for every order of allocations and frees. Pool statistics report exactly the live objects and their bytes, a refused allocation changes nothing, and destroying the pool hands all its slabs back to the slab cache.",
 ["histories", "configurations", "fault_sequences"],
 "all alloc/free histories, object sizes and slab orders, with refusals of the underlying slab at any point",
 "test/mempool.c walks one random history per size with unlimited memory; slab transitions under refusal and free orders that cross the hot/cold/spare lists in combination are sampled thinly.",
 [S+"mempool.c", I+"mempool.h"],
 [("in-slab free lists", "mempool.c: mslab_alloc, mslab_free"),
  ("hot/cold/spare slab lists", "mempool.c"),
  ("slab lookup by address mask", "mempool.h: mempool_free, slab_from_ptr")],
 [("slabs", "slab list and statistics", "mempool.h: struct mempool")],
 ["mempool_alloc results", "object contents", "mempool_stats", "slab_cache_used"])

prop("C10", "A pool never refuses an object while it owns a free slot",
 "When the slab cache, the quota or the operating system refuses further memory, a fixed-size pool still satisfies allocations as long as any slab it owns has a free slot, and refuses only when all are occupied and no new slab can be obtained. After memory becomes available again the next allocation succeeds, and slabs that became empty are given back instead of being kept without bound (at most one empty slab is kept in reserve).",
 ["histories", "fault_sequences"],
 "all alloc/free histories crossed with all points at which memory runs out and comes back",
 "No existing test exhausts memory under a pool and then frees objects in selected slabs.",
 [S+"mempool.c", I+"mempool.h"],
 [("fallback to cold slabs", "mempool.c: mempool_alloc"),
  ("spare slab", "mempool.c: mslab_free, mslab_alloc")], None,
 ["mempool_alloc result versus known number of free slots", "slab_cache_used"])

prop("C11", "Small allocator objects are exclusive, large enough and aligned",
 "Every object of any requested size obtained from the small-object allocator is writable over the requested size, is aligned to the configured granularity (for pool-served sizes), overlaps no other live object and keeps its contents until freed with the same size, for any granularity, growth factor and object-size limits. The allocation info reported for an object describes a real size not below the request and is consistent with how it will be freed. Refusals by quota, heap or mmap at any point make a request return failure without disturbing live objects.",
 ["histories", "configurations", "fault_sequences", "inputs"],
 "all alloc/free histories over all sizes including larger-than-slab and absurdly large ones, all granularities and growth factors, refusals anywhere",
 "test/small_alloc.c samples a few growth factors with plentiful memory and compares a trailer in each object; it does not make anything fail and does not check alignment or extent.",
 [S+"small.c", I+"small.h", S+"small_class.c", I+"small_class.h", S+"mempool.c"],
 [("size class mapping", "small_class.h: small_class_calc_offset_by_size"),
  ("group of pools with optimal active pool", "small.c: smalloc, smfree, small_mempool_search"),
  ("large objects via slab cache", "small.c: smalloc")],
 [("small_mempool_cache", "one pool per size class", "small.h: struct small_alloc")],
 ["smalloc results", "object contents", "small_alloc_info"])

prop("C12", "Small allocator statistics are exact and freed memory is given back",
 "At any time the statistics of the small-object allocator report the number and bytes of live pool-served objects exactly, including while it silently switches the pool that serves a size class and reclaims pools, and object counts never leak between pools. When memory is refused it first reclaims the empty slabs of pools it no longer needs (those without objects whose class wastes less than a sixteenth of a slab in larger pools), so a request is refused only if its memory cannot be obtained after that. Memory lost by serving a size class from larger pools stays bounded: a class whose objects waste a quarter of a slab is from then on served by a pool of its own size. When all objects are freed and the allocator destroyed, every slab and every byte of quota it took is back.",
 ["histories", "configurations", "fault_sequences"],
 "all histories that make pool waste rise and fall, all group layouts, refusals anywhere",
 "The pool switching depends on accumulated waste, which the unit tests drive along one path; nothing checks statistics at every step or under refusal.",
 [S+"small.c", I+"small.h"],
 [("waste accounting and pool activation", "small.c: small_mempool_activate, small_mempool_deactivate"),
  ("sweep on out of memory", "small.c: smalloc"),
  ("statistics", "small.c: small_stats")],
 [("groups", "pools sharing a slab order", "small.h")],
 ["small_stats", "slab_cache_used after teardown", "quota_used"])

prop("C13", "Region memory is stable, savepoints are exact and callbacks are truthful",
 "Memory obtained from a region is writable, aligned as requested, disjoint from everything else obtained and keeps its contents until it is truncated away or the region is reset or freed; truncating to a savepoint frees exactly what was allocated after it, and joining returns one contiguous copy of the latest bytes in order. The used size equals the sum of what was allocated and not released at every step, and after reset the region is empty while its blocks stay available for reuse. Allocation and truncation callbacks are called with exactly the sizes allocated and released, a refused allocation leaves the region as it was, and freeing the region gives all its memory back.",
 ["histories", "fault_sequences", "configurations"],
 "all sequences of reserve/alloc/aligned alloc/truncate/join/reset/free, sizes crossing slab boundaries, refusals at any point",
 "test/region.c covers a dozen hand-written sequences with no failing allocation.",
 [S+"region.c", I+"region.h"],
 [("slab list with used counters", "region.c: region_reserve_slow, region_truncate, region_join"),
  ("callbacks", "region.h: region_alloc, region_truncate")],
 [("slabs", "list of region slabs and their used sizes", "region.h")],
 ["returned pointers and contents", "region_used", "callback arguments"])

prop("C14", "Log-structured region keeps live ids, collects dead ones and accounts",
 "Memory allocated with an identifier from a log-structured region stays valid and unchanged until garbage collection is asked to drop that identifier or a higher one, whatever mix of sizes, alignments and unused reservations was used. After collection up to an identifier, memory whose newest identifier is not above it is given back or kept as at most one cached block, and the reported used and total sizes are exact: used drops to zero with no live data and everything is returned on destruction. A refused allocation leaves the allocator unchanged.",
 ["histories", "fault_sequences", "inputs"],
 "all alloc/reserve/collect histories with non-decreasing identifiers, sizes below and above a slab, refusals at any point",
 "test/lsregion.c uses fixed patterns and uniform sizes, without refusals and rarely with reuse of the cached block.",
 [S+"lsregion.c", I+"lsregion.h"],
 [("slab list ordered by identifier", "lsregion.c: lsregion_aligned_reserve_slow"),
  ("collection", "lsregion.h: lsregion_gc"), ("cached slab", "lsregion.h: lsregion_gc")],
 [("slabs", "slabs with their newest id", "lsregion.h: struct lsregion")],
 ["contents of live allocations", "lsregion_used, lsregion_total", "arena/quota usage"])

prop("C15", "Flushing a log-structured region yields each byte once and in order",
 "Exporting a log-structured region into an I/O vector from a savepoint yields the bytes allocated since that savepoint completely, exactly once and in allocation order, up to the vector's capacity, and the returned savepoint lets the next export continue without gap or overlap. This holds across vector sizes, garbage collection of already exported data between exports, reuse of cached blocks and very large allocations.",
 ["histories", "inputs"],
 "all interleavings of allocate/export/collect steps, vector capacities from one entry up, sizes from bytes to more than a slab",
 "The unit test exports from one simple layout; the failure window needs collection, reuse of a cached block and a large allocation between two exports.",
 [S+"lsregion.c", I+"lsregion.h"],
 [("savepoint of slab id and offset", "lsregion.h: struct lsregion_svp, lsregion_svp_create"),
  ("walk from newest slab", "lsregion.c: lsregion_to_iovec")],
 [("slab_id", "sequence number of a slab", "lsregion.h")],
 ["I/O vector contents versus reference byte log"])

prop("C16", "The input buffer is an exact byte queue across growth and failure",
 "Bytes written into the input buffer's reserved space are read back in order, unchanged and exactly once, however reading, reserving, consuming from the front, discarding from the tail and shrinking interleave; used, unused and capacity always describe the real state. A successful reservation provides at least the requested contiguous space, a refused one leaves the buffered data intact and readable, and shrinking or resetting never loses unread bytes it promises to keep. Destroying or reinitialising the buffer gives its memory back.",
 ["histories", "fault_sequences", "inputs"],
 "all operation histories, sizes around capacity doublings and up to absurdly large, slab refusals at any reservation or shrink",
 "test/ibuf.c checks a few fixed sequences and never lets an allocation fail.",
 [S+"ibuf.c", I+"ibuf.h"],
 [("compaction or doubling", "ibuf.c: ibuf_reserve_slow"), ("shrink", "ibuf.c: ibuf_shrink"),
  ("position pointers", "ibuf.h: ibuf_alloc, ibuf_consume, ibuf_discard")],
 [("rpos/wpos", "unread data", "ibuf.h: struct ibuf")],
 ["buffer contents versus reference byte queue"])

prop("C17", "The output buffer keeps exact bytes across savepoints and rollbacks",
 "The I/O vectors of the output buffer always contain exactly the bytes appended and not rolled back, in order, with the reported size and vector count matching, for any mix of duplicated data, allocated and reserved space, savepoints and rollbacks to any still valid savepoint. Rolling back restores precisely the state at the savepoint, resetting empties the buffer while keeping it usable, and destroying it gives its memory back. If memory is refused in the middle of an append, what was appended before stays intact and rolling back to a savepoint still works.",
 ["histories", "fault_sequences", "inputs"],
 "all append/reserve/savepoint/rollback/reset histories, sizes crossing vector boundaries, slab refusals at any append",
 "test/obuf.c runs one random workload with unlimited memory and no reservation failures.",
 [S+"obuf.c", I+"obuf.h"],
 [("doubling vectors", "obuf.c: obuf_alloc_slow, obuf_dup"),
  ("savepoints", "obuf.h: obuf_create_svp; obuf.c: obuf_rollback_to_svp")],
 [("pos/iov/used", "current vector, contents and size", "obuf.h: struct obuf")],
 ["I/O vector contents versus reference byte log", "obuf_size, obuf_iovcnt"])

prop("C18", "Output published by a savepoint stays put while appending goes on",
 "Once a savepoint has been taken, the bytes before it keep their addresses and values until a rollback, reset or destruction that discards them, however much is appended afterwards and even if appends fail. Another thread that was handed the savepoint can therefore transmit those bytes straight from the buffer while the owner keeps appending.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of a reading thread with an appending thread at memory-access granularity, refusals of new vectors included",
 "The unit tests are single-threaded and never look at the vectors in the middle of an append.",
 [S+"obuf.c", I+"obuf.h"],
 [("append-only vectors that are never reallocated once filled", "obuf.c: obuf_alloc_pos, obuf_reserve_slow_nothrow")],
 [("iov", "vector array", "obuf.h: struct obuf")],
 ["bytes seen by the reader through the savepoint"])

prop("C19", "Every matras block id addresses its own stable block",
 "For every block identifier handed out and not deallocated, looking it up returns the same properly sized block with the contents last written through the current version, whatever sequence of single and range allocations and deallocations happened before; distinct identifiers never share memory in the same version. Memory returned by a touch stays the block's memory, whatever else is touched, until another view is created. Allocation hands out consecutive identifiers, reports failure when the extent allocator refuses or the capacity limit is reached, and a failed call changes neither the identifiers nor any contents.",
 ["histories", "configurations", "fault_sequences"],
 "all alloc/alloc_range/dealloc/touch histories, all legal extent and block sizes, extent refusals at any point",
 "test/matras.cc allocates extents that never fail except for one simple pattern and two geometries.",
 [S+"matras.c", I+"matras.h"],
 [("three-level extent tree", "matras.c: matras_alloc, matras_dealloc, matras_alloc_range"),
  ("rollback of partially allocated levels", "matras.c: matras_alloc")],
 [("head.block_count/root", "current version", "matras.h: struct matras")],
 ["matras_get results and block contents"])

prop("C20", "Matras read views are immutable snapshots",
 "A read view shows, for its whole life and for every block that existed when it was created, exactly the contents at that moment, no matter what is touched, written, allocated or deallocated afterwards, how many other views are created and destroyed in any order, and which extent allocations fail. Reading through a view is safe from another thread while the owner modifies the current version, and the current version is never affected by views coming and going.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of reader threads with the owner's touches and writes, all creation/destruction orders of views, extent refusals during copy-on-write",
 "matras.cc checks a limited script of views single-threaded; concurrent reads during copy-on-write are not exercised at all.",
 [S+"matras.c", I+"matras.h"],
 [("copy-on-write along the path", "matras.c: matras_touch, matras_touch_no_check"),
  ("list of views", "matras.c: matras_create_read_view, matras_destroy_read_view")],
 [("view list", "head and read views with their roots", "matras.h: struct matras_view")],
 ["matras_view_get results and block contents"])

prop("C21", "Matras extents are accounted exactly, never leaked or freed twice",
 "The extents held equal those requested minus those given back, the reported extent count is exact, each extent is freed exactly once and only when neither the current version nor any view needs it, while no view exists exactly the extents the blocks need (plus reserved ones) are held, and after destroying all views and the structure nothing remains. Blocks for which touch space was reserved can be touched without any further extent being refused, and a refused touch leaves every version readable and accounted for.",
 ["histories", "fault_sequences", "configurations"],
 "all histories of allocation, touch, reservation and view creation/destruction in any order, extent refusals anywhere",
 "The leak check in matras.cc runs at the end of a few scripts; sharing patterns between three or more versions of different sizes are not covered.",
 [S+"matras.c", I+"matras.h"],
 [("sharing rules at view destruction", "matras.c: matras_destroy_read_view"),
  ("reserve list", "matras.c: matras_touch_reserve; matras.h: struct matras_allocator")],
 [("extent_count", "number of extents held", "matras.h: struct matras")],
 ["calls to the extent allocator", "matras_extent_count"])

prop("C22", "The static buffer is private per thread and holds its latest strings",
 "Memory obtained from the static buffer of one thread is never handed to or overwritten by another thread. Within a thread a request of up to the buffer size succeeds, stays inside the buffer, and its contents survive until enough further requests have been made to wrap around; larger requests fail cleanly without disturbing the buffer. Aligned requests are aligned.",
 ["schedules", "histories", "inputs"],
 "all interleavings of several threads' requests, all sizes and alignments",
 "test/static.c is single-threaded with fixed sizes.",
 [S+"static.c", I+"static.h"],
 [("thread-local storage", "static.c"), ("cyclic allocation", "static.h: static_reserve, static_alloc")],
 [("static_storage_pos", "next free position", "static.h")],
 ["returned pointers and contents per thread"])

prop("C23", "All allocators together stay inside one quota and give everything back",
 "With several threads each running their own caches, pools, regions, buffers and block arrays over shared arenas and one quota, the arena slabs, heap blocks and leases handed out on behalf of the quota never exceed what is charged to it at any moment (memory an arena preallocated is charged when its slabs are first used), the charge never exceeds the limit, and no allocator ever sees another's memory change. Exhaustion in one thread only ever makes requests return failure, never corrupts or deadlocks another, and requests succeed again after memory has been released. When every component is destroyed, in any legal order, the charge and all memory are back to zero.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "all interleavings of threads over the whole allocator stack with quota exhaustion, mmap and malloc failures and stalled threads",
 "There is no test that runs the allocators together, in several threads, against a shared exhausted quota or a failing OS.",
 [S+"slab_arena.c", S+"slab_cache.c", S+"mempool.c", S+"small.c", S+"region.c", S+"lsregion.c", S+"ibuf.c", S+"obuf.c", S+"matras.c", I+"quota.h"],
 [("hierarchy arena - slab cache - allocators under one quota", "slab_arena.c, slab_cache.c"),
  ("error propagation", "all *_alloc functions")], None,
 ["simulated OS ledger versus quota_used", "contents of all live objects"])

prop("C24", "The AddressSanitizer build keeps the same contracts and fences memory",
 "In the AddressSanitizer flavour every allocator gives the same functional guarantees (exclusive and aligned memory, contents kept, identifiers and savepoints honoured, accounting, everything returned), and in addition exactly the requested bytes are addressable: bytes before and after an object, freed objects and space released by truncation, rollback or collection are fenced, and memory is not aligned better than asked for. Several threads may use their own allocators concurrently. Wrong use is reported through the assertion callback before it takes effect: an object released to a pool, allocator, slab cache or arena it does not belong to (also one created by another thread at the same time), a slab cache used by another thread than its own, an object released with a wrong size, a damaged byte in front of an object, an allocation larger than or aligned differently from the reservation it consumes, a second reservation on top of a pending one.",
 ["histories", "schedules", "inputs"],
 "all histories of each allocator, object sizes and alignments, several threads",
 "Existing unit tests of this flavour check single poisoning examples; whether every freed or trailing byte is fenced over arbitrary histories is not tested.",
 [S+"small_asan.c", S+"slab_cache_asan.c", S+"slab_arena_asan.c", S+"mempool_asan.c", S+"region_asan.c", S+"lsregion_asan.c", S+"obuf_asan.c", I+"small_asan.h"],
 [("per-object heap blocks with poisoned surroundings", "small_asan.c: small_asan_alloc, small_asan_free"),
  ("allocator identity tags and guard bytes", "mempool_asan.c, small_asan.c, util.c: small_asan_reserve_id, small_asan_free")], None,
 ["fence state of every byte around objects", "object contents"])

prop("C25", "The intrusive red-black tree stays ordered and balanced",
 "After any sequence of insertions, removals and iterator steps the intrusive red-black tree contains exactly the inserted and not removed elements, iterates them in order in both directions, finds bounds correctly and keeps logarithmic depth; augmented data is kept up to date.",
 ["histories"], "all insertion/removal histories",
 "rb_rand.cc and rb_aug.c sample random histories.",
 [I+"rb.h"], [("left-leaning red-black balancing macros", "rb.h: rb_gen and variants")], None, ["iteration results"])

prop("C26", "Intrusive lists keep exactly their members in order",
 "Intrusive doubly and singly linked lists contain exactly the inserted and not removed members in insertion order after any sequence of insertions, removals, moves, splices, swaps and cuts.",
 ["histories"], "all operation histories",
 "rlist.c covers fixed sequences.",
 [I+"rlist.h", I+"lifo.h"], [("link updates", "rlist.h, lifo.h")], None, ["iteration results"])

prop("C27", "Size classes are monotone, cover every size and keep bounded waste",
 "For every granularity, growth factor and minimum size, the size-class function maps each size to the smallest class not below it, classes grow strictly, are multiples of the granularity and their ratio stays within the reported actual growth factor.",
 ["inputs", "configurations"], "all granularities, factors and sizes",
 "small_class.c test compares a few factors against a naive loop.",
 [S+"small_class.c", I+"small_class.h"], [("bit arithmetic", "small_class.h: small_class_calc_offset_by_size, small_class_calc_size_by_offset")], None, ["class sizes"])

prop("C28", "Feature probes tell the truth and leave nothing behind",
 "small_test_feature() says that a feature is supported only if it is compiled in and the running system really provides it, and says that it is not only if that is so or if a system call needed to find out was refused during this very call: an earlier or concurrent failure is not remembered. An unknown feature is never supported. Whatever system calls fail, a probe leaves no mapping behind and disturbs no other memory, also when several threads probe at once. Where the probe says that memory can be kept out of core dumps, arenas which ask for that get it for every slab.",
 ["fault_sequences", "schedules", "inputs", "configurations"],
 "all sequences of refused mmap and madvise calls, systems with and without the feature, all page sizes, all feature numbers, any number of threads",
 "The unit test calls the probe once on the system it runs on, where nothing fails.",
 [S+"small_features.c", I+"small_features.h", S+"slab_arena.c"],
 [("probing with a real page", "small_features.c: test_dontdump"), ("compiled-in mask", "small_features.c: small_test_feature"), ("use of the feature", "slab_arena.c: madvise_checked")], None,
 ["result of the probe", "mapped memory", "core dump exclusion of pages"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
