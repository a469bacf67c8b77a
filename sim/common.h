/* What most scenarios share: a quota, an arena and one slab cache per thread. */
#pragma once
#include "engine.h"
#include "shim/shim.h"
#include <algorithm>
namespace sim {

struct Env {
	void *q = nullptr, *arena = nullptr, *cache[9] = {0};
	size_t slab = 0, page = 0, hdr = 0, limit = 0;
	bool asan = false;
	/* fill the configuration; tight: likely to run out of quota */
	static void gen(Case *c, Rng &r, bool tight_ok = true) {
		bool asan = c->variant == "asan";
		c->set("page", r.pick({4096, 4096, 4096, 16384}));
		long s = r.pick({65536, 65536, 65536, 131072, 262144});
		c->set("slab", s);
		c->set("pre", r.p(0.6) ? 0 : r.r(1, 2) * s);
		c->set("limit", tight_ok && !asan && r.p(0.4) ? r.r(1, 8) * s : 256L << 20);
		if (!asan) {
			if (r.p(0.35)) c->set("fr_mmap", r.pick({50, 200, 500}));
			if (r.p(0.35)) c->set("fr_malloc", r.pick({50, 200, 500}));
			if (r.p(0.2)) c->set("fr_madv", 200);
		}
		if (r.p(0.2)) c->set("fr_cas", r.pick({50, 200}));
	}
	void setup(Scenario *s) {
		asan = x_is_asan(); x_asan_init();
		slab = (size_t)s->cfg("slab"); page = os_page(); hdr = x_slab_hdr();
		limit = (size_t)s->cfg("limit");
		q = os_alloc(x_quota_sizeof()); arena = os_alloc(x_arena_sizeof());
		x_quota_init(q, limit);
		NoFaults nf;
		x_arena_create(arena, q, (size_t)s->cfg("pre"), (unsigned)slab, x_arena_flags(0, 0, 0));
	}
	void *mkcache(int th) {
		if (!cache[th]) cache[th] = os_alloc(x_scache_sizeof());
		x_scache_create(cache[th], arena);
		return cache[th];
	}
	size_t slab_size(int th, int order) { return asan ? 0 : x_scache_order_size(cache[th], order); }
	/* no more memory beyond what is used now */
	void exhaust() { x_quota_set(q, x_quota_used(q)); }
	void relieve() { x_quota_set(q, limit); }
	long avail() { return peek([&] { return (long)x_quota_total(q) - (long)x_quota_used(q); }); }
	/* all caches destroyed: everything must be back */
	void finish(const char *props) {
		CHECK(os_heap_live() == 0, props, "leak", "%zu bytes of heap remain in %zu blocks after everything was destroyed", os_heap_live(), os_heap_blocks());
		if (asan) {
			CHECK(x_quota_used(q) == 0, props, "quota-leak", "after everything was destroyed quota usage is %zu", x_quota_used(q));
			return;
		}
		size_t used = x_quota_used(q), au = x_arena_used(arena);
		CHECK(used == au, props, "quota-leak", "after everything was destroyed quota usage is %zu, arena usage %zu", used, au);
		x_quota_set(q, used);
		std::vector<void *> got; void *p;
		while ((p = x_slab_map(arena))) got.push_back(p);
		CHECK(got.size() * slab == au, props, "slab-leak", "%zu of %zu arena slabs came back", got.size(), au / slab);
		for (void *g : got) x_slab_unmap(arena, g);
		x_arena_destroy(arena);
		CHECK(os_mapped() == 0, props, "map-leak", "%zu bytes remain mapped", os_mapped());
	}
};

/* the AddressSanitizer flavour aligns no better than asked for, so that misaligned use shows */
static inline void check_exact_align(const void *p, size_t al, const char *what) {
	CHECK((uintptr_t)p % (2 * al) != 0, "C24", "aligned-too-well", "%s at %p has a better alignment than the %zu asked for", what, p, al);
}
/* AddressSanitizer flavour: exactly [p, p+n) is accessible.  Up to 7 bytes in front of p may be
 * unfenced because fencing works on 8-byte granules. */
static inline void check_fence(const void *p_, size_t n, const char *what) {
	const char *p = (const char *)p_;
	const char *g = (const char *)((uintptr_t)p & ~(uintptr_t)7);
	CHECK(os_poisoned(p + n), "C24", "not-fenced-after", "the byte after a %s of %zu bytes is accessible", what, n);
	CHECK(os_poisoned(g - 1), "C24", "not-fenced-before", "the bytes before a %s of %zu bytes are accessible", what, n);
	if (!n) return;
	CHECK(!os_poisoned(p) && !os_poisoned(p + n - 1) && !os_poisoned(p + n / 2), "C24", "object-fenced", "a live %s of %zu bytes is fenced", what, n);
}
static inline void check_gone(const void *p, size_t n, const char *what) {
	if (!n) return;
	CHECK(os_poisoned(p) && os_poisoned((const char *)p + n - 1) && os_poisoned((const char *)p + n / 2), "C24",
	      "released-accessible", "a released %s of %zu bytes is still accessible", what, n);
}
/* wrong use must end in a failed assertion, before the library acts on it */
template <class F> void misuse(const char *key, const char *what, F f) {
	bool c = os_caught(f);
	cover("misuse_caught", c);
	CHECK(c, "C24", key, "%s is not caught", what);
}
} /* namespace sim */
namespace sim {
/* a stream of bytes written in pieces; every byte of every piece is known */
struct Bytes {
	struct S { size_t n; uint64_t tag; size_t off, all; };	/* bytes off.. of a piece of all bytes */
	std::vector<S> s; size_t head = 0, total = 0; uint64_t next = 1;
	static uint8_t at(uint64_t tag, size_t i) { return (uint8_t)(pat(tag, i >> 3) >> ((i & 7) * 8)); }
	enum { BIG = 8 << 20 };	/* written and checked at both ends only */
	static void put(char *p, size_t n, uint64_t tag) {
		size_t i = 0;
		if (n > BIG) {
			for (; i < 4096; i++) p[i] = (char)at(tag, i);
			i = n - 4096;
		} else
		for (; i + 8 <= n; i += 8) { uint64_t v = pat(tag, i >> 3); memcpy(p + i, &v, 8); }
		for (; i < n; i++) p[i] = (char)at(tag, i);
	}
	uint64_t tag() { return mix(next++, 99); }
	void push(size_t n, uint64_t tag) { if (n) { s.push_back(S{n, tag, 0, n}); total += n; } }
	void pop_back(size_t n) {
		total -= n;
		while (n) { S &b = s.back(); if (b.n > n) { b.n -= n; return; } n -= b.n; s.pop_back(); }
	}
	void pop_front(size_t n) {
		total -= n;
		while (n) { S &b = s[head]; if (b.n > n) { b.n -= n; b.off += n; return; } n -= b.n; head++; }
		if (head == s.size()) { s.clear(); head = 0; }
	}
	void clear() { s.clear(); head = total = 0; }
	/* compare n stream bytes starting at stream offset o; all of them or a sample; -1 or position of damage */
	long cmp(const char *p, size_t o, size_t n, bool full) const {
		size_t k = head, done = 0;
		while (k < s.size() && o >= s[k].n) o -= s[k++].n;
		while (done < n && k < s.size()) {
			const S &b = s[k]; size_t m = std::min(b.n - o, n - done);
			for (size_t i = 0; i < m; ) {
				if (b.all > BIG) { size_t q = b.off + o + i; if (q >= 4096 && q < b.all - 4096) { i = std::min(m, i + (b.all - 4096 - q)); continue; } }
				if ((uint8_t)p[done + i] != at(b.tag, b.off + o + i)) return (long)(done + i);
				if (full || i < 64 || i + 64 >= m) i++; else i = std::min(i + 61, m - 64);
			}
			done += m; o = 0; k++;
		}
		return done < n ? (long)done : -1;
	}
};
}
