/* Fixed-size object pools under exhaustion and refusals (C09, C10; C24 in the ASAN flavour). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "pool";

enum { ALLOC, BURST, FREE, FREEMANY, FREESLAB, DRAIN, VERIFY, STATS, EXHAUST, RELIEVE, HOG, UNHOG, RECREATE, MISUSE };
struct Pool : Scenario {
	Env e;
	struct Obj { char *p; uintptr_t base; };
	struct P { void *p = nullptr; bool dead = false; unsigned size = 0; int order = 0; size_t slab = 0, per = 0; std::vector<Obj> live; std::map<uintptr_t, size_t> at; };
	std::vector<P> pools[9];
	std::vector<void *> hog[9]; std::vector<int> hogo[9];
	Tracker t{"C09,C24", "object"};
	bool asan; const char *P9, *P10;
	int inflight = 0;
	void gen(Rng &r) override {
		asan = c->variant == "asan";
		Env::gen(c, r);
		long th = r.p(0.6) ? 1 : r.r(2, 3), s = c->get("slab"), pg = c->get("page");
		bool huge = !asan && r.p(0.002);	/* more objects in a slab than 16 bits can count */
		if (huge) { th = 1; c->set("slab", s = r.pick({1L << 20, 2L << 20})); c->set("pre", r.p(0.5) ? 0 : s); c->set("limit", r.p(0.5) ? s * r.r(1, 3) : 256L << 20); }
		bool vast = c->variant == "ndebug" && !huge && r.p(0.0015);	/* slabs and pools whose sizes need more than 32 bits */
		if (vast) { th = 1; s = r.pick({512L << 20, 1L << 30, 2L << 30}); c->set("slab", s); c->set("pre", r.p(0.7) ? 0 : s); c->set("limit", r.p(0.4) ? r.r(3, 8) * s : 1L << 40); }
		c->set("threads", th); c->set("huge", huge); c->set("vast", vast);
		long np = huge || vast ? 1 : r.r(1, 3);
		c->set("np", np);
		for (int i = 0; i < np; i++) {
			long maxo = 0; while ((pg << (maxo + 1)) <= s) maxo++;
			long ord = r.p(0.25) ? -1 : r.p(0.6) ? 0 : r.r(0, maxo);
			long room = (ord < 0 ? s : pg << ord) - 128, sz;
			switch (r.u(5)) {
			case 0: sz = r.r(8, 64); break;
			case 1: sz = 8 * r.r(1, 200); break;
			case 2: sz = 1L << r.r(3, 10); break;
			case 3: sz = room / r.r(1, 20) - r.r(0, 16); break;
			default: sz = r.r(100, 1500); break;
			}
			if (huge) { ord = maxo - (r.p(0.3) && s > 1 << 20); sz = r.r(8, 15); room = (pg << ord) - 128; }
			if (vast) { ord = maxo - r.r(0, 1); room = (pg << ord) - 128; sz = r.p(0.5) ? room / r.r(1, 5) - r.r(0, 40) : r.r(65L << 20, 300L << 20); }
			if (ord < 0 && sz > s / 8) sz = s / 8;
			sz = std::max(8L, std::min(sz, room));
			char n[8]; snprintf(n, 8, "sz%d", i); c->set(n, sz);
			snprintf(n, 8, "or%d", i); c->set(n, ord);
		}
		long per = huge ? r.r(3, 8) : th == 1 ? r.r(4, 50) : r.r(3, 14);
		double pf = r.pick({0.25, 0.4, 0.55});
		for (long i = 0; i < per; i++)
			for (long k = 1; k <= th; k++) {
				long x = r.u(100); int code;
				if (r.p(pf)) code = x < 45 ? FREE : x < 70 ? FREEMANY : x < 92 ? FREESLAB : DRAIN;
				else code = x < 35 ? ALLOC : x < 68 ? BURST : x < 72 ? VERIFY : x < 78 ? STATS : x < 85 ? EXHAUST : x < 91 ? RELIEVE : x < 95 ? (asan ? MISUSE : HOG) : x < 98 ? (asan ? MISUSE : UNHOG) : RECREATE;
				c->add((int)k, code, (long)r.u(np), (long)r.u(1 << 20), (long)r.u(8));
			}
	}
	void setup() override {
		e.setup(this); asan = e.asan;
		P9 = asan ? "C24" : "C09"; P10 = asan ? "C24" : "C10";
		if (asan) t.props = "C24";
	}
	void mk(int th, P &p, int i) {
		char n[8]; snprintf(n, 8, "sz%d", i); p.size = (unsigned)cfg(n); snprintf(n, 8, "or%d", i); long ord = cfg(n);
		if (!p.p) p.p = os_alloc(x_pool_sizeof());
		p.dead = true;
		inflight++;
		if (asan) { x_pool_create(p.p, e.cache[th], p.size); }
		else {
			if (ord < 0) x_pool_create(p.p, e.cache[th], p.size);
			else x_pool_create_order(p.p, e.cache[th], p.size, (int)std::min(ord, (long)x_scache_order_max(e.cache[th])));
			p.order = x_pool_order(p.p); p.slab = e.slab_size(th, p.order); p.per = (p.slab - x_pool_hdr()) / p.size;
		}
		inflight--;
		p.dead = false;
		CHECK(x_pool_is_init(p.p), P9, "init", "a created pool does not look initialised");
	}
	void begin(int th) override {
		e.mkcache(th);
		pools[th].resize(cfg("np"));
		for (int i = 0; i < cfg("np"); i++) mk(th, pools[th][i], i);
	}
	size_t nslabs(P &p) { if (p.dead) return 0; size_t s[6]; x_pool_stats(p.p, s); return s[3]; }
	bool get(int th, P &p) {
		size_t n0 = asan ? 0 : nslabs(p);
		long av0 = e.avail(); uint64_t x0 = now(); (void)x0;
		int alone = inflight++ == 0;
		char *o = (char *)x_pool_alloc(p.p);
		inflight--;
		ev(o != nullptr);
		if (!o) {
			cover("object_refused");
			size_t n1 = nslabs(p);
			CHECK(n1 == n0, P9, "refusal-effect", "a refused allocation changed the number of slabs from %zu to %zu", n0, n1);
			CHECK(p.live.size() >= n1 * p.per, P10, "refused-with-free-slot", "an object was refused although only %zu of %zu slots in %zu slabs are occupied", p.live.size(), n1 * p.per, n1);
			if (nthreads() == 1 && alone) {
				CHECK(th_mmap_failed() > 0 || av0 < (long)e.slab, P10, "refused-without-reason", "an object was refused although the quota has %ld bytes and no mapping was refused", av0);
				if (!th_mmap_failed()) {
					NoFaults nf;
					void *s = x_slab_get_order(e.cache[th], p.order);
					CHECK(!s, P10, "refused-with-free-slab", "an object was refused although the slab cache has a free slab for the pool");
					if (s) x_slab_put_order(e.cache[th], s);
				}
			}
			stats(p);
			return false;
		}
		size_t align = (size_t)1 << __builtin_ctz(p.size);
		
		if (align > (asan ? 4096 : e.page)) align = asan ? 4096 : e.page;	/* documented cap */
		t.add(o, p.size, align);
		if (asan) { check_fence(o, p.size, "object"); check_exact_align(o, align, "object"); }
		else {
			uintptr_t base = (uintptr_t)o & ~(p.slab - 1);
			CHECK((uintptr_t)o >= base + x_pool_hdr() && (uintptr_t)o + p.size <= base + p.slab, P9, "outside-slab", "object at %p leaves the usable part of its slab", o);
			p.live.push_back(Obj{o, base}); p.at[base]++;
			CHECK(p.at[base] <= p.per, P9, "too-many", "%zu objects in a slab for %zu", p.at[base], p.per);
			return true;
		}
		p.live.push_back(Obj{o, 0});
		return true;
	}
	void put(P &p, size_t k) {
		Obj o = p.live[k];
		p.live[k] = p.live.back(); p.live.pop_back();
		t.remove(o.p);
		inflight++;
		x_pool_free(p.p, o.p);
		inflight--;
		if (asan) check_gone(o.p, p.size, "object");
		else if (!--p.at[o.base]) p.at.erase(o.base);
	}
	void stats(P &p) {
		size_t s[6]; x_pool_stats(p.p, s);
		size_t n = p.live.size();
		CHECK(s[0] == p.size && s[1] == n && s[4] == n * p.size, P9, "stats", "statistics report %zu objects of %zu bytes, %zu bytes used; %zu objects of %u bytes are live", s[1], s[0], s[4], n, p.size);
		CHECK(x_pool_count(p.p) == n && x_pool_used(p.p) == n * p.size, P9, "stats", "count %zu used %zu with %zu live objects of %u bytes", x_pool_count(p.p), x_pool_used(p.p), n, p.size);
		if (asan) return;
		CHECK(s[2] == p.slab, P9, "stats", "slab size %zu reported, expected %zu", s[2], p.slab);
		CHECK(x_pool_total(p.p) == s[3] * p.slab && s[5] == s[3] * (p.slab - x_pool_hdr()), P9, "stats", "total %zu/%zu for %zu slabs", x_pool_total(p.p), s[5], s[3]);
		CHECK(s[3] >= p.at.size(), P9, "stats", "%zu slabs reported, live objects sit in %zu", s[3], p.at.size());
		CHECK(s[3] <= p.at.size() + 1, P10, "empty-slabs-kept", "the pool holds %zu slabs, only %zu contain live objects", s[3], p.at.size());
	}
	void ledger(int th) {
		if (asan) return;
		size_t want = 0;
		for (auto &p : pools[th]) want += nslabs(p) * p.slab;
		for (int o : hogo[th]) want += e.slab_size(th, o);
		size_t u = x_scache_used(e.cache[th]);
		CHECK(u == want, P9, "slab-ledger", "the slab cache has %zu bytes in use, pools and direct users hold %zu", u, want);
	}
	void exec(int th, const Op &o) override {
		P &p = pools[th][o.a % pools[th].size()];
		Rng r(mix(o.b, 5));
		switch (o.code) {
		case ALLOC: get(th, p); break;
		case BURST: {
			size_t n = asan ? 1 + r.u(20) : r.p(0.5) ? 1 + r.u(p.per + 3) : p.per * (1 + r.u(3)) + r.u(3);
			if (nthreads() > 1) n = 1 + r.u(std::min(p.per + 2, (size_t)25));
			n = std::min(n, (size_t)(nthreads() > 1 ? 40 : cfg("huge") ? std::max<long>(0, 300000 - (long)p.live.size() / 2) : cfg("vast") ? 24 : 400));
			int fails = 0;
			while (n-- && fails < 2) fails += !get(th, p);
			break;
		}
		case FREE: if (!p.live.empty()) put(p, r.u(p.live.size())); break;
		case FREEMANY: {
			size_t n = p.live.size(); if (!n) break;
			n = 1 + r.u(n);
			for (size_t i = 0; i < n; i++) put(p, o.c < 3 ? r.u(p.live.size()) : o.c < 5 ? p.live.size() - 1 : 0);
			break;
		}
		case FREESLAB: {	/* all or all but a few objects of one slab */
			if (p.live.empty()) break;
			uintptr_t b = p.live[r.u(p.live.size())].base;
			size_t leave = o.c < 4 ? 0 : o.c < 6 ? 1 : r.u(p.per + 1);
			if (o.c == 5) leave = p.per - p.per / 8 - r.u(2);
			for (size_t i = p.live.size(); i-- > 0; ) {
				if (i >= p.live.size() || p.live[i].base != b) continue;
				if (leave && p.at[b] <= leave) break;
				put(p, i);
				if (!p.at.count(b)) { if (!asan) break; }
			}
			break;
		}
		case DRAIN: while (!p.live.empty()) put(p, o.c & 1 ? r.u(p.live.size()) : p.live.size() - 1); break;
		case VERIFY: t.verify_all(); break;
		case STATS: break;
		case EXHAUST: if (!asan) { inflight++; e.exhaust(); inflight--; cover("exhausted"); } break;
		case RELIEVE: {
			inflight++; e.relieve(); inflight--;
			if (asan || nthreads() > 1) break;
			if (e.avail() >= (long)e.slab) {
				NoFaults nf;
				bool ok = get(th, p);
				CHECK(ok, P10, "no-recovery", "an object is refused although memory is available again");
				cover("recovered");
			}
			break;
		}
		case HOG: if (!asan) {
			int ord = (int)(o.b % (x_scache_order_max(e.cache[th]) + 1));
			void *s = x_slab_get_order(e.cache[th], ord);
			if (s) { t.add(x_slab_data(s), x_slab_capacity(s), 8); hog[th].push_back(s); hogo[th].push_back(ord); }
			break;
		} break;
		case UNHOG: if (!hog[th].empty()) unhog(th); break;
		case MISUSE: {	/* an object of this pool given to another one, of this thread or another */
			if (!asan || p.live.empty()) break;
			std::vector<P *> all; for (auto &v : pools) for (auto &x : v) if (&x != &p && x.p && !x.dead) all.push_back(&x);
			if (all.empty()) break;
			P &w = *all[r.u(all.size())];
			char *obj = p.live[r.u(p.live.size())].p;
			misuse("wrong-pool", "an object released to a pool it does not belong to", [&] { x_pool_free(w.p, obj); });
			break;
		}
		case RECREATE: {
			if (asan) while (!p.live.empty()) put(p, 0);
			destroy(p);
			ledger(th);
			mk(th, p, (int)(o.a % pools[th].size()));
			break;
		}
		}
		stats(p);
		ledger(th);
	}
	void unhog(int th) {
		void *s = hog[th].back(); hog[th].pop_back(); hogo[th].pop_back();
		t.remove(x_slab_data(s)); x_slab_put_order(e.cache[th], s);
	}
	void destroy(P &p) {
		for (auto &o : p.live) t.remove(o.p);
		p.live.clear(); p.at.clear();
		p.dead = true;
		x_pool_destroy(p.p);
		CHECK(!x_pool_is_init(p.p), P9, "init", "a destroyed pool looks initialised");
	}
	/* bytes in front of an object that cannot be fenced are guarded by their contents */
	void damaged(int th) {
		Rng r(mix(cfg("salt"), th));
		unsigned size = (unsigned)r.r(1, 200); if (size % 8 == 0) size++;
		void *p = os_alloc(x_pool_sizeof());
		x_pool_create(p, e.cache[th], size);
		char *o = (char *)x_pool_alloc(p);
		size_t gap = (uintptr_t)o & 7;
		if (gap) {
			char *b = o - 1 - r.u(gap), old = *b;
			*b ^= (char)r.r(1, 255);
			misuse("damage", "a write in front of an object", [&] { x_pool_free(p, o); });
			*b = old;
			cover("damage_in_front");
		}
		x_pool_free(p, o);
		x_pool_destroy(p);
		os_release(p);
	}
	const char *opname(int k) override { static const char *n[] = {"alloc", "burst", "free", "free_many", "free_slab", "drain", "verify", "stats", "exhaust", "relieve", "hog", "unhog", "recreate", "misuse"}; return n[k]; }
	void end(int th) override {
		if (asan || (cfg("salt") & 1)) for (auto &p : pools[th]) { while (!p.live.empty()) put(p, cfg("salt") % p.live.size()); stats(p); }
		while (!hog[th].empty()) unhog(th);
		for (auto &p : pools[th]) destroy(p);
		pools[th].clear();
		if (asan) damaged(th);
		size_t u = x_scache_used(e.cache[th]);
		CHECK(u == 0, P9, "not-returned", "%zu bytes of slabs are in use after the pools were destroyed", u);
		x_scache_destroy(e.cache[th]);
	}
	void finish() override { e.finish(P9); count_nontrivial(); }
};
Scenario *sim::make_scenario() { return new Pool; }
