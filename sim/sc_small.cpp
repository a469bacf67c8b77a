/* The small object allocator: pool switching, exhaustion, refusals (C11, C12; C24 in the ASAN flavour). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "small";

enum { ALLOC, BURST, FREE, FREESIZE, FREESOME, FREEALL, VERIFY, EXHAUST, RELIEVE, RECREATE, MISUSE };
struct Small : Scenario {
	Env e;
	struct Obj { char *p; size_t n; int pool; };	/* pool: index of the serving pool, -1 large */
	struct A {
		void *s = nullptr; bool up = false; std::vector<Obj> live; std::vector<x_pool_row> rows; std::vector<size_t> cnt; size_t max = 0;
		size_t nsmall = 0, large = 0; std::vector<size_t> waste;
	};
	A al[9];
	Tracker t{"C11,C24", "object"};
	bool asan; const char *P11, *P12; unsigned gran;
	static const int MAXROWS = 1100;
	void gen(Rng &r) override {
		asan = c->variant == "asan";
		Env::gen(c, r);
		if (asan && r.p(0.6)) c->set("limit", (1L << 20) + r.r(0, 2048) * 1024);
		long th = r.p(0.75) ? 1 : 2, s = c->get("slab");
		if (c->get("page") > 4096 && s == 65536) c->set("slab", s = 131072);
		bool vast = c->variant == "ndebug" && r.p(0.002);	/* classes, slabs and totals of gigabytes */
		if (vast) { th = 1; s = r.pick({1L << 30, 2L << 30}); c->set("slab", s); c->set("pre", r.p(0.7) ? 0 : s); c->set("limit", r.p(0.4) ? r.r(3, 8) * s : 1L << 40); c->set("vast", 1); }
		c->set("threads", th);
		long gran = 1L << r.r(0, 6);
		if (r.p(0.4)) gran = 8;
		c->set("gran", gran);
		c->set("factor", r.pick({1010L, 1050L, 1050L, 1100L, 1200L, 1300L, 1500L, 2000L, 1001L + (long)r.u(1000)}));
		if (vast) c->set("factor", r.pick({1200, 1500, 2000}));
		else if (r.p(0.04)) c->set("factor", r.r(1001, 1004));	/* more classes than pools */
		c->set("min", std::max(8L, r.pick({gran, 8L, 16L, 16L, 32L, 64L, (long)r.r(8, 200)})));
		long hot[4]; for (long &h : hot) h = r.p(0.7) ? r.r(1, 600) : r.r(1, s / 16 + 100);
		if (vast) for (int i = 1; i < 4; i++) hot[i] = r.r(64L << 20, s / 16);
		long per = vast ? r.r(4, 25) : th == 1 ? r.r(4, 60) : r.r(3, 12);
		double pf = r.pick({0.2, 0.35, 0.5});
		for (long i = 0; i < per; i++)
			for (long k = 1; k <= th; k++) {
				long x = r.u(100); int code;
				if (r.p(pf)) code = x < 40 ? FREE : x < 65 ? FREESIZE : x < 90 ? FREESOME : FREEALL;
				else code = x < 40 ? ALLOC : x < 84 ? BURST : x < 88 ? VERIFY : x < 93 ? (asan ? MISUSE : EXHAUST) : x < 98 ? RELIEVE : RECREATE;
				long n;
				switch (r.u(6)) {
				case 0: n = r.r(1, 64); break;
				case 1: n = s / 16 + r.r(-200, 200); break;
				case 2: n = code == BURST ? hot[0] : r.r(1, 3) * s + r.r(-60, 60); break;
				case 3: n = r.r(1, s / 16); break;
				default: n = hot[r.u(4)] + (r.p(0.3) ? r.r(-3, 3) : 0); break;
				}
				if (n < 1) n = 1;
				if (vast && n > 1000000 && n < 64 << 20) n = hot[r.u(4)];
				if (r.p(0.01)) n = r.pick({-1L, -48L, -47L, -60L, 1L << 32, (1L << 32) + 8, 4294967295L * 1024, 1L << 44});
				if (asan && (n < 0 || n > (4 << 20))) n = 2000000;
				if (r.p(0.01)) n = 0;
				c->add((int)k, code, n, (long)r.u(1 << 20), (long)r.u(8));
			}
	}
	void setup() override {
		e.setup(this); asan = e.asan; gran = (unsigned)cfg("gran");
		P11 = asan ? "C24" : "C11"; P12 = asan ? "C24" : "C12";
		if (asan) t.props = "C24";
	}
	int rows(A &a, size_t *used, size_t *total) {
		static x_pool_row buf[MAXROWS];
		int n = peek([&] { return x_small_stats(a.s, used, total, buf, MAXROWS); });
		a.rows.assign(buf, buf + n);
		return n;
	}
	void mk(int th) {
		A &a = al[th];
		if (!a.s) a.s = os_alloc(x_small_sizeof());
		float f = (float)cfg("factor") / 1000.0f;
		float af = x_small_create(a.s, e.cache[th], (unsigned)cfg("min"), gran, f);
		a.up = true;
		CHECK(af > 1.0f && af <= 2.0f, P11, "factor", "actual factor %f", af);
		size_t u, tt; int n = rows(a, &u, &tt);
		a.cnt.assign(n, 0); a.waste.assign(n, 0); a.nsmall = a.large = 0; 
		a.max = asan ? (size_t)-1 : a.rows.back().objsize;
		CHECK(u == 0 && (asan || tt == 0), P12, "stats", "a new allocator reports %zu/%zu bytes", u, tt);
		if (asan) return;
		for (int i = 0; i < n; i++) {
			CHECK(a.rows[i].objsize % gran == 0, P11, "class", "pool of %zu bytes with granularity %u", a.rows[i].objsize, gran);
			CHECK(!i || a.rows[i].objsize > a.rows[i - 1].objsize, P11, "class", "pool sizes do not grow: %zu after %zu", a.rows[i].objsize, a.rows[i - 1].objsize);
		}
	}
	void begin(int th) override { e.mkcache(th); mk(th); }
	int cls(A &a, size_t n) {
		int lo = 0, hi = (int)a.rows.size() - 1;
		while (lo < hi) { int m = (lo + hi) / 2; if (a.rows[m].objsize >= n) hi = m; else lo = m + 1; }
		return lo;
	}
	int exact(A &a, size_t sz) { int i = cls(a, sz); return a.rows[i].objsize == sz ? i : -1; }
	bool get(int th, size_t n) {
		A &a = al[th];
		int large = 0;
		size_t real = peek([&] { return x_small_real_size(a.s, nullptr, n, &large); });
		CHECK(real >= n, P11, "info", "allocation info reports a real size of %zu for %zu bytes", real, n);
		CHECK(asan || (large != 0) == (n > a.max), P11, "info", "allocation info says large=%d for %zu bytes, the largest pool has %zu", large, n, a.max);
		int k = -1;
		if (!asan && !large) {
			k = exact(a, real);
			CHECK(k >= 0 && k >= cls(a, n), P11, "info", "real size %zu for %zu bytes does not belong to a suitable pool", real, n);
			if (k < 0) return false;
		}
		long av0 = e.avail();
		char *o = (char *)x_smalloc(a.s, n);
		ev(mix(o != nullptr, n));
		if (!o) { refused(th, n, av0, large); return false; }
		if (k >= 0 && (th_mmap_failed() || av0 < (long)e.slab || nthreads() > 1)) {
			/* reclaiming pools may have changed the one that serves this size */
			size_t u, tt; rows(a, &u, &tt);
			int hit = -1;
			for (size_t i = 0; i < a.rows.size(); i++) if (a.rows[i].objcount == a.cnt[i] + 1) hit = (int)i;
			CHECK(hit >= 0, P12, "stats-pool", "after an allocation of %zu bytes no pool reports one more object", n);
			if (hit >= 0 && hit != k) {
				cover("pool_changed_by_sweep");
				CHECK(hit >= cls(a, n), P11, "class", "an object of %zu bytes comes from the pool of %zu-byte objects", n, a.rows[hit].objsize);
				k = hit;
			}
		}
		bool pooled = !asan && !large;
		if (n) t.add(o, n, asan ? 4 : pooled ? gran : 8); else cover("empty_objects");
		if (asan) { if (n) check_fence(o, n, "object"); check_exact_align(o, 4, "object"); a.nsmall++; a.live.push_back(Obj{o, n, 0}); return true; }
		a.live.push_back(Obj{o, n, large ? -1 : k});
		if (large) a.large += n + e.hdr;
		else {
			a.nsmall++; a.cnt[k]++;
			int c0 = cls(a, n);
			a.waste[c0] += a.rows[k].objsize - a.rows[c0].objsize;
			/* a class switches to a closer pool once it wastes a quarter of a slab */
			CHECK(c0 == k || a.waste[c0] < a.rows[c0].slabsize / 4 + a.rows[k].objsize, P12, "waste", "objects of the %zu-byte class waste %zu bytes in larger pools, a slab has %zu bytes", a.rows[c0].objsize, a.waste[c0], a.rows[c0].slabsize);
			if (c0 != k) cover("served_by_larger_pool"); else cover("served_by_own_pool");
		}
		return true;
	}
	void refused(int th, size_t n, long av0, int large) {
		A &a = al[th];
		long mf = th_mmap_failed();
		cover("object_refused");
		if (asan) {
			CHECK((long)n > av0 || nthreads() > 1, "C24", "refused-without-reason", "%zu bytes were refused although the quota has %ld", n, av0);
			return;
		}
		size_t u, tt; rows(a, &u, &tt);
		if (large) {
			long need = (long)((n + e.hdr + 1023) / 1024 * 1024);
			if (nthreads() == 1 && n < (1UL << 40)) CHECK(th_malloc_failed() > 0 || av0 < need, P12, "refused-without-reason", "a large object of %zu bytes was refused, the quota has %ld bytes and the heap did not refuse", n, av0);
			return;
		}
		/* pools that are empty, not the last of their group and without waste must have been swept */
		for (size_t i = 0; i < a.rows.size(); i++) {
			size_t g = i; while (g > 0 && a.rows[g - 1].slabsize == a.rows[i].slabsize) g--;
			bool last = i + 1 == a.rows.size() || a.rows[i + 1].slabsize != a.rows[i].slabsize || (i - g) % 32 == 31;
			if (last || a.cnt[i] || a.waste[i] >= a.rows[i].slabsize / 4 / 4) continue;
			CHECK(a.rows[i].slabcount == 0, P12, "empty-not-reclaimed", "a request was refused while the unused pool of %zu-byte objects keeps %zu empty slabs", a.rows[i].objsize, a.rows[i].slabcount);
		}
		cover("sweep_checks");
		/* the pool that serves this size now, after the sweep */
		size_t real = peek([&] { return x_small_real_size(a.s, nullptr, n, &large); });
		int k = exact(a, real);
		CHECK(k >= 0 && k >= cls(a, n), P11, "info", "real size %zu for %zu bytes does not belong to a suitable pool", real, n);
		if (k < 0) return;
		size_t slots = a.rows[k].slabcount * ((a.rows[k].slabsize - x_pool_hdr()) / a.rows[k].objsize);
		CHECK(a.cnt[k] >= slots, P12, "refused-with-free-slot", "an object was refused although its pool has %zu free slots", slots - a.cnt[k]);
		if (nthreads() == 1 && !mf) {
			NoFaults nf;
			void *again = x_smalloc(a.s, n);
			CHECK(!again, P12, "refused-at-first", "an object of %zu bytes was refused, and granted when asked again", n);
			if (again) x_smfree(a.s, again, n);
			int o = x_slab_order(e.cache[th], a.rows[k].slabsize);
			void *s = x_slab_get_order(e.cache[th], o);
			CHECK(!s, P12, "refused-with-free-slab", "an object of %zu bytes was refused although a slab for its pool can be obtained", n);
			if (s) x_slab_put_order(e.cache[th], s);
		}
	}
	void put(int th, size_t i) {
		A &a = al[th];
		Obj o = a.live[i];
		a.live[i] = a.live.back(); a.live.pop_back();
		if (o.n) t.remove(o.p);
		x_smfree(a.s, o.p, o.n);
		if (asan) { if (o.n) check_gone(o.p, o.n, "object"); a.nsmall--; return; }
		if (o.pool < 0) a.large -= o.n + e.hdr;
		else {
			int c0 = cls(a, o.n);
			a.nsmall--; a.cnt[o.pool]--; a.waste[c0] -= a.rows[o.pool].objsize - a.rows[c0].objsize;
		}
	}
	void stats(int th) {
		A &a = al[th];
		size_t u, tt; size_t n = (size_t)rows(a, &u, &tt);
		if (asan) {
			size_t b = 0; for (auto &o : a.live) b += o.n;
			CHECK(n == 1 && a.rows[0].objcount == a.live.size() && u == b, "C24", "stats", "%zu bytes and %zu objects reported, %zu bytes and %zu objects are live", u, n ? a.rows[0].objcount : 0, b, a.live.size());
			size_t leased = x_scache_leased(e.cache[th]);
			CHECK(leased >= b && (!a.live.empty() || leased == 0), "C24", "quota", "%zu bytes are leased from the quota for %zu live objects of %zu bytes", leased, a.live.size(), b);
			return;
		}
		CHECK(n == a.cnt.size(), P12, "stats", "%zu pools reported, %zu before", n, a.cnt.size());
		size_t used = 0, total = 0, slabs = 0, objs = 0;
		for (size_t i = 0; i < n; i++) {
			auto &w = a.rows[i];
			CHECK(w.objcount == a.cnt[i], P12, "stats-pool", "the pool of %zu-byte objects reports %zu objects, %zu are live in it", w.objsize, w.objcount, a.cnt[i]);
			used += a.cnt[i] * w.objsize; slabs += w.slabcount * w.slabsize; total += w.slabcount * (w.slabsize - x_pool_hdr()); objs += w.objcount;
			CHECK(w.slabcount * ((w.slabsize - x_pool_hdr()) / w.objsize) >= w.objcount, P12, "stats-pool", "%zu objects of %zu bytes in %zu slabs", w.objcount, w.objsize, w.slabcount);
		}
		CHECK(objs == a.nsmall, P12, "stats", "%zu objects reported, %zu live", objs, a.nsmall);
		CHECK(u == used && tt == total, P12, "stats", "used %zu and total %zu reported, %zu and %zu expected", u, tt, used, total);
		size_t su = x_scache_used(e.cache[th]);
		CHECK(su == slabs + a.large, P12, "slab-ledger", "the slab cache has %zu bytes in use, pools hold %zu and large objects %zu", su, slabs, a.large);
	}
	/* a size at the edge of a size class */
	size_t edge(A &a, Rng &r) {
		size_t n = r.p(0.4) ? a.rows.back().objsize : a.rows[r.u(a.rows.size())].objsize;
		if (asan) n = 1 + r.u(3000);
		n += r.u(3); n--;
		return n ? n : 1;
	}
	void exec(int th, const Op &o) override {
		A &a = al[th];
		Rng r(mix(o.b, 9));
		switch (o.code) {
		case ALLOC: get(th, o.c < 6 ? (size_t)o.a : edge(a, r)); break;
		case BURST: {
			size_t n = o.c == 7 ? edge(a, r) : (size_t)o.a; if (!asan && n > a.max) n = 1 + n % a.max;
			size_t k = asan ? 1 + r.u(12) : 1 + r.u(std::min<size_t>(200, 40000 / (n + 1) + 2));
			if (cfg("vast")) k = n > 1000 ? 1 + r.u(20) : std::min<size_t>(k, 50);
			if (nthreads() > 1) k = std::min<size_t>(k, 30);
			int fails = 0;
			while (k-- && fails < 2) fails += !get(th, o.c == 0 ? 1 + (n + r.u(8)) % (asan ? 4096 : a.max) : n);
			break;
		}
		case FREE: if (!a.live.empty()) put(th, r.u(a.live.size())); break;
		case FREESIZE: {
			if (a.live.empty()) break;
			size_t n = a.live[r.u(a.live.size())].n;
			for (size_t i = a.live.size(); i-- > 0; ) if (i < a.live.size() && a.live[i].n == n) put(th, i);
			break;
		}
		case FREESOME: { size_t k = a.live.size() ? r.u(a.live.size() + 1) : 0; while (k--) put(th, o.c < 4 ? r.u(a.live.size()) : a.live.size() - 1); break; }
		case FREEALL: while (!a.live.empty()) put(th, a.live.size() - 1); break;
		case VERIFY: t.verify_all(); if (!asan) peek([&] { x_small_check(a.s); return 0; }); break;
		case EXHAUST: if (!asan) { e.exhaust(); cover("exhausted"); } break;
		case RELIEVE:
			e.relieve();
			if (asan || nthreads() > 1) break;
			if (e.avail() >= (long)e.slab) {
				NoFaults nf;
				bool ok = get(th, 1 + (size_t)o.a % a.max);
				CHECK(ok, P12, "no-recovery", "an object is refused although memory is available again");
			}
			break;
		case MISUSE: {
			if (!asan || a.live.empty()) break;
			Obj &x = a.live[r.u(a.live.size())];
			int w = 1 + (int)r.u(nthreads());
			if (w != th && al[w].up && r.p(0.7)) misuse("wrong-allocator", "an object released to an allocator it does not belong to", [&] { x_smfree(al[w].s, x.p, x.n); });
			else {
				size_t n = r.p(0.4) ? x.n + 1 : r.p(0.5) && x.n ? x.n - 1 : r.p(0.5) ? x.n + (1UL << r.r(8, 40)) : r.u(4096);
				if (n != x.n) misuse("wrong-size", "an object released with a wrong size", [&] { x_smfree(a.s, x.p, n); });
			}
			break;
		}
		case RECREATE: destroy(th); mk(th); break;
		}
		stats(th);
	}
	void destroy(int th) {
		A &a = al[th];
		for (size_t i = a.live.size(); i-- > 0; ) if (asan || a.live[i].pool < 0) put(th, i);
		for (auto &o : a.live) if (o.n) t.remove(o.p);
		a.live.clear();
		a.up = false;
		x_small_destroy(a.s);
		size_t u = x_scache_used(e.cache[th]);
		CHECK(u == 0, P12, "not-returned", "%zu bytes of slabs are in use after the allocator was destroyed", u);
	}
	const char *opname(int k) override { static const char *n[] = {"alloc", "burst", "free", "free_size", "free_some", "free_all", "verify", "exhaust", "relieve", "recreate", "misuse"}; return n[k]; }
	void end(int th) override {
		A &a = al[th];
		if (cfg("salt") & 1) { while (!a.live.empty()) put(th, cfg("salt") % a.live.size()); stats(th); }
		destroy(th);
		x_scache_destroy(e.cache[th]);
	}
	void finish() override { e.finish(P12); count_nontrivial(); }
};
Scenario *sim::make_scenario() { return new Small; }
