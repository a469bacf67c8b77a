/* Slab caches of several threads over one arena, with OS and heap refusals (C07, C08). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "scache";

enum { GET, GETORD, GETLARGE, PUT, READ, VERIFY, CHECKC, FREEALL, DESTROY, MISUSE };
struct SC : Scenario {
	void *q = nullptr, *arena = nullptr;
	size_t slab, hdr;
	struct Slab { char *s; size_t n; int how; };
	struct Cache {
		void *c = nullptr; bool up = false; std::vector<Slab> live; size_t used = 0; int om = 0;
		size_t large = 0, large_charge = 0; bool ever = false;
		/* used-size history: value and the interval in which it may be current */
		struct V { uint64_t from, to; size_t v; }; std::vector<V> hist;
		/* reads by others that saw an effect of the operation in progress */
		struct Rd { uint64_t a, b; size_t v; }; std::vector<Rd> rd; bool busy = false;
	};
	Cache cc[9];
	Tracker ext{"C07,C24", "slab"}, dat{"C07,C24", "slab contents"};
	int inflight = 0;
	bool asan;
	void gen(Rng &r) override {
		asan = c->variant == "asan";
		long th = r.p(0.45) ? 1 : r.r(2, 3);
		c->set("threads", th);
		c->set("page", r.pick({4096, 4096, 4096, 16384, 65536}));
		long s = r.pick({65536, 65536, 65536, 131072, 262144, 1 << 20});
		if (r.p(0.02)) s = 4 << 20;
		/* more orders than a cache keeps, slabs beyond 32 bits: touched sparsely, so only without memory poisoning */
		bool huge = c->variant == "ndebug" && r.p(0.01);
		if (huge) { th = 1; c->set("threads", 1); c->set("page", r.pick({4096, 4096, 16384})); s = r.pick({128L << 20, 256L << 20, 512L << 20, 1L << 30, 2L << 30}); c->set("huge", 1); }
		c->set("slab", s);
		c->set("pre", r.p(0.5) ? 0 : r.r(1, 3) * s);
		bool tight = r.p(0.6);
		c->set("limit", tight ? r.r(1, 6) * s + r.r(0, 64) * 1024 : 64L << 20);
		if (asan) c->set("limit", 64L << 20);
		if (huge) { c->set("pre", r.p(0.7) ? 0 : s); c->set("limit", r.p(0.5) ? r.r(2, 8) * s : 1L << 40); }
		if (!asan && r.p(0.4)) c->set("fr_mmap", r.pick({50, 200, 500}));
		if (!asan && r.p(0.4)) c->set("fr_malloc", r.pick({50, 200, 500}));
		if (r.p(0.3)) c->set("fr_cas", r.pick({50, 200}));
		long per = th == 1 ? r.r(3, huge ? 30 : 60) : r.r(2, 15);
		double pput = r.pick({0.2, 0.35, 0.5});
		for (long i = 0; i < per; i++)
			for (long t = 1; t <= th; t++) {
				long x = r.u(100);
				int code = r.p(pput) ? PUT : x < 45 ? GET : x < 70 ? GETORD : x < 76 ? GETLARGE : x < 86 ? READ : x < 90 ? VERIFY : x < 97 ? CHECKC : x < 99 ? FREEALL : DESTROY;
				if (asan && code == CHECKC) code = MISUSE;
				long n;
				switch (r.u(6)) {
				case 0: n = r.r(0, 4096); break;
				case 1: n = r.r(0, s); break;
				case 2: n = (c->get("page") << r.r(0, 8)) - 48 + r.r(-60, 60); break;
				case 3: n = s / (1 << r.r(0, 3)) - r.r(0, 200); break;
				case 4: n = s - 56 + r.r(-10, 10); break;
				default: n = r.r(1, 3) * s + r.r(0, 5000); break;
				}
				if (huge && r.p(0.1)) n = r.pick({1L << 32, 5L << 30, (1L << 32) - 48, 4L << 30}) + r.r(-60, 3000);
				if (n < 0) n = 0;
				if (r.p(0.02)) n = r.pick({-1L, -49L, -48L, -56L, -4096L, 0x7fffffffffffffffL, 1L << 33, 4294967295L * 1024, 4294967295L * 1024 - 100, 1L << 43});
				if (asan && n < 0) n = 100;
				if (asan && n > (16 << 20)) n = 100;
				c->add((int)t, code, n, (long)r.u(1000), (long)r.u(1000));
			}
	}
	void setup() override {
		asan = x_is_asan(); x_asan_init();
		if (asan) ext.props = dat.props = "C24";
		slab = (size_t)cfg("slab"); hdr = x_slab_hdr();
		q = os_alloc(x_quota_sizeof()); arena = os_alloc(x_arena_sizeof());
		x_quota_init(q, std::max(cfg("limit"), 1L << (asan ? 20 : 0)));
		NoFaults nf;
		x_arena_create(arena, q, cfg("pre"), (unsigned)slab, x_arena_flags(0, 0, 0));
	}
	void create(int th) {
		Cache &c = cc[th];
		if (!c.c) c.c = os_alloc(x_scache_sizeof());
		x_scache_create(c.c, arena);
		c.om = x_scache_order_max(c.c);
		c.live.clear(); c.used = c.large = c.large_charge = 0; c.up = true; c.ever = c.busy = false; c.rd.clear();
		c.hist.assign(1, Cache::V{now(), ~0ULL, 0});
	}
	void begin(int th) override { create(th); }
	size_t order_of(Cache &c, size_t n) { int o = 0; while (o <= c.om && (asan ? 0 : x_scache_order_size(c.c, o)) < n) o++; return o; }
	void set_used(Cache &c, size_t v, uint64_t inv) {
		c.used = v;
		c.hist.back().to = now();
		c.hist.push_back(Cache::V{inv, ~0ULL, v});
		resolve(c);
	}
	void stale(size_t v) { viol(P8(), "stale-used", "another thread read a used size of %zu which was never current during the read", v); }
	bool was_current(Cache &c, uint64_t a, uint64_t b, size_t v) {
		for (auto &h : c.hist) if (h.v == v && h.from <= b && h.to >= a) return true;
		return false;
	}
	void resolve(Cache &c) {
		c.busy = false;
		for (auto &r : c.rd) if (!was_current(c, r.a, r.b, r.v)) stale(r.v);
		c.rd.clear();
	}
	/* is there an aligned free block of this size inside a maximum-size slab that holds live slabs? */
	bool free_block(Cache &c, size_t size) {
		std::map<uintptr_t, std::vector<std::pair<uintptr_t, size_t>>> m;
		for (auto &s : c.live) if (s.how != 2) m[(uintptr_t)s.s & ~(slab - 1)].push_back({(uintptr_t)s.s, s.n});
		for (auto &k : m)
			for (uintptr_t b = k.first; b < k.first + slab; b += size) {
				bool ok = true;
				for (auto &l : k.second) if (l.first < b + size && b < l.first + l.second) ok = false;
				if (ok) return true;
			}
		return false;
	}
	const char *P7() { return asan ? "C24" : "C07"; }
	const char *P8() { return asan ? "C24" : "C08"; }
	void get(int th, const Op &o) {
		Cache &c = cc[th];
		size_t n = (size_t)o.a, want;
		int how; void *s; int ord = 0;
		uint64_t inv = now();
		inflight++; c.busy = true;
		long q0 = peek([&] { return (long)x_quota_total(q) - (long)x_quota_used(q); });
		bool alone = inflight == 1;
		if (o.code == GETORD && !asan) {
			ord = o.b % (c.om + 1); how = 1; want = x_scache_order_size(c.c, ord);
			s = x_slab_get_order(c.c, ord);
			n = want - hdr;
		} else if (o.code == GETLARGE && !asan) {
			n = slab - hdr + 1 + n % (cfg("huge") ? 6UL << 30 : 3 * slab); how = 2; want = n + hdr;
			s = x_slab_get_large(c.c, n);
		} else {
			bool wrap = n > (size_t)-1 - hdr;
			size_t t = wrap ? n : n + hdr;
			ord = (int)order_of(c, t);
			how = wrap || ord > c.om ? 2 : 0;
			want = asan ? x_slab_real_size(c.c, n) : how == 2 ? t : x_scache_order_size(c.c, ord);
			s = x_slab_get(c.c, n);
		}
		ev(mix(o.code, s != nullptr) + n);
		if (!s) {
			inflight--;
			resolve(c);
			cover("slab_refused");
			bool alone2 = alone;
			if (how != 2) {
				CHECK(!free_block(c, want), P8(), "refused-with-free-block", "a slab of %zu bytes was refused although a free block of that size exists", want);
				if (c.om && ord < c.om && nthreads() == 1)
					CHECK(th_mmap_failed() > 0 || q0 < (long)slab, P7(), "refused-without-reason", "a slab of %zu bytes was refused: quota has %ld bytes, no mapping was refused", want, q0);
			} else if (nthreads() == 1 && alone2 && n < (1UL << 40)) {
				long need = (long)((n + hdr + 1023) / 1024 * 1024);
				CHECK(th_malloc_failed() > 0 || q0 < need, P7(), "refused-without-reason", "a large slab of %zu bytes was refused: quota has %ld bytes, the heap did not refuse", n, q0);
			}
			CHECK(x_scache_used(c.c) == c.used, P8(), "refusal-effect", "a refused request changed the used size from %zu to %zu", c.used, x_scache_used(c.c));
			quiescent();
			return;
		}
		size_t sz = x_slab_size(s), cap = x_slab_capacity(s);
		CHECK(cap >= n, P7(), "too-small", "a slab requested for %zu bytes can hold %zu", n, cap);
		CHECK(sz == want, P7(), "slab-size", "a slab requested for %zu bytes has size %zu, expected %zu", n, sz, want);
		if (how != 1) CHECK(x_slab_real_size(c.c, n) == sz, P7(), "real-size", "slab_real_size(%zu) is %zu, the slab has %zu", n, x_slab_real_size(c.c, n), sz);
		CHECK(x_slab_data(s) == (char *)s + hdr && x_slab_from_data(x_slab_data(s)) == s, P7(), "data", "slab data pointer");
		ext.add(s, sz, asan ? 8 : how == 2 ? 8 : sz, 0, false);
		dat.add(x_slab_data(s), cap, 8);
		c.live.push_back(Slab{(char *)s, sz, how == 2 || asan ? 2 : how});
		c.ever |= how != 2;
		if (how == 2 && !asan) { c.large += sz; c.large_charge += (sz + 1023) / 1024 * 1024; }
		inflight--;
		if (asan) fence(s, sz);
		set_used(c, c.used + sz, inv);
		quiescent();
	}
	void fence(void *s, size_t sz) {
		CHECK(os_poisoned((char *)s + sz), "C24", "not-fenced", "the byte after a slab is accessible");
		CHECK(os_poisoned((char *)s - 1) || ((uintptr_t)s & 7), "C24", "not-fenced", "the byte before a slab is accessible");
	}
	void put(int th, size_t k) {
		Cache &c = cc[th];
		Slab s = c.live[k];
		c.live.erase(c.live.begin() + k);
		dat.remove(x_slab_data(s.s)); ext.forget(s.s);
		uint64_t inv = now();
		inflight++; c.busy = true;
		if (s.how == 1 && s.n & 1) x_slab_put_order(c.c, s.s);
		else if (s.how == 1) x_slab_put_order(c.c, s.s);
		else x_slab_put(c.c, s.s);
		inflight--;
		if (asan) CHECK(os_poisoned(s.s) && os_poisoned(s.s + s.n - 1), "C24", "freed-accessible", "a freed slab is still accessible");
		if (s.how == 2 && !asan) { c.large -= s.n; c.large_charge -= (s.n + 1023) / 1024 * 1024; }
		set_used(c, c.used - s.n, inv);
		quiescent();
	}
	void quiescent() {
		Cache &c = cc[cur_th ? cur_th : 1];
		if (c.up) {
			size_t u = peek([&] { return x_scache_used(c.c); });
			CHECK(u == c.used, P8(), "used", "the cache reports %zu bytes used, live slabs make %zu", u, c.used);
		}
		if (inflight || asan) return;
		size_t large = 0, charge = 0;
		for (auto &k : cc) { large += k.large; charge += k.large_charge; }
		size_t used = peek([&] { return x_quota_used(q); }), au = peek([&] { return x_arena_used(arena); });
		CHECK(used == au + charge, "C08", "charge", "quota usage is %zu, the arena took %zu and large slabs %zu", used, au, charge);
		CHECK(os_heap_live() == large, "C08", "heap", "%zu heap bytes are live, large slabs make %zu", os_heap_live(), large);
		cover("quiescent_checks");
	}
	void destroy(int th) {
		Cache &c = cc[th];
		for (auto &s : c.live) { dat.remove(s.s + hdr); ext.forget(s.s); }
		inflight++;
		c.up = false;
		if (asan) { for (auto &s : c.live) x_slab_put(c.c, s.s); }
		x_scache_destroy(c.c);
		inflight--;
		c.live.clear(); c.large = c.large_charge = c.used = 0;
		quiescent();
	}
	void exec(int th, const Op &o) override {
		Cache &c = cc[th];
		switch (o.code) {
		case GET: case GETORD: case GETLARGE: get(th, o); break;
		case PUT: if (!c.live.empty()) put(th, o.b % c.live.size()); break;
		case READ: {
			int t = 1 + o.b % nthreads();
			if (!cc[t].up) break;
			uint64_t a = now();
			size_t v = x_scache_used(cc[t].c);
			uint64_t b = now();
			if (!cc[t].up) break;
			if (!was_current(cc[t], a, b, v)) {
				if (t != th && cc[t].busy) cc[t].rd.push_back(Cache::Rd{a, b, v});
				else stale(v);
			}
			cover("cross_thread_reads", t != th);
			break;
		}
		case VERIFY: dat.verify_all(); break;
		case CHECKC: x_scache_check(c.c); break;
		case MISUSE: {
			if (!asan) break;
			int w = 1 + (int)(o.b % nthreads());
			if (w == th || !cc[w].up) break;
			if (o.c & 1) misuse("wrong-thread", "a slab requested from the cache of another thread", [&] { x_slab_get(cc[w].c, 100); });
			else if (!c.live.empty()) {
				char *s = c.live[o.b % c.live.size()].s;
				misuse("wrong-cache", "a slab returned to the cache of another thread", [&] { x_slab_put(cc[w].c, s); });
			}
			break;
		}
		case FREEALL: while (!c.live.empty()) put(th, c.live.size() - 1); idle(th); break;
		case DESTROY: destroy(th); create(th); break;
		}
	}
	void idle(int th) {
		Cache &c = cc[th];
		if (asan || nthreads() > 1 || !c.ever || !c.live.empty()) return;
		NoFaults nf;
		/* no live slabs: everything but one maximum-size slab must be back in the arena, completely merged */
		size_t total = x_arena_used(arena) / slab, n = 0;
		size_t lim = x_quota_total(q);
		x_quota_set(q, x_quota_used(q));
		std::vector<void *> got; void *p;
		while ((p = x_slab_map(arena))) { got.push_back(p); n++; }
		CHECK(n + 1 >= total, "C08", "hoarding", "with no live slabs only %zu of %zu arena slabs are free", n, total);
		for (void *g : got) x_slab_unmap(arena, g);
		x_scache_check(c.c);
		void *s = x_slab_get_order(c.c, c.om);
		CHECK(s != nullptr, "C08", "not-coalesced", "an idle cache cannot serve a maximum-size request");
		if (s) x_slab_put_order(c.c, s);
		x_quota_set(q, lim);
		cover("idle_coalescing_checks");
	}
	const char *opname(int k) override { static const char *n[] = {"get", "get_order", "get_large", "put", "read_used", "verify", "check", "free_all", "destroy", "misuse"}; return n[k]; }
	void end(int th) override {
		Cache &c = cc[th];
		if (cfg("salt") & 1) while (!c.live.empty()) put(th, cfg("salt") % c.live.size());
		idle(th);
		destroy(th);
	}
	void finish() override {
		if (asan) {
			/* slabs of one cache given to another one, maximum-size slabs to another arena */
			void *c1 = os_alloc(x_scache_sizeof()), *c2 = os_alloc(x_scache_sizeof()), *a2 = os_alloc(x_arena_sizeof());
			x_scache_create(c1, arena); x_scache_create(c2, arena);
			x_arena_create(a2, q, 0, (unsigned)slab, x_arena_flags(0, 0, 0));
			void *s = x_slab_get(c1, 1 + cfg("salt") % 5000), *m = x_slab_map(arena);
			misuse("wrong-cache", "a slab returned to a cache it does not belong to", [&] { x_slab_put(c2, s); });
			misuse("wrong-arena", "memory returned to an arena it does not belong to", [&] { x_slab_unmap(a2, m); });
			x_slab_put(c1, s); x_slab_unmap(arena, m);
			x_scache_destroy(c1); x_scache_destroy(c2); x_arena_destroy(a2);
		}
		if (asan) { CHECK(os_heap_live() == 0, "C24", "leak", "%zu heap bytes leaked", os_heap_live()); return; }
		CHECK(os_heap_live() == 0, "C08", "leak", "%zu heap bytes remain after destroying the caches", os_heap_live());
		size_t used = x_quota_used(q), au = x_arena_used(arena);
		CHECK(used == au, "C08", "charge", "after destroying the caches quota usage is %zu, arena %zu", used, au);
		/* everything is back in the arena */
		x_quota_set(q, used);
		size_t n = 0; std::vector<void *> got; void *p;
		while ((p = x_slab_map(arena))) { got.push_back(p); n++; }
		CHECK(n * slab == au, "C08", "not-returned", "destroyed caches returned %zu of %zu slabs to the arena", n, au / slab);
		for (void *g : got) x_slab_unmap(arena, g);
		x_arena_destroy(arena);
		CHECK(os_mapped() == 0, "C08", "leak", "%zu bytes remain mapped", os_mapped());
		count_nontrivial();
	}
};
Scenario *sim::make_scenario() { return new SC; }
