/* Log-structured region: lifetime by identifier, accounting (C14), export to iovec (C15), ASAN flavour (C24). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "lsregion";

enum { ALLOC, AALLOC, RES, ARES, GC, FLUSH, VERIFY, EXHAUST, RELIEVE, RECREATE, BURST };
struct Ls : Scenario {
	Env e;
	struct Slab { uintptr_t base; bool large; size_t size; long max_id; };
	struct A { char *p; size_t n, eff; long id, seq; uint64_t tag; uintptr_t base; bool dropped; };
	struct Sv { x_svp v; long seq = 0; };	/* allocations with seq < this are exported */
	struct L {
		void *l = nullptr; std::vector<Slab> slabs; std::vector<A> as; Sv sv[3]; int nsv = 0;
		size_t used = 0; long id = 0, seq = 0, gc = -1; bool reserved = false;
	};
	std::vector<L> ls[9];
	Tracker t{"C14,C24", "lsregion object"};
	bool asan; const char *P, *PV;
	void gen(Rng &r) override {
		asan = c->variant == "asan";
		Env::gen(c, r);
		long th = r.p(0.8) ? 1 : 2, s = c->get("slab"); int giants = 0;
		if (!asan && r.p(0.01)) { c->set("giant", 1); c->set("limit", 1L << 40); }
		bool many = !giants && !c->get("giant") && th == 1 && r.p(asan ? 0.0007 : 0.004);
		if (many) { c->set("many", 1); if (r.p(0.8)) c->set("limit", 1L << 30); }
		c->set("threads", th); c->set("nl", r.r(1, 2)); c->set("nsv", r.r(1, 3));
		if (r.p(0.1)) c->set("id0", r.pick({(1L << 31) - 5, (1L << 32) - 5, 1L << 40, 1L << 62}));
		long per = th == 1 ? r.r(4, 60) : r.r(3, 15);
		double pgc = r.pick({0.05, 0.12, 0.25}), pfl = r.pick({0.05, 0.15, 0.3});
		double big = r.pick({0.05, 0.2, 0.5});
		for (long i = 0; i < per; i++)
			for (long k = 1; k <= th; k++) {
				long x = r.u(100); int code;
				if (r.p(pgc)) code = GC;
				else if (r.p(pfl)) code = FLUSH;
				else code = x < 45 ? ALLOC : x < 65 ? AALLOC : x < 77 ? RES : x < 87 ? ARES : x < 91 ? VERIFY : x < 94 ? EXHAUST : x < 98 ? RELIEVE : RECREATE;
				long n;
				if (r.p(big)) switch (r.u(4)) {
				case 0: n = s - 48 + r.r(-30, 70); break;
				case 1: n = r.r(1, 3) * s + r.r(-100, 100); break;
				case 2: n = s / 2 + r.r(-80, 10); break;
				default: n = r.r(s / 3, s); break;
				} else switch (r.u(3)) {
				case 0: n = r.r(1, 16); break;
				case 1: n = r.r(1, 300); break;
				default: n = r.r(1, s / 8); break;
				}
				if (c->get("giant") && giants < 3 && r.p(0.1)) { n = r.pick({1L << 31, 1L << 32, (1L << 32) - 47, 5L << 30, (2L << 32) - 48}) + r.r(-60, 100); giants++; }
				else if (r.p(0.01) && !asan) n = r.pick({-1L, -2L, -8L, -40L, -47L, -48L, -49L, -64L, -200L, -4096L, 1L << 42, LONG_MAX_});
				if (many && r.p(0.15)) { code = BURST; n = r.pick({40, 130, 260, 300}) + r.r(-10, 20); }
				c->add((int)k, code, n, (long)r.u(1 << 20), r.p(0.8) ? r.r(0, 6) : r.r(0, 9));
			}
	}
	static const long LONG_MAX_ = 0x7fffffffffffffffL;
	void setup() override {
		e.setup(this); asan = e.asan; P = asan ? "C24" : "C14"; PV = asan ? "C24" : "C15";
		t.props = asan ? "C24" : "C14";
	}
	void mk(L &l) {
		if (!l.l) l.l = os_alloc(x_ls_sizeof());
		x_ls_create(l.l, e.arena);
		l.slabs.clear(); l.as.clear(); l.used = 0; l.id = cfg("id0"); l.seq = 0; l.gc = -1; l.reserved = false;
		l.nsv = (int)cfg("nsv");
		for (int i = 0; i < l.nsv; i++) { x_svp_create(&l.sv[i].v); l.sv[i].seq = 0; }
	}
	void begin(int th) override { ls[th].resize(cfg("nl")); for (auto &l : ls[th]) mk(l); }
	/* memory taken from the arena and not given back, bytes; only when nobody else runs */
	size_t arena_held() {
		return peek([&] {
			NoFaults nf;
			size_t tot = x_quota_total(e.q); x_quota_set(e.q, x_quota_used(e.q));
			std::vector<void *> got; void *p;
			while ((p = x_slab_map(e.arena))) got.push_back(p);
			for (size_t i = got.size(); i-- > 0; ) x_slab_unmap(e.arena, got[i]);
			x_quota_set(e.q, tot);
			return x_arena_used(e.arena) - got.size() * e.slab;
		});
	}
	void state(int th, L &l, const char *what, bool deep = false) {
		size_t u = x_ls_used(l.l), tot = x_ls_total(l.l);
		CHECK(u == l.used, P, "used", "after %s lsregion_used is %zu, expected %zu", what, u, l.used);
		if (asan) return;
		size_t live = 0;
		for (auto &s : l.slabs) live += s.size;
		CHECK(tot == live || tot == live + e.slab, P, "total", "after %s lsregion_total is %zu, its blocks take %zu (one cached block of %zu allowed)", what, tot, live, e.slab);
		if (!deep || nthreads() > 1) return;
		size_t all = 0;
		for (auto &k : ls[th]) all += x_ls_total(k.l);
		size_t held = arena_held() + os_heap_live();
		CHECK(all == held, P, "total", "after %s regions report %zu bytes in total, %zu bytes are really held", what, all, held);
	}
	uintptr_t see(L &l, void *p) {
		uintptr_t a = (uintptr_t)p;
		if (asan) return 0;
		for (auto &s : l.slabs) if (a >= s.base && a < s.base + s.size) return s.base;
		Slab s{0, false, e.slab, -1};
		if (os_in_map(p)) s.base = a & ~(uintptr_t)(e.slab - 1);
		else { s.large = true; s.base = os_block_of(p, &s.size); }
		CHECK(s.base, P, "not-backed", "memory returned by lsregion is not part of any block");
		if (!l.slabs.empty() && l.slabs.back().max_id < 0) cover("unused_reservation");
		l.slabs.push_back(s);
		return s.base;
	}
	void refused(int th, L &l, size_t n, size_t al, long av0, size_t tot0, size_t q0) {
		cover("refused");
		CHECK(x_ls_total(l.l) == tot0, P, "refusal-effect", "a refused request of %zu bytes changed the total from %zu to %zu", n, tot0, x_ls_total(l.l));
		if (nthreads() == 1) {
			size_t q1 = x_quota_used(e.q);
			CHECK(q1 == q0, P, "refusal-effect", "a refused request of %zu bytes changed quota usage from %zu to %zu", n, q0, q1);
			if (n < (1UL << 40)) {
				long need = n + al + 100 > e.slab ? (long)(n + al) + 2048 : (long)e.slab;
				CHECK(th_mmap_failed() > 0 || th_malloc_failed() > 0 || av0 < need, P, "refused-without-reason", "%zu bytes were refused with %ld bytes of quota and no failure", n, av0);
			}
		}
		state(th, l, "refusal");
	}
	void added(int th, L &l, char *p, size_t n, size_t al, long id, const char *what) {
		size_t u = x_ls_used(l.l), eff = u - l.used;
		CHECK(u >= l.used + n && eff < n + al, P, "used", "%s of %zu bytes aligned to %zu changed used from %zu to %zu", what, n, al, l.used, u);
		CHECK(!asan || eff == n, P, "used", "%s of %zu bytes changed used by %zu", what, n, eff);
		Live &v = t.add(p, n, al);
		if (asan) { check_fence(p, n, "lsregion object"); check_exact_align(p, al, "lsregion object"); }
		uintptr_t b = see(l, p);
		if (!asan) {
			CHECK(l.slabs.back().base == b, P, "order", "%s was served from a block older than the newest one", what);
			l.slabs.back().max_id = id;
		}
		l.as.push_back(A{p, n, eff, id, l.seq++, v.tag, b, false});
		l.used += eff; l.id = id; l.reserved = false;
		state(th, l, what);
	}
	void exec(int th, const Op &o) override {
		L &l = ls[th][o.b % ls[th].size()];
		Rng g(mix(o.b, 5));
		size_t n = (size_t)o.a, tot0 = x_ls_total(l.l), q0 = x_quota_used(e.q);
		long av0 = e.avail(), id = asan || g.p(0.6) ? l.id + g.r(1, 3) : l.id;
		size_t al = (size_t)1 << o.c;
		switch (o.code) {
		case ALLOC: case AALLOC: {
			if (asan && l.reserved) break;
			if (o.code == ALLOC) al = 1;
			bool object = o.code == AALLOC && al == 32 && n < 4096;
			if (object) n = 128;
			char *p = (char *)(object ? x_ls_alloc_object(l.l, id) : o.code == AALLOC ? x_ls_aligned_alloc(l.l, n, al, id) : x_ls_alloc(l.l, n, id));
			ev(mix(p != nullptr, n));
			if (!p) { refused(th, l, n, al, av0, tot0, q0); break; }
			added(th, l, p, n, al, id, "allocation");
			break;
		}
		case RES: case ARES: {
			if (asan && l.reserved) break;
			if (o.code == RES) al = 1;
			char *p = (char *)(o.code == ARES ? x_ls_aligned_reserve(l.l, n, al) : x_ls_reserve(l.l, n));
			ev(mix(p != nullptr, n));
			if (!p) { refused(th, l, n, al, av0, tot0, q0); break; }
			see(l, p);
			l.reserved = true;
			t.add(p, n, al);
			state(th, l, "reservation");
			t.remove(p);
			if (g.p(0.4) && !asan) break;	/* left unused */
			if (asan && g.p(0.2)) {
				if (g.p(0.3)) misuse("double-reserve", "a reservation on top of another one", [&] { x_ls_reserve(l.l, n); });
				else if (g.p(0.3)) misuse("wrong-alignment", "an allocation with another alignment than its reservation", [&] { x_ls_aligned_alloc(l.l, n, al * 2, id); });
				else misuse("more-than-reserved", "an allocation of more than was reserved", [&] { x_ls_aligned_alloc(l.l, n + 1 + g.u(5), al, id); });
			}
			size_t m = 1 + g.u(n);
			char *q = (char *)(o.code == RES ? x_ls_alloc(l.l, m, id) : x_ls_aligned_alloc(l.l, m, al, id));
			CHECK(q == p, P, "reserve", "allocation after a reservation returned %p instead of the reserved %p", q, p);
			if (q) added(th, l, q, m, al, id, "allocation of reserved memory");
			if (asan && m < n) CHECK(os_poisoned(q + m), P, "not-fenced-after", "reserved but not allocated bytes are accessible");
			break;
		}
		case BURST: {	/* many blocks at once */
			if (asan && l.reserved) break;
			double large = g.pick({0.0, 0.3, 0.9});
			for (long i = 0; i < o.a; i++) {
				size_t m = g.p(large) ? e.slab + g.u(200) : e.slab * 2 / 3 + g.u(e.slab / 4), tot1 = x_ls_total(l.l), q1 = x_quota_used(e.q);
				long av1 = e.avail(), id1 = asan || g.p(0.6) ? l.id + g.r(1, 3) : l.id;
				char *p = (char *)x_ls_alloc(l.l, m, id1);
				if (!p) { refused(th, l, m, 1, av1, tot1, q1); break; }
				added(th, l, p, m, 1, id1, "allocation");
			}
			if (l.slabs.size() > 255) cover("blocks_over_255");
			break;
		}
		case GC: gc(th, l, g); break;
		case FLUSH: flush(l, l.sv[g.u(l.nsv)], g); break;
		case VERIFY: t.verify_all(); state(th, l, "verification", true); break;
		case EXHAUST: if (!asan) { e.exhaust(); cover("exhausted"); } break;
		case RELIEVE: e.relieve(); break;
		case RECREATE: destroy(l); mk(l); break;
		}
	}
	void gc(int th, L &l, Rng &g) {
		long min = g.p(0.2) ? l.id : g.p(0.1) ? l.id + 5 : l.as.empty() ? l.id : l.as[g.u(l.as.size())].id - (g.p(0.3) ? 1 : 0);
		if (g.p(0.6)) {	/* only what every savepoint has seen */
			long lim = l.seq;
			for (int i = 0; i < l.nsv; i++) lim = std::min(lim, l.sv[i].seq);
			for (auto &a : l.as) if (a.seq >= lim) { min = std::min(min, a.id - 1); break; }
		}
		if (min < 0) min = 0;
		l.gc = std::max(l.gc, min);
		/* what must survive is intact right before and after; what is dropped must be intact before */
		for (auto &a : l.as) if (!a.dropped && a.id <= min) { t.remove(a.p); a.dropped = true; }
		size_t k = 0;
		if (asan) {
			while (k < l.as.size() && l.as[k].id <= min) k++;
			size_t d = 0; for (size_t i = 0; i < k; i++) d += l.as[i].eff;
			l.used -= d;
			x_ls_gc(l.l, min);
			for (size_t i = 0; i < k; i++) check_gone(l.as[i].p, l.as[i].n, "lsregion object");
			l.as.erase(l.as.begin(), l.as.begin() + k);
			l.reserved = false;
			state(th, l, "collection");
			for (auto &a : l.as) CHECK(check(a.p, a.n, a.tag) < 0, P, "contents-changed", "collection changed live memory");
			return;
		}
		while (k < l.slabs.size() && l.slabs[k].max_id <= min) k++;
		std::vector<Slab> gone(l.slabs.begin(), l.slabs.begin() + k);
		l.slabs.erase(l.slabs.begin(), l.slabs.begin() + k);
		std::vector<A> keep;
		for (auto &a : l.as) {
			bool g2 = false; for (auto &s : gone) if (s.base == a.base) g2 = true;
			if (g2) l.used -= a.eff; else keep.push_back(a);
		}
		l.as.swap(keep);
		x_ls_gc(l.l, min);
		if (k) cover("blocks_collected", k);
		state(th, l, "collection", true);
		for (auto &s : gone) if (s.large) CHECK(os_block_size((void *)s.base) == 0, P, "not-collected", "a large block whose newest identifier is %ld survived collection up to %ld", s.max_id, min);
		for (auto &a : l.as) if (!a.dropped) {
			CHECK(os_is_mapped(a.p, a.n), P, "collected-live", "memory with identifier %ld was given back by collection up to %ld", a.id, min);
			long b = check(a.p, a.n, a.tag);
			CHECK(b < 0, P, "contents-changed", "collection up to %ld changed memory with identifier %ld", min, a.id);
		}
		if (l.slabs.empty()) CHECK(l.used == 0, P, "used", "internal");
	}
	void flush(L &l, Sv &s, Rng &g) {
		if (g.p(0.1)) { s = l.sv[g.u(l.nsv)]; return; }	/* copy a savepoint */
		if (g.p(0.04)) { x_svp_create(&s.v); s.seq = 0; }	/* start over: everything still held */
		int max = g.p(0.5) ? (int)g.r(1, 3) : g.p(0.1) ? 0 : (int)g.r(1, 40);
		if (cfg("many") ? g.p(0.6) : g.p(0.1)) max = g.p(0.3) ? (int)g.pick({127, 128, 255, 256, 1024}) + (int)g.r(-1, 1) : (int)g.pick({32767, 32768, 65535, 65536, 65537, 1 << 24, 0x7fffffff});
		int cnt = max;
		std::vector<x_iov> v(std::min<size_t>(max, 2 * l.slabs.size() + l.as.size() + 40) + 40);
		x_svp old = s.v;
		long r = x_ls_to_iovec(l.l, v.data(), &cnt, &s.v);
		CHECK(cnt >= 0 && cnt <= max, PV, "iov-count", "export into %d vectors returned %d", max, cnt);
		if (cnt < 0 || cnt > max) return;
		ev(mix(cnt, (uint64_t)r));
		std::vector<A *> want;
		for (auto &a : l.as) if (a.seq >= s.seq) want.push_back(&a);
		size_t k = 0; long last = x_ls_no_id(); 
		for (int i = 0; i < cnt; i++) {
			char *p = (char *)v[i].p, *end = p + v[i].n;
			CHECK(v[i].n > 0, PV, "empty-iov", "vector %d of %d is empty", i, cnt);
			while (p < end) {
				if (k >= want.size()) { viol(PV, "extra-bytes", "export yields %zd bytes beyond what was allocated since the savepoint", end - p); return; }
				A &a = *want[k]; size_t pad = a.eff - a.n;
				if (p != a.p - pad) { viol(PV, a.p >= p && a.p < end ? "repeated-bytes" : "skipped-bytes", "export from savepoint (%ld,%zu) into %d vectors: at vector %d expected allocation %ld of %zu bytes next, found other memory", (long)old.slab_id, old.pos, max, i, a.seq, a.n); return; }
				p += a.eff; last = a.id; k++;
				if (p > end) { viol(PV, "cut-bytes", "export cuts allocation %ld of %zu bytes", a.seq, a.n); return; }
				if (!a.dropped) { long b = check(a.p, a.n, a.tag); CHECK(b < 0, PV, "export-contents", "exported allocation %ld differs from what was written at offset %ld", a.seq, b); }
			}
		}
		CHECK(cnt == max || k == want.size(), PV, "missing-bytes", "export stopped after %d of %d vectors although %zu of %zu allocations were not exported", cnt, max, want.size() - k, want.size());
		CHECK(r == last, PV, "max-id", "export returned id %ld, the newest exported id is %ld", r, last);
		if (k < want.size()) { s.seq = want[k]->seq; cover("export_partial"); } else s.seq = l.seq;
		if (k) cover("export");
		if (cnt > 1) cover("export_multi");
	}
	void destroy(L &l) {
		for (auto &a : l.as) if (!a.dropped) t.remove(a.p);
		std::vector<Slab> gone = l.slabs;
		x_ls_destroy(l.l);
		for (auto &s : gone) if (s.large) CHECK(os_block_size((void *)s.base) == 0, P, "not-returned", "a large block survived destruction");
		if (asan) for (auto &a : l.as) check_gone(a.p, a.n, "lsregion object");
	}
	const char *opname(int k) override { static const char *n[] = {"alloc", "aligned_alloc", "reserve", "aligned_reserve", "gc", "to_iovec", "verify", "exhaust", "relieve", "recreate", "burst"}; return n[k]; }
	void end(int th) override { for (auto &l : ls[th]) destroy(l); ls[th].clear(); }
	void finish() override { e.finish(P); count_nontrivial(); }
};
Scenario *sim::make_scenario() { return new Ls; }
