/* Regions: savepoints, joins, callbacks, refusals (C13; C24 in the ASAN flavour). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "region";

enum { ALLOC, AALLOC, RES, ARES, JOIN, TRUNC, RESET, FREE, VERIFY, EXHAUST, RELIEVE, RECREATE };
struct Region : Scenario {
	Env e;
	struct Seg { char *p; size_t n, eff; };	/* memory [p + n - eff, p + n) */
	struct R { void *r = nullptr; std::vector<Seg> segs; size_t used = 0; int acb = 0, tcb = 0; size_t alast = 0, tlast = 0, abefore = 0, tinside = 0; bool cb = false;
		void *slot[4] = {}; std::vector<std::pair<void *, size_t>> guards; /* open scopes: guard, live allocations when it was created */ };
	std::vector<R> rs[9];
	Tracker t{"C13,C24", "region object"};
	bool asan; const char *P;
	void gen(Rng &r) override {
		asan = c->variant == "asan";
		Env::gen(c, r);
		long th = r.p(0.75) ? 1 : 2, s = c->get("slab"), pg = c->get("page");
		if (!asan && r.p(0.01)) { c->set("giant", 1); c->set("limit", 1L << 40); }
		c->set("threads", th); c->set("nr", r.r(1, 2)); c->set("cb", r.p(0.6));
		long per = th == 1 ? r.r(4, 60) : r.r(3, 15);
		double pt = r.pick({0.1, 0.25, 0.4});
		for (long i = 0; i < per; i++)
			for (long k = 1; k <= th; k++) {
				long x = r.u(100); int code;
				if (r.p(pt)) code = x < 60 ? TRUNC : x < 80 ? RESET : x < 90 ? FREE : TRUNC;
				else code = x < 30 ? ALLOC : x < 50 ? AALLOC : x < 60 ? RES : x < 68 ? ARES : x < 84 ? JOIN : x < 88 ? VERIFY : x < 92 ? EXHAUST : x < 97 ? RELIEVE : RECREATE;
				long n;
				switch (r.u(7)) {
				case 0: n = r.r(1, 16); break;
				case 1: n = r.r(1, 300); break;
				case 2: n = pg - 56 + r.r(-20, 20); break;
				case 3: n = (pg << r.r(0, 6)) - 56 + r.r(-70, 70); break;
				case 4: n = r.r(1, pg); break;
				case 5: n = r.r(1, s); break;
				default: n = r.p(0.3) ? r.r(1, 3) * s : r.r(1, pg / 2); break;
				}
				if (n < 1) n = 1;
				if (c->get("giant") && r.p(0.15)) n = r.pick({1L << 31, 1L << 32, (1L << 32) - 100, 5L << 30, 9L << 30}) + r.r(-100, 100);
				if (r.p(0.01)) n = r.pick({-1L, -2L, -7L, -8L, -9L, -55L, -56L, -64L, -200L, 1L << 32, 5L << 30, 4294967295L * 1024});
				if (asan && (n < 0 || n > (4 << 20))) n = 77777;
				c->add((int)k, code, n, (long)r.u(1 << 20), r.p(0.8) ? r.r(0, 6) : r.r(0, 9));
			}
	}
	void setup() override {
		e.setup(this); asan = e.asan; P = asan ? "C24" : "C13";
		if (asan) t.props = "C24";
	}
	void mk(int th, R &r) {
		if (!r.r) r.r = os_alloc(x_region_sizeof());
		x_region_create(r.r, e.cache[th]);
		r.cb = cfg("cb");
		if (r.cb) x_region_set_callbacks(r.r, &r);
		r.used = 0; r.segs.clear();
	}
	void begin(int th) override {
		e.mkcache(th);
		rs[th].resize(cfg("nr"));
		for (auto &r : rs[th]) mk(th, r);
	}
	void state(int th, R &r, const char *what) {
		size_t u = x_region_used(r.r);
		CHECK(u == r.used, P, "used", "after %s region_used is %zu, allocated and not released are %zu bytes", what, u, r.used);
		if (asan) return;
		size_t tot = 0;
		for (auto &k : rs[th]) tot += x_region_total(k.r);
		size_t su = x_scache_used(e.cache[th]);
		CHECK(su == tot, P, "total", "after %s regions report %zu bytes held, the slab cache has %zu in use", what, tot, su);
		CHECK(x_region_total(r.r) >= r.used, P, "total", "after %s region holds %zu bytes and uses %zu", what, x_region_total(r.r), r.used);
	}
	void pre(R &r) { r.acb = r.tcb = 0; }
	void alloc_cb(R &r, size_t eff) {
		if (!r.cb) return;
		CHECK(r.acb == 1 && r.tcb == 0, P, "callback", "%d allocation and %d truncation callbacks for one allocation", r.acb, r.tcb);
		CHECK(r.alast == eff && r.abefore == r.used, P, "callback", "allocation callback got %zu bytes with %zu used, expected %zu with %zu", r.alast, r.abefore, eff, r.used);
	}
	void refused(int th, R &r, size_t tot0, size_t n, long av0) {
		cover("refused");
		CHECK(!r.cb || (r.acb == 0 && r.tcb == 0), P, "callback", "callback called for a refused request");
		CHECK(x_region_total(r.r) == tot0, P, "refusal-effect", "a refused request of %zu bytes changed the region from %zu to %zu bytes", n, tot0, x_region_total(r.r));
		if (nthreads() == 1 && n < (1UL << 40)) {
			long need = n + 1200 > e.slab ? (long)n + 2048 : (long)e.slab;
			CHECK(th_mmap_failed() > 0 || th_malloc_failed() > 0 || av0 < need, P, "refused-without-reason", "%zu bytes were refused with %ld bytes of quota and no failure", n, av0);
		}
		state(th, r, "refusal");
	}
	void added(int th, R &r, char *p, size_t n, size_t al, const char *what) {
		size_t u = x_region_used(r.r), eff = u - r.used;
		CHECK(u >= r.used + n && eff < n + al, P, "used", "%s of %zu bytes aligned to %zu changed used from %zu to %zu", what, n, al, r.used, u);
		CHECK(!asan || eff == n, P, "used", "%s of %zu bytes changed used by %zu", what, n, eff);
		alloc_cb(r, eff);
		t.add(p, n, al);
		if (asan) { check_fence(p, n, "region object"); check_exact_align(p, al, "region object"); }
		r.segs.push_back(Seg{p, n, eff}); r.used += eff;
		state(th, r, what);
	}
	static size_t align_of(long c) { return (size_t)1 << c; }
	void exec(int th, const Op &o) override {
		R &r = rs[th][o.b % rs[th].size()];
		Rng g(mix(o.b, 3));
		size_t n = (size_t)o.a, tot0 = x_region_total(r.r);
		long av0 = e.avail();
		pre(r);
		switch (o.code) {
		case ALLOC: case AALLOC: {
			size_t al = o.code == ALLOC ? 1 : align_of(o.c);
			size_t bytes = 0; bool array = o.code == AALLOC && al == 8, object = o.code == AALLOC && al == 32 && n < 4096;
			if (array) n = n > SIZE_MAX - 7 ? n : (n + 7) / 8 * 8;
			if (object) n = 128;
			if (o.b % 5 == 0 && r.guards.size() < 4) {	/* the rest of a scope */
				void *&g = r.slot[r.guards.size()];
				if (!g) g = os_alloc(x_guard_sizeof());
				x_guard_open(g, r.r);
				r.guards.push_back({g, r.segs.size()});
				CHECK(r.acb == 0 && r.tcb == 0, P, "callback", "opening a guard called callbacks");
				state(th, r, "opening a guard");
			}
			char *p = (char *)(array ? x_region_alloc_array(r.r, n / 8, &bytes) : object ? x_region_alloc_object(r.r, &bytes) : o.code == AALLOC ? x_region_aligned_alloc(r.r, n, al) : o.b & 8 ? x_region_alloc(r.r, n) : x_region_alloc_cb(r.r, n));
			ev(mix(p != nullptr, n));
			if (array && n > SIZE_MAX - 7) n = n / 8 * 8;
			if (!p) { refused(th, r, tot0, n, av0); break; }
			if (array || object) {
				CHECK(bytes == n, P, "array-size", "an array or object of %zu bytes is reported to have %zu", n, bytes);
				cover("arrays_and_objects");
			}
			added(th, r, p, n, al, "allocation");
			break;
		}
		case RES: case ARES: {
			size_t al = o.code == RES ? 1 : align_of(o.c), room = n;
			char *p;
			if (o.code == ARES) p = (char *)x_region_aligned_reserve(r.r, n, al);
			else if (o.b & 8 || n > (1UL << 30)) p = (char *)x_region_reserve(r.r, n);
			else { size_t tmp = n; p = (char *)x_region_reserve_cb(r.r, &tmp); if (p) room = tmp; }
			ev(mix(p != nullptr, n));
			if (!p) { refused(th, r, tot0, n, av0); break; }
			CHECK(room >= n, P, "reserve", "reservation of %zu bytes reports room for %zu", n, room);
			CHECK(!r.cb || r.acb == 0, P, "callback", "callback called for a reservation");
			t.add(p, room, al);	/* the whole reservation must be usable */
			state(th, r, "reservation");
			t.remove(p);
			if (asan) CHECK(!os_poisoned(p) && !os_poisoned(p + n - 1), P, "object-fenced", "reserved memory is fenced");
			if (o.c & 1 && o.code == RES) {	/* give up the reservation */
				pre(r);
				x_region_truncate(r.r, r.used);
				if (r.cb) CHECK(r.tcb == 1 && r.tlast == r.used, P, "callback", "truncation callback");
				state(th, r, "dropped reservation");
				break;
			}
			if (o.c == 2 && o.code == RES && room < e.slab && !asan) {	/* more is needed (the ASAN flavour does not allow it) */
				size_t m = room + 1 + g.u(2 * e.slab);
				tot0 = x_region_total(r.r); av0 = e.avail(); pre(r);
				char *q = (char *)x_region_alloc(r.r, m);
				cover("reservation_outgrown");
				if (q) added(th, r, q, m, 1, "allocation instead of a reservation");
				else refused(th, r, tot0, m, av0);
				break;
			}
			if (asan && g.p(0.2)) {
				if (g.p(0.3)) misuse("double-reserve", "a reservation on top of another one", [&] { x_region_reserve(r.r, n); });
				else if (g.p(0.3)) misuse("wrong-alignment", "an allocation with another alignment than its reservation", [&] { x_region_aligned_alloc(r.r, n, al * 2); });
				else misuse("more-than-reserved", "an allocation of more than was reserved", [&] { x_region_aligned_alloc(r.r, std::max(room, (size_t)4096) + 1 + g.u(5), al); });
			}
			size_t m = 1 + g.u(room);
			char *q = (char *)(o.code == RES ? x_region_alloc(r.r, m) : x_region_aligned_alloc(r.r, m, al));
			CHECK(q == p, P, "reserve", "allocation after a reservation returned %p instead of the reserved %p", q, p);
			if (q) added(th, r, q, m, al, "allocation of reserved memory");
			if (asan && m < room) CHECK(os_poisoned(q + m), P, "not-fenced-after", "reserved but not allocated bytes are accessible");
			break;
		}
		case JOIN: {
			if (!r.used) break;
			size_t m = o.c == 0 ? r.used : 1 + g.u(r.used);
			if (o.c & 1 && !r.segs.empty()) { m = 0; for (size_t i = r.segs.size(), k = 1 + g.u(4); i-- > 0 && k--; ) m += r.segs[i].eff; }
			if (m > (1UL << 30)) break;
			std::string want; want.reserve(m);
			{
				std::vector<std::pair<char *, size_t>> parts; size_t left = m;
				for (size_t i = r.segs.size(); i-- > 0 && left; ) {
					Seg &s = r.segs[i]; size_t k = std::min(left, s.eff);
					parts.push_back({s.p + s.n - k, k}); left -= k;
				}
				for (size_t i = parts.size(); i-- > 0; ) want.append(parts[i].first, parts[i].second);
			}
			char *p = (char *)x_region_join(r.r, m);
			ev(mix(p != nullptr, m));
			if (!p) { refused(th, r, tot0, m, av0); break; }
			CHECK(os_is_mapped(p, m), P, "join", "joined chunk is not backed by memory");
			size_t bad = 0; while (bad < m && p[bad] == want[bad]) bad++;
			CHECK(bad == m, P, "join", "joining the last %zu bytes returned different contents at offset %zu", m, bad);
			size_t u = x_region_used(r.r);
			CHECK(u == r.used || u == r.used + m, P, "used", "joining %zu bytes changed used from %zu to %zu", m, r.used, u);
			if (u != r.used) { added(th, r, p, m, 1, "join"); cover("join_copied"); } else { cover("join_in_place"); CHECK(r.acb == 0, P, "callback", "callback without allocation"); }
			break;
		}
		case TRUNC: {
			size_t k = r.segs.size() ? (o.c & 1 ? r.segs.size() - g.u(std::min<size_t>(r.segs.size(), 3) + 1) : g.u(r.segs.size() + 1)) : 0;
			if (o.b % 3 == 0 && !r.guards.empty()) { leave(th, r); break; }
			while (!r.guards.empty() && r.guards.back().second > k) leave(th, r);
			pre(r);
			std::vector<Seg> gone(r.segs.begin() + k, r.segs.end());
			size_t u = 0; for (size_t i = 0; i < k; i++) u += r.segs[i].eff;
			for (auto &s : gone) t.remove(s.p);
			r.segs.resize(k);
			x_region_truncate(r.r, u);
			if (asan) for (auto &s : gone) check_gone(s.p, s.n, "region object");
			r.used = u;
			if (r.cb) CHECK(r.tcb == 1 && r.acb == 0 && r.tlast == u && r.tinside == u, P, "callback", "truncation to %zu called %d callbacks, the last with %zu (region_used %zu)", u, r.tcb, r.tlast, r.tinside);
			state(th, r, "truncation");
			break;
		}
		case RESET: case FREE: {
			if (o.code == FREE && o.c == 5) {	/* only beyond a threshold, which is not reached */
				x_region_free_after(r.r, r.used + g.u(2));
				CHECK(r.acb == 0 && r.tcb == 0, P, "callback", "callback although nothing was freed");
				state(th, r, "free_after");
				break;
			}
			while (!r.guards.empty()) leave(th, r);
			tot0 = x_region_total(r.r); pre(r);
			for (auto &s : r.segs) t.remove(s.p);
			if (o.code == RESET) x_region_reset(r.r);
			else if (o.c & 1 && r.used) x_region_free_after(r.r, g.u(r.used));
			else x_region_free(r.r);
			if (asan) for (auto &s : r.segs) check_gone(s.p, s.n, "region object");
			r.segs.clear(); r.used = 0;
			state(th, r, o.code == RESET ? "reset" : "free");
			if (r.cb && o.code == FREE) CHECK(r.tcb == 1 && r.tlast == 0 && r.tinside == 0, P, "callback", "freeing called %d truncation callbacks, the last with %zu (region_used %zu)", r.tcb, r.tlast, r.tinside);
			if (o.code == FREE) CHECK(x_region_total(r.r) == 0, P, "free", "a freed region still holds %zu bytes", x_region_total(r.r));
			else if (!asan) {
				CHECK(x_region_total(r.r) == tot0, P, "reset", "reset changed the held memory from %zu to %zu", tot0, x_region_total(r.r));
				if (tot0) {	/* a kept block is reused */
					pre(r);
					NoFaults nf; size_t m = 1 + g.u(64);
					char *p = (char *)x_region_alloc(r.r, m);
					CHECK(p && x_region_total(r.r) == tot0, P, "reset", "after reset a small allocation does not reuse a kept block");
					if (p) added(th, r, p, m, 1, "allocation after reset");
				}
			}
			break;
		}
		case VERIFY: t.verify_all(); break;
		case EXHAUST: if (!asan) { e.exhaust(); cover("exhausted"); } break;
		case RELIEVE: e.relieve(); break;
		case RECREATE: destroy(th, r); mk(th, r); break;
		}
	}
	/* a scope ends: everything allocated since its guard was created goes, nothing else does */
	void leave(int th, R &r) {
		auto [g, k] = r.guards.back();
		r.guards.pop_back();
		std::vector<Seg> gone(r.segs.begin() + k, r.segs.end());
		for (auto &s : gone) t.remove(s.p);
		r.segs.resize(k);
		size_t u = 0; for (auto &s : r.segs) u += s.eff;
		pre(r);
		x_guard_close(g);
		if (asan) for (auto &s : gone) check_gone(s.p, s.n, "region object");
		r.used = u;
		if (r.cb) CHECK(r.tcb == 1 && r.acb == 0 && r.tlast == u && r.tinside == u, P, "callback", "leaving a scope with %zu bytes used before it called %d callbacks, the last with %zu (region_used %zu)", u, r.tcb, r.tlast, r.tinside);
		cover("scopes");
		state(th, r, "leaving a scope");
	}
	void destroy(int th, R &r) {
		while (!r.guards.empty()) leave(th, r);
		for (auto &s : r.segs) t.remove(s.p);
		r.segs.clear(); r.used = 0;
		x_region_destroy(r.r);
		state(th, r, "destruction");
		CHECK(x_region_total(r.r) == 0, P, "free", "a destroyed region still holds %zu bytes", x_region_total(r.r));
	}
	const char *opname(int k) override { static const char *n[] = {"alloc", "aligned_alloc", "reserve", "aligned_reserve", "join", "truncate", "reset", "free", "verify", "exhaust", "relieve", "recreate"}; return n[k]; }
	void end(int th) override {
		for (auto &r : rs[th]) destroy(th, r);
		CHECK(x_scache_used(e.cache[th]) == 0, P, "not-returned", "%zu bytes of slabs are in use after the regions were destroyed", x_scache_used(e.cache[th]));
		x_scache_destroy(e.cache[th]);
	}
	void finish() override { e.finish(P); count_nontrivial(); }
};
extern "C" void h_region_cb(void *arg, int kind, size_t size, size_t inside) {
	Region::R *r = (Region::R *)arg;
	if (kind == 0) { r->acb++; r->alast = size; r->abefore = inside; }
	else { r->tcb++; r->tlast = size; r->tinside = inside; }
}
Scenario *sim::make_scenario() { return new Region; }
