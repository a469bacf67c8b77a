/* Slab arena under concurrency and OS faults: C03, C04, C05. */
#include "engine.h"
#include "shim/shim.h"
#include <algorithm>
#include <limits.h>
using namespace sim;
const char *sim::scenario_name = "arena";

enum { MAP, UNMAP, GIVE, SETQ, QUSE, QREL, UNMAP_NULL };
enum { MAXA = 2 };
struct Held { int ar; char *p; };
struct Arena : Scenario {
	void *q = nullptr, *ar[MAXA] = {};
	size_t slab[MAXA], prealloc[MAXA];
	std::vector<std::pair<uintptr_t, size_t>> premap[MAXA];
	int NA;
	std::vector<Held> held[9];
	std::vector<long> dheld[9];
	std::map<uintptr_t, int> seen[MAXA];	/* every slab ever handed out: 1 in prealloc, 2 outside */
	size_t nheld[MAXA] = {}, unmap_fly[MAXA] = {};
	Tracker tr{"C03", "slab"};
	/* conservative bounds for judging refusals */
	long direct = 0, direct_fly = 0;
	int inflight = 0;
	struct Win { bool on = false; int ar; long maps_over; long direct_over; long min_limit; long lb_free; long used_ub; } win[9];
	int mapping[MAXA] = {};
	long cur_limit, pending_set_min;
	long set_fly[9];
	bool rw() { return cfg("ample"); }

	void gen(Rng &r) override {
		bool c5 = active("C05");
		long th = r.p(0.15) && !c5 ? 1 : r.r(2, 4);
		c->set("threads", th);
		long na = r.p(0.3) ? 2 : 1;
		c->set("arenas", na);
		long mx = 0;
		for (long i = 0; i < na; i++) {
			long s = r.pick({0, 1, 65536, 65536, 65537, 100000, 131072, 200000, 1 << 20});
			c->set(i ? "slab1" : "slab0", s);
			long eff = 65536; while (eff < s) eff *= 2;
			mx = std::max(mx, eff);
			long pre = r.p(0.3) ? 0 : r.r(1, 5) * eff - (r.p(0.3) ? r.r(1, eff - 1) : 0);
			if (r.p(0.03)) pre = 0x7fffffffffffffffL;	/* "as much as the quota allows" */
			c->set(i ? "pre1" : "pre0", pre);
			c->set(i ? "fl1" : "fl0", (long)r.u(8));	/* legacy, shared, dontdump */
		}
		if (r.p(0.02)) c->set("prot", 1);
		if (r.p(0.15)) c->set("page", r.pick({16384, 65536}));
		if (!c5 && r.p(0.0015)) return gen_giant(r);
		bool ample = c5 || r.p(0.2);
		c->set("ample", ample);
		c->set("limit", ample ? mx * 500 : mx * r.r(0, 9) + (r.p(0.3) ? r.r(0, mx - 1) : 0));
		if (!c5 && c->get("pre0") > (1L << 40) || (!c5 && c->get("pre1") > (1L << 40))) c->set("limit", mx * r.r(0, 9));
		if (c->get("limit") == 0 && r.p(0.8)) c->set("limit", mx * 3);
		if (!c5 && r.p(0.5)) c->set("fr_mmap", r.pick({50, 200, 500}));
		if (!c5 && r.p(0.3)) c->set("fr_madv", r.pick({100, 500}));
		if (r.p(0.5)) c->set("fr_cas", r.pick({20, 100, 300}));
		if (c5) c->set("solo", r.pick({5, 30, 100}));
		long per = th == 1 ? r.r(4, 30) : r.r(2, 10), less = 0;
		if (!c5 && r.p(0.008)) { c->set("limit", mx * 500); per = r.r(150, 400) / th; less = r.r(10, 35); }	/* many slabs at a time */
		for (long i = 0; i < per; i++)
			for (long t = 1; t <= th; t++) {
				long x = r.u(100);
				/* the first half takes more than it gives */
				if (less && x >= 52 && x < 84) x = 52 + (x - 52 < (i * 2 < per ? 32 - less : 32) ? 0 : -1);
				int code = x < 52 ? MAP : x < 84 ? UNMAP : x < 88 ? GIVE : x < 92 ? QUSE : x < 96 ? QREL : x < 99 ? SETQ : UNMAP_NULL;
				if (c5 && code == SETQ) code = MAP;
				c->add((int)t, code, (long)r.u(1000), (long)r.u(1000), r.u(1000));
			}
	}
	/* sizes beyond 32 bits: the address space is simulated sparsely */
	void gen_giant(Rng &r) {
		c->set("threads", 1); c->set("arenas", 1);
		long s = r.pick({1L << 20, 64L << 20, 1L << 30, 1L << 31});
		c->set("slab0", s);
		c->set("pre0", r.p(0.2) ? 0 : r.r(3000, 9000) << 20);
		c->set("limit", r.r(4, 14) << 30);
		if (r.p(0.5)) c->set("fr_mmap", r.pick({50, 200, 500}));
		for (long i = r.r(2, 10); i > 0; i--)
			c->add(1, r.p(0.7) ? MAP : UNMAP, (long)r.u(1000), (long)r.u(1000), r.u(1000));
	}
	bool want_dd(int i) { long f = cfg(i ? "fl1" : "fl0"); return (f & 4) && !(f & 1); }
	bool want_shared(int i) { return cfg(i ? "fl1" : "fl0") & 2; }
	void check_pages(int i, void *p, size_t n, const char *what) {
		CHECK(os_all_pages(p, n, want_shared(i) ? 2 : 1), "C04", "map-flags", "%s of arena %d is not mapped %s", what, i, want_shared(i) ? "shared" : "private");
		if (!want_dd(i))
			CHECK(os_no_pages(p, n, 4), "C04", "dontdump", "%s of arena %d is excluded from core dumps, which nobody asked for", what, i);
		if (want_dd(i) && !fired(F_MADV))
			CHECK(os_all_pages(p, n, 4), "C04", "dontdump", "%s of arena %d is not excluded from core dumps", what, i);
	}
	void setup() override {
		NA = (int)cfg("arenas");
		for (long &x : set_fly) x = LONG_MAX;
		q = os_alloc(x_quota_sizeof());
		x_quota_init(q, cfg("limit"));
		cur_limit = (long)x_quota_total(q);
		for (int i = 0; i < NA; i++) {
			ar[i] = os_alloc(x_arena_sizeof());
			size_t want = (size_t)cfg(i ? "slab1" : "slab0"), pre = (size_t)cfg(i ? "pre1" : "pre0"), eff = 65536;
			while (eff < want) eff *= 2;
			long f = cfg(i ? "fl1" : "fl0");
			int flags = x_arena_flags(f & 1, (f >> 1) & 1, (f >> 2) & 1);
			size_t m0 = os_mapped();
			auto before = os_maps();
			int rc = x_arena_create(ar[i], q, pre, (unsigned)want, flags);
			if (rc != 0) {
				CHECK(th_mmap_failed() > 0, "C04", "create-refused", "arena creation failed although no mapping was refused");
				CHECK(os_mapped() == m0, "C04", "create-leak", "failed arena creation left %zu bytes mapped", os_mapped() - m0);
				cover("arena_create_refused");
				NoFaults nf;
				m0 = os_mapped(); before = os_maps();
				rc = x_arena_create(ar[i], q, pre, (unsigned)want, flags);
				CHECK(rc == 0, "C04", "create-retry", "arena creation fails again although nothing is refused");
			}
			slab[i] = x_arena_slab_size(ar[i]);
			CHECK(slab[i] == eff, "C04,C03", "slab-size", "slab size %zu requested, %zu expected, got %zu", want, eff, slab[i]);
			size_t p = std::min(pre, (size_t)cur_limit);
			p = (p + eff - 1) / eff * eff;
			prealloc[i] = os_mapped() - m0;
			CHECK(prealloc[i] == p, "C04", "prealloc", "preallocation of %zu with quota %ld and slab %zu mapped %zu bytes, expected %zu", pre, cur_limit, eff, prealloc[i], p);
			for (auto &m : os_maps()) {
				bool old = false;
				for (auto &b : before) old |= b.first == m.first && b.second == m.second;
				if (!old) premap[i].push_back(m);
			}
			for (auto &m : premap[i]) check_pages(i, (void *)m.first, m.second, "preallocation");
		}
		CHECK(x_quota_used(q) == 0, "C04", "charge", "creating arenas charged the quota %zu bytes", x_quota_used(q));
	}
	bool in_pre(int i, void *p) {
		for (auto &m : premap[i]) if ((uintptr_t)p >= m.first && (uintptr_t)p < m.first + m.second) return true;
		return false;
	}
	size_t charged_slabs() { size_t s = 0; for (int i = 0; i < NA; i++) s += seen[i].size() * slab[i]; return s; }
	void quiescent() {
		if (inflight) return;
		long used = peek([&] { return (long)x_quota_used(q); });
		long want = (long)charged_slabs() + direct;
		CHECK(used == want, "C04", "charge", "quota usage is %ld, but slabs ever handed out plus direct use make %ld", used, want);
		size_t m = 0;
		for (int i = 0; i < NA; i++) {
			size_t out = 0;
			for (auto &s : seen[i]) out += s.second == 2;
			m += prealloc[i] + out * slab[i];
			if (out) CHECK((seen[i].size() - out) * slab[i] == prealloc[i], "C04", "prealloc-unused", "arena %d mapped %zu extra slabs while only %zu of %zu preallocated bytes were handed out", i, out, (seen[i].size() - out) * slab[i], prealloc[i]);
			size_t au = peek([&] { return x_arena_used(ar[i]); });
			CHECK(au == seen[i].size() * slab[i], "C04", "arena-used", "arena %d reports %zu bytes used, %zu slabs of %zu were handed out", i, au, seen[i].size(), slab[i]);
		}
		CHECK(os_mapped() == m, "C04", "mapped", "%zu bytes are mapped, accounted for %zu", os_mapped(), m);
		cover("quiescent_accounting_checks");
	}
	void note_over(int i, long slabs, long dir) {
		for (int t = 1; t < 9; t++) if (win[t].on) { if (slabs && win[t].ar == i) win[t].lb_free -= slabs; win[t].used_ub += slabs ? slabs * (long)slab[i] : 0; win[t].used_ub += dir; }
	}
	void map(int th, int i) {
		Win &w = win[th];
		w.on = true; w.ar = i;
		w.lb_free = (long)seen[i].size() - (long)nheld[i] - (long)unmap_fly[i] - mapping[i];
		w.used_ub = (long)charged_slabs() + direct + direct_fly;
		for (int k = 0; k < NA; k++) w.used_ub += mapping[k] * (long)slab[k];
		w.min_limit = cur_limit; for (long s : set_fly) w.min_limit = std::min(w.min_limit, s);
		/* this call overlaps with every other map in progress */
		w.on = false; note_over(i, 1, 0); w.on = true;
		mapping[i]++; inflight++;
		long used_at = 0; (void)used_at;
		char *p = (char *)x_slab_map(ar[i]);
		inflight--; mapping[i]--; w.on = false;
		if (!p) {
			ev(0x11);
			CHECK(w.lb_free < 1, "C04", "refused-with-free-slab", "arena %d refused a slab although at least %ld free slabs were in it during the whole call", i, w.lb_free);
			CHECK(th_mmap_failed() > 0 || w.used_ub + (long)slab[i] > w.min_limit, "C04", "refused-without-reason",
			      "arena %d refused a slab although no mapping was refused and at most %ld of %ld bytes of quota were used", i, w.used_ub, w.min_limit);
			CHECK(!active("C05"), "C05", "spurious-failure", "a slab was refused with plentiful memory");
			cover("map_refused");
			quiescent();
			return;
		}
		CHECK((uintptr_t)p % slab[i] == 0, "C03", "misaligned", "slab %p is not aligned to the slab size %zu", p, slab[i]);
		CHECK(os_in_map(p) && os_is_mapped(p, slab[i]), "C03", "not-backed", "slab %p of %zu bytes is not entirely mapped", p, slab[i]);
		bool isnew = !seen[i].count((uintptr_t)p);
		if (isnew) {
			CHECK(w.lb_free < 1, "C04", "not-reused", "arena %d took new memory although at least %ld free slabs were in it during the whole call", i, w.lb_free);
			seen[i][(uintptr_t)p] = in_pre(i, p) ? 1 : 2;
			for (int k = 0; k < NA; k++) if (k != i) CHECK(!in_pre(k, p), "C03", "foreign-slab", "arena %d handed out memory of arena %d", i, k);
		}
		ev(isnew ? 0x12 : 0x13);
		check_pages(i, p, slab[i], isnew ? "new slab" : "recycled slab");
		nheld[i]++;
		tr.add(p, slab[i], 0);
		os_protect_owned(p, slab[i], true);
		held[th].push_back(Held{i, p});
		logf("-> slab %d of arena %d (%s)", (int)std::distance(seen[i].begin(), seen[i].find((uintptr_t)p)), i, isnew ? "new" : "recycled");
		quiescent();
	}
	void unmap(int th, size_t k) {
		Held h = held[th][k];
		held[th].erase(held[th].begin() + k);
		tr.remove(h.p);
		os_protect_owned(h.p, slab[h.ar], false);
		nheld[h.ar]--; unmap_fly[h.ar]++; inflight++;
		x_slab_unmap(ar[h.ar], h.p);
		unmap_fly[h.ar]--; inflight--;
		quiescent();
	}
	void exec(int th, const Op &o) override {
		switch (o.code) {
		case MAP: map(th, o.a % NA); break;
		case UNMAP: if (!held[th].empty()) unmap(th, o.b % held[th].size()); break;
		case GIVE: if (!held[th].empty()) {
			int to = 1 + o.a % nthreads();
			Held h = held[th].back(); held[th].pop_back(); held[to].push_back(h);
			break;
		}
		break;
		case UNMAP_NULL: x_slab_unmap(ar[o.a % NA], nullptr); break;
		case QUSE: {
			long n = 1024 * (1 + o.b % (slab[0] / 1024));
			note_over(0, 0, n); direct_fly += n; inflight++;
			long r = x_quota_use(q, n);
			direct_fly -= n; inflight--;
			if (r > 0) { direct += r; dheld[th].push_back(r); }
			ev(r);
			quiescent();
			break;
		}
		case QREL: if (!dheld[th].empty()) {
			long n = dheld[th].back(); dheld[th].pop_back();
			direct_fly += n; direct -= n; inflight++;
			x_quota_release(q, n);
			direct_fly -= n; inflight--;
			quiescent();
		}
		break;
		case SETQ: {
			long n = (long)slab[0] * (o.b % 12);
			set_fly[th] = n;
			for (int t = 1; t < 9; t++) if (win[t].on) win[t].min_limit = std::min(win[t].min_limit, n);
			inflight++;
			long r = x_quota_set(q, n);
			inflight--;
			(void)r;
			/* several setters may overlap: the limit in force afterwards is read back */
			set_fly[th] = LONG_MAX;
			cur_limit = peek([&] { return (long)x_quota_total(q); });
			ev(r);
			quiescent();
			break;
		}
		}
	}
	const char *opname(int k) override { static const char *n[] = {"map", "unmap", "give", "set_limit", "quota_use", "quota_release", "unmap_null"}; return n[k]; }
	void finish() override {
		quiescent();
		tr.verify_all();
		/* faults have stopped: whatever is allowed must be granted again */
		for (int i = 0; i < NA; i++) {
			size_t avail = seen[i].size() - nheld[i];
			for (size_t k = 0; k < avail; k++) {
				size_t n = held[0].size(); map(0, i);
				if (held[0].size() != n + 1) { viol("C04", "lost-slab", "only %zu of %zu free slabs of arena %d can be mapped again", k, avail, i); break; }
				CHECK(seen[i].size() * slab[i] == x_arena_used(ar[i]), "C04", "not-reused", "arena %d took new memory while free slabs remain", i);
			}
			long freeq = (long)x_quota_total(q) - (long)x_quota_used(q);
			if (freeq >= (long)slab[i] && freeq < (64 << 20)) {
				size_t n = held[0].size(); map(0, i);
				CHECK(held[0].size() == n + 1, "C04", "refused-without-reason", "arena %d refuses a slab with %ld bytes of quota free", i, freeq);
			}
		}
		for (int t = 0; t < 9; t++) {
			while (!held[t].empty()) unmap(t, held[t].size() - 1);
			for (long n : dheld[t]) { x_quota_release(q, n); direct -= n; }
		}
		quiescent();
		for (int i = 0; i < NA; i++) {
			/* write protection covers the preallocated area and nothing else */
			std::vector<std::pair<uintptr_t, size_t>> rest;
			for (auto &s : seen[i]) if (s.second == 2) rest.push_back({s.first, slab[i]});
			if (cfg("prot")) {
				x_arena_mprotect(ar[i]);
				for (auto &m : premap[i]) CHECK(os_no_pages((void *)m.first, m.second, 8), "C04", "mprotect", "part of the preallocation of arena %d remains writable", i);
				for (auto &m : rest) CHECK(os_all_pages((void *)m.first, m.second, 8), "C04", "mprotect", "protecting arena %d made memory outside its preallocation read-only", i);
			}
		}
		if (cfg("prot")) cover("protected_arenas");
		for (int i = 0; i < NA; i++) x_arena_destroy(ar[i]);
		CHECK(os_mapped() == 0, "C04", "destroy-leak", "after destroying the arenas %zu bytes remain mapped", os_mapped());
		CHECK(os_heap_live() == 0, "C04", "destroy-leak", "after destroying the arenas %zu heap bytes remain", os_heap_live());
	}
};
Scenario *sim::make_scenario() { return new Arena; }
