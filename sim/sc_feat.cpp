/* The probe for support of memory excluded from core dumps, next to arenas which use it (C28). */
#include "engine.h"
#include "shim/shim.h"
using namespace sim;
const char *sim::scenario_name = "feat";
enum { PROBE, OTHER, ARENA, SLAB };
struct Feat : Scenario {
	void *q = nullptr; struct Ar { void *a = nullptr; size_t slab = 0; bool failed = false; } ar[9];
	int inflight = 0; bool has = false;
	const char *P = "C28";
	void gen(Rng &r) override {
		long th = r.p(0.3) ? 1 : r.r(2, 4);
		c->set("threads", th);
		if (r.p(0.15)) c->set("page", r.pick({16384, 65536}));
		if (r.p(0.25)) c->set("nodontdump", 1);
		if (r.p(0.4)) c->set("fr_madv", r.pick({100, 300, 600}));
		if (r.p(0.4)) c->set("fr_mmap", r.pick({100, 300, 600}));
		for (long i = 0, n = r.r(2, 16); i < n; i++)
			for (long k = 1; k <= th; k++) {
				long x = r.u(100);
				c->add((int)k, x < 50 ? PROBE : x < 60 ? OTHER : x < 75 ? ARENA : SLAB, (long)r.u(1 << 20), (long)r.u(1 << 20));
			}
	}
	void setup() override {
		has = x_has_dontdump();
		q = os_alloc(x_quota_sizeof()); x_quota_init(q, 1L << 30);
	}
	void quiescent() {
		if (inflight) return;
		size_t m = 0;
		for (auto &a : ar) if (a.a) m += std::max(peek([&] { return x_arena_prealloc(a.a); }), peek([&] { return x_arena_used(a.a); }));
		CHECK(os_mapped() == m, P, "left-behind", "%zu bytes are mapped, arenas account for %zu", os_mapped(), m);
		cover("quiescent_checks");
	}
	void pages(Ar &a, void *p, size_t n) {
		if (cfg("nodontdump") || !has) CHECK(os_no_pages(p, n, 4), P, "impossible", "memory is excluded from core dumps although that is not supported");
		else if (!th_madvise_failed()) { CHECK(os_all_pages(p, n, 4), P, "not-applied", "the feature is supported and nothing failed, but %zu bytes of an arena are not excluded from core dumps", n); cover("excluded"); }
		(void)a;
	}
	void drop(int th) {
		Ar &a = ar[th];
		if (!a.a) return;
		void *g = a.a; a.a = nullptr; old[th].clear();
		inflight++; x_arena_destroy(g); inflight--;
	}
	void exec(int th, const Op &op) override {
		switch (op.code) {
		case PROBE: {
			inflight++;
			bool ok = x_test_feature(0);
			inflight--;
			ev(ok);
			bool can = has && !cfg("nodontdump"), failed = th_mmap_failed() || th_madvise_failed();
			CHECK(!ok || can, P, "untrue", "the probe says supported: compiled in %d, supported by the system %d", has, !cfg("nodontdump"));
			CHECK(ok || !can || failed, P, "denied", "the probe says unsupported although the feature is compiled in, the system has it and nothing was refused");
			cover(ok ? "supported" : "unsupported");
			break;
		}
		case OTHER: {
			static const unsigned f[] = { 1, 2, 31, 32, 33, 63, 64, 65, 128, 256, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu };
			unsigned k = f[op.a % (sizeof f / sizeof *f)];
			inflight++;
			bool ok = x_test_feature(k);
			inflight--;
			CHECK(!ok, P, "answer", "feature %u, which does not exist, is said to be supported", k);
			break;
		}
		case ARENA: {
			Ar &a = ar[th];
			if (a.a) { drop(th); break; }
			void *g = os_alloc(x_arena_sizeof());
			size_t pre = (size_t)(op.a % 4) * 65536;
			inflight++;
			int rc = x_arena_create(g, q, pre, 65536, x_arena_flags(0, 0, 1));
			inflight--;
			if (rc) { CHECK(th_mmap_failed() > 0, P, "create-refused", "arena creation failed although nothing was refused"); break; }
			a.a = g; a.slab = 65536;
			break;
		}
		default: {
			Ar &a = ar[th];
			if (!a.a) break;
			inflight++;
			void *p = x_slab_map(a.a);
			inflight--;
			if (!p) { CHECK(th_mmap_failed() > 0, P, "map-refused", "a slab was refused although nothing was"); break; }
			if (peek([&] { return x_arena_used(a.a) > x_arena_prealloc(a.a); }) && !held(th, p)) pages(a, p, a.slab);
			x_slab_unmap(a.a, p); old[th].push_back(p);
			break;
		}
		}
		quiescent();
	}
	std::vector<void *> old[9];
	bool held(int th, void *p) { for (void *x : old[th]) if (x == p) return true; return false; }
	void finish() override {
		for (int t = 1; t < 9; t++) drop(t);
		quiescent();
	}
};
Scenario *sim::make_scenario() { return new Feat; }
