/* Quota lessors of several threads over one quota (C06). */
#include "engine.h"
#include "shim/shim.h"
using namespace sim;
const char *sim::scenario_name = "lessor";

enum { LEASE, END, DUSE, DREL, SETQ, RECREATE };
struct Lessor : Scenario {
	void *q = nullptr;
	struct L { void *l; std::vector<long> leases; long sum = 0; };
	std::vector<L> ls[9];
	std::vector<long> dir[9];
	long direct = 0; int inflight = 0; uint64_t events = 0;
	const long MB = 1 << 20;
	void gen(Rng &r) override {
		long th = r.p(0.4) ? 1 : r.r(2, 4);
		c->set("threads", th);
		c->set("per", r.r(1, 2));
		/* limit at least one chunk; from tight to ample, not only whole megabytes */
		long lim = r.p(0.6) ? r.r(1024, 6 * 1024) * 1024 : r.r(1, 40) * MB;
		if (r.p(0.1)) lim = 4294967295L * 1024;
		c->set("limit", lim);
		if (r.p(0.5)) c->set("fr_cas", r.pick({50, 200}));
		long per = th == 1 ? r.r(3, 40) : r.r(2, 12);
		for (long i = 0; i < per; i++)
			for (long t = 1; t <= th; t++) {
				long x = r.u(100);
				int code = x < 48 ? LEASE : x < 80 ? END : x < 88 ? DUSE : x < 93 ? DREL : x < 97 ? SETQ : RECREATE;
				long sz;
				switch (r.u(8)) {
				case 0: sz = r.r(0, 2000); break;
				case 1: sz = r.r(1, 3 * 1024 * 1024); break;
				case 2: sz = MB * r.r(1, 4) + r.r(-2, 2) * r.pick({1, 1024}); break;
				case 3: sz = 1024 * r.r(1, 2000); break;
				case 4: sz = MB / (1 << r.r(0, 6)) + r.r(-1, 1); break;
				case 5: sz = r.r(200, 900) * 1024 + r.r(0, 1023); break;
				case 6: sz = lim / r.r(1, 5) + r.r(-1025, 1025); break;
				default: sz = r.r(1, 300000); break;
				}
				if (r.p(0.02)) sz = r.pick({4294967295L * 1024, 4294967296L * 1024, 1L << 62});
				if (sz < 0) sz = 1;
				c->add((int)t, code, sz, (long)r.u(1000), (long)r.u(4));
			}
	}
	void setup() override {
		q = os_alloc(x_quota_sizeof());
		x_quota_init(q, cfg("limit"));
	}
	void begin(int th) override {
		for (int i = 0; i < cfg("per"); i++) {
			L l; l.l = os_alloc(x_lessor_sizeof());
			x_lessor_create(l.l, q);
			ls[th].push_back(l);
		}
	}
	void own(L &l, const char *after) {
		long le = (long)x_leased(l.l), av = (long)x_lease_available(l.l);
		CHECK(le == l.sum, "C06", "leased", "after %s %ld bytes are reported leased, outstanding leases sum to %ld", after, le, l.sum);
		CHECK(av >= 0, "C06", "uncovered", "after %s the lessor holds %ld bytes less than it leased", after, -av);
	}
	void quiescent() {
		if (inflight) return;
		long used = peek([&] { return (long)x_quota_used(q); }), want = direct, total = peek([&] { return (long)x_quota_total(q); });
		for (auto &v : ls) for (auto &l : v) want += peek([&] { return (long)x_leased(l.l) + (long)x_lease_available(l.l); });
		CHECK(used == want, "C06", "conservation", "quota usage is %ld but lessors and direct users hold %ld", used, want);
		CHECK(used <= total, "C06", "over-limit", "usage %ld above limit %ld", used, total);
		cover("quiescent_checks");
	}
	void exec(int th, const Op &o) override {
		L &l = ls[th][o.b % ls[th].size()];
		long used0 = peek([&] { return (long)x_quota_used(q); }), total0 = peek([&] { return (long)x_quota_total(q); });
		switch (o.code) {
		case LEASE: {
			long av0 = (long)x_lease_available(l.l);
			uint64_t e0 = ++events; int fl0 = inflight++;
			used0 = peek([&] { return (long)x_quota_used(q); }); total0 = peek([&] { return (long)x_quota_total(q); });
			long r = x_lease(l.l, o.a);
			inflight--; ev(r);
			bool alone = fl0 == 0 && events == e0;
			long used1 = peek([&] { return (long)x_quota_used(q); });
			CHECK(r == o.a || r == -1, "C06", "lease-size", "lease of %ld bytes returned %ld", o.a, r);
			if (r >= 0) { l.leases.push_back(o.a); l.sum += o.a; }
			else {
				cover("lease_refused");
				CHECK((long)x_lease_available(l.l) == av0, "C06", "refusal-effect", "a refused lease changed the spare amount from %ld to %zu", av0, x_lease_available(l.l));
				CHECK(av0 < o.a, "C06", "wrong-refusal", "a lease of %ld bytes was refused with %ld spare bytes in the lessor", o.a, av0);
				if (alone) {
					long need = o.a - av0;
					long units = need / 1024 + (need % 1024 != 0);
					CHECK(units > (total0 - used0) / 1024, "C06", "wrong-refusal", "a lease of %ld bytes was refused: %ld more bytes needed, %ld available in the quota", o.a, need, total0 - used0);
					CHECK(used1 == used0, "C06", "refusal-effect", "a refused lease changed the quota");
				}
			}
			own(l, "lease");
			break;
		}
		case END: {
			if (l.leases.empty()) return;
			size_t i = (size_t)o.a % l.leases.size();
			long n = l.leases[i];
			if (o.c == 0 && n > 1) { long part = 1 + o.a % (n - 1); l.leases[i] -= part; n = part; }
			else l.leases.erase(l.leases.begin() + i);
			events++; inflight++;
			long r = x_end_lease(l.l, n);
			inflight--; ev(r);
			CHECK(r == n, "C06", "end-size", "ending a lease of %ld bytes returned %ld", n, r);
			l.sum -= n;
			own(l, "end of lease");
			CHECK((long)x_lease_available(l.l) < 2 * MB, "C06", "hoarding", "the lessor keeps %zu spare bytes", x_lease_available(l.l));
			break;
		}
		case DUSE: {
			long n = 1 + o.a % (3 * MB);
			if (o.c == 0 && total0 - used0 > 0) n = total0 - used0 - 1024 * (o.b % 900);	/* leave a small remainder */
			if (n <= 0) n = 1;
			events++; inflight++; long r = x_quota_use(q, n); inflight--;
			if (r > 0) { direct += r; dir[th].push_back(r); }
			break;
		}
		case DREL:
			if (!dir[th].empty()) { long n = dir[th].back(); dir[th].pop_back(); events++; inflight++; x_quota_release(q, n); inflight--; direct -= n; }
			break;
		case SETQ: events++; inflight++; x_quota_set(q, MB + o.a % (8 * MB)); inflight--; break;
		case RECREATE: {
			events++; inflight++;
			x_lessor_destroy(l.l);
			inflight--;
			if (!inflight) {
				size_t left = x_leased(l.l) + x_lease_available(l.l);
				CHECK(left == 0, "C06", "destroy", "a destroyed lessor still holds %zu bytes", left);
			}
			l.leases.clear(); l.sum = 0;
			quiescent();
			if (peek([&] { return (long)x_quota_total(q); }) < MB) break;
			x_lessor_create(l.l, q);
			break;
		}
		}
		quiescent();
	}
	const char *opname(int k) override { static const char *n[] = {"lease", "end_lease", "quota_use", "quota_release", "set_limit", "recreate"}; return n[k]; }
	void finish() override {
		quiescent();
		for (auto &v : ls) for (auto &l : v) {
			while (!l.leases.empty()) { x_end_lease(l.l, l.leases.back()); l.sum -= l.leases.back(); l.leases.pop_back(); own(l, "end of lease"); }
			CHECK((long)x_lease_available(l.l) < 2 * MB, "C06", "hoarding", "an idle lessor keeps %zu bytes", x_lease_available(l.l));
			quiescent();
			x_lessor_destroy(l.l);
			quiescent();
		}
		for (auto &v : dir) for (long n : v) x_quota_release(q, n);
		CHECK(x_quota_used(q) == 0, "C06", "destroy", "quota usage is %zu after all lessors were destroyed", x_quota_used(q));
		count_nontrivial();
	}
};
Scenario *sim::make_scenario() { return new Lessor; }
