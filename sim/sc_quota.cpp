/* Quota: linearizability against a sequential counter with a limit (C01), lock-freedom (C05). */
#include "engine.h"
#include "shim/shim.h"
using namespace sim;
const char *sim::scenario_name = "quota";

enum { USE, RELEASE, SET, GET, TOTAL, USED };
struct Quota : Scenario {
	void *q = nullptr;
	Lin lin;
	std::vector<long> held[9];	/* granted bytes per thread */
	long unit, maxb;
	bool big = false;
	void gen(Rng &r) override {
		long th = r.p(0.1) ? 1 : r.r(2, 4);
		c->set("threads", th);
		bool c5 = active("C05");
		/* 0 small, 1 ample, 2 near the representable maximum */
		long kind = c5 ? 1 : r.u(10) < 6 ? 0 : r.u(3);
		c->set("kind", kind);
		long units = kind == 0 ? r.r(1, 12) : kind == 1 ? 100000 : 4294967295L - r.r(0, 6);
		c->set("limit", units * 1024 - (kind == 2 ? 0 : r.p(0.3) ? r.r(0, 1023) : 0));
		if (r.p(0.6)) c->set("fr_cas", r.pick({20, 100, 300}));
		if (c5) c->set("solo", r.pick({5, 30, 100}));
		long per = c5 ? r.r(3, 8) : r.r(1, 5);
		for (long i = 0; i < per; i++)
			for (long t = 1; t <= th; t++) {
				long x = r.u(100), code = x < 40 ? USE : x < 68 ? RELEASE : x < 80 ? SET : x < 92 ? GET : x < 96 ? TOTAL : USED;
				long sz;
				if (kind == 2 || (!c5 && r.p(0.05))) {
					/* around the maximum */
					static const long off[] = {0, 1, -1, 1023, 1024, -1023, -1024, -1025, 2048, -4096};
					long base = r.p(0.5) ? 4294967295L * 1024 : r.p(0.5) ? 2147483648L * 1024 : 1024 * r.r(1, 5);
					sz = base + off[r.u(10)];
					if (r.p(0.1)) sz = r.pick({0x7fffffffffffffffL, -1L, -1024L, -1023L, (long)(4294967296L * 1024), (long)(4294967297L * 1024)});
				} else {
					sz = r.r(1, 5) * 1024;
					if (r.p(0.4)) sz -= r.r(0, 1023);
				}
				if (sz == 0) sz = 1;
				c->add((int)t, (int)code, sz, (long)r.u(1000), (long)r.u(3));
			}
	}
	void setup() override {
		unit = (long)x_quota_unit(); maxb = (long)x_quota_max();
		q = os_alloc(x_quota_sizeof());
		x_quota_init(q, cfg("limit"));
		long t = (long)x_quota_total(q);
		CHECK(t == (cfg("limit") + unit - 1) / unit * unit && x_quota_used(q) == 0, "C01", "init", "quota of %ld starts as total %ld used %zu", cfg("limit"), t, x_quota_used(q));
	}
	static long up(unsigned long n) { return n > 0xfffffffffffffc00UL ? -1 : (long)((n + 1023) / 1024); }
	void exec(int th, const Op &o) override {
		HEv e{th, now(), 0, o.code, o.a, 0, 0, 0};
		switch (o.code) {
		case USE: {
			if (!e.a) e.a = 1;
			e.r1 = x_quota_use(q, (size_t)e.a);
			if (e.r1 > 0) held[th].push_back(e.r1);
			CHECK(e.r1 == -1 || e.r1 == up(e.a) * unit, "C01", "grant-size", "use of %ld bytes returned %ld", e.a, e.r1);
			CHECK(!(active("C05") && e.r1 < 0 && o.a > 0 && o.a <= 5 * 1024), "C05", "spurious-failure", "use of %ld bytes refused although the limit is far away", o.a);
			break;
		}
		case RELEASE: {
			if (held[th].empty()) return;
			size_t i = o.b % held[th].size();
			long n = held[th][i];
			if (o.c == 0 && n > unit && n < maxb) {	/* part of a grant, in whole units */
				long part = unit * (1 + o.b % (n / unit - 1));
				held[th][i] -= part; n = part;
			} else {
				held[th].erase(held[th].begin() + i);
			}
			e.a = n;
			if (o.c == 1) n -= o.b % unit;	/* rounded up again by release */
			e.r1 = x_quota_release(q, (size_t)n);
			CHECK(e.r1 == e.a, "C01", "release-size", "release of %ld bytes returned %ld", n, e.r1);
			break;
		}
		case SET: {
			unsigned long n = (unsigned long)o.a;
			if (active("C05") ) n = 100000UL * 1024 + n % 1000000;
			if (n > (unsigned long)maxb) n = (unsigned long)maxb;
			if (cfg("kind") == 0) n = 1024 * (o.b % 14) + (unsigned long)o.a % 1024;
			e.a = (long)n;
			e.r1 = x_quota_set(q, n);
			CHECK(e.r1 == -1 || e.r1 == up(n) * unit, "C01", "set-size", "limit %lu set as %ld", n, e.r1);
			break;
		}
		case GET: { size_t t, u; x_quota_get(q, &t, &u); e.r1 = (long)t; e.r2 = (long)u; break; }
		case TOTAL: e.r1 = (long)x_quota_total(q); break;
		case USED: e.r1 = (long)x_quota_used(q); break;
		}
		e.res = now();
		if (verbose_()) logf("-> %ld %ld", e.r1, e.r2);
		ev(mix(e.code, e.r1) ^ e.r2);
		lin.h.push_back(e);
	}
	static bool verbose_() { return true; }
	const char *opname(int k) override { static const char *n[] = {"use", "release", "set_limit", "snapshot", "read_total", "read_used"}; return n[k]; }
	void finish() override {
		long u = (long)x_quota_used(q), sum = 0;
		for (auto &v : held) for (long x : v) sum += x;
		CHECK(u == sum, "C01", "conservation", "after all calls usage is %ld but outstanding grants sum to %ld", u, sum);
		CHECK(u <= (long)x_quota_total(q), "C01", "over-limit", "usage %ld exceeds limit %zu", u, x_quota_total(q));
		if (active("C01")) {
			std::vector<long> init = { up(cfg("limit")), 0 };
			bool ok = lin.check(init, [](std::vector<long> &s, const HEv &e) {
				long n = e.code == USE || e.code == SET ? up((unsigned long)e.a) : e.a / 1024;
				switch (e.code) {
				case USE:
					if (n < 0 || n > 4294967295L || s[1] + n > s[0]) return e.r1 == -1;
					if (e.r1 == -1) return false;
					s[1] += n; return true;
				case RELEASE: if (n > s[1]) return false; s[1] -= n; return true;
				case SET: if (n < s[1]) return e.r1 == -1; if (e.r1 == -1) return false; s[0] = n; return true;
				case GET: return e.r1 == s[0] * 1024 && e.r2 == s[1] * 1024;
				case TOTAL: return e.r1 == s[0] * 1024;
				case USED: return e.r1 == s[1] * 1024;
				}
				return false;
			});
			if (lin.gave_up) cover("linearizability_inconclusive");
			else cover("linearizability_checked");
			if (!ok)
				viol("C01", "not-linearizable", "no sequential order explains the history:%s",
				     lin.text([this](const HEv &e) { char b[128]; snprintf(b, sizeof b, "%s(%ld)=%ld,%ld", opname(e.code), e.a, e.r1, e.r2); return std::string(b); }).c_str());
			for (auto &e : lin.h) if ((e.code == USE || e.code == SET) && e.r1 == -1) { cover("refusals"); break; }
		}
		for (auto &v : held) for (long x : v) x_quota_release(q, (size_t)x);
		CHECK(x_quota_used(q) == 0, "C01", "conservation", "usage is %zu after everything was released", x_quota_used(q));
	}
};
Scenario *sim::make_scenario() { return new Quota; }
