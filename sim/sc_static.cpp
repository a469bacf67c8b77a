/* Static buffer: private per thread, cyclic, aligned (C22). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "static";
enum { ALLOC, AALLOC, RESERVE, ARESERVE, RESET, VERIFY };
struct Static : Scenario {
	struct S { size_t off, n; uint64_t tag; };
	struct Th { std::vector<S> live; size_t pos = 0; };
	Th T[9]; uint64_t next = 1; size_t SZ = 0;
	const char *P = "C22";
	void gen(Rng &r) override {
		long th = r.p(0.25) ? 1 : r.r(2, 4);
		c->set("threads", th);
		long per = r.r(4, 120 / th), big = r.pick({20L, 300L, 2000L, 6000L});
		for (long i = 0; i < per; i++)
			for (long k = 1; k <= th; k++) {
				long x = r.u(100), n, al = 1L << r.u(r.p(0.1) ? 14 : 8);
				int code = x < 50 ? ALLOC : x < 75 ? AALLOC : x < 83 ? RESERVE : x < 91 ? ARESERVE : x < 93 ? RESET : VERIFY;
				n = r.r(0, big);
				if (r.p(0.06)) n = 12288 + r.r(-20, 20);
				if (r.p(0.03)) n = r.pick({-1L, -2L, -8L, -100L, -12288L, -12289L, 0x7fffffffffffffffL, 1L << 32, -4096L}) - r.r(0, 40);
				c->add((int)k, code, n, al, (long)r.u(1 << 20));
			}
	}
	void setup() override { set_tls_swap(true); SZ = x_static_size(); }
	void verify(Th &t, const char *what) {
		char *base = (char *)peek([] { return x_static_base(); });
		for (auto &s : t.live) for (size_t i = 0; i < s.n; i += s.n > 256 && i > 16 && i + 40 < s.n ? 13 : 1)
			CHECK(base[s.off + i] == (char)Bytes::at(s.tag, i), P, "contents", "%s: %zu bytes at offset %zu of the buffer of this thread changed at byte %zu", what, s.n, s.off, i);
	}
	void exec(int th, const Op &op) override {
		Th &t = T[th]; char *base = (char *)peek([] { return x_static_base(); });
		size_t n = (size_t)op.a, al = 1; char *p; bool res = false;
		verify(t, "before a request");
		switch (op.code) {
		case RESET: x_static_reset(); t.live.clear(); t.pos = 0; return;
		case VERIFY: return;
		case ALLOC: p = (char *)x_static_alloc(n); break;
		case AALLOC: al = (size_t)op.b; p = (char *)x_static_aligned_alloc(n, al); break;
		case RESERVE: p = (char *)x_static_reserve(n); res = true; break;
		default: al = (size_t)op.b; p = (char *)x_static_aligned_reserve(n, al); res = true; break;
		}
		size_t slack = n + (al - 1);
		bool fits = n <= SZ && slack <= SZ;
		ev(p ? (uint64_t)(p - base) : 1);
		if (!p) {
			CHECK(!fits, P, "refused", "a request for %zu bytes aligned to %zu failed, the buffer has %zu", n, al, SZ);
			cover("too_large"); verify(t, "after a refused request");
			return;
		}
		CHECK(n <= SZ && p >= base && (size_t)(p - base) <= SZ && n <= SZ - (size_t)(p - base), P, "outside", "a request for %zu bytes returned offset %zd of a buffer of %zu bytes", n, p - base, SZ);
		CHECK((uintptr_t)p % al == 0, P, "misaligned", "a request for %zu bytes aligned to %zu returned %p", n, al, p);
		size_t off = p - base;
		if (t.pos + slack > SZ) { t.live.clear(); t.pos = 0; cover("wrapped"); }	/* wraps: everything older may go */
		for (auto &s : t.live) CHECK(n == 0 || s.n == 0 || off + n <= s.off || s.off + s.n <= off, P, "overlap", "%zu bytes at offset %zu overlap earlier %zu bytes at %zu although %zu bytes are left", n, off, s.n, s.off, SZ - t.pos);
		uint64_t tag = next++;
		/* bytes are written piecemeal, others run in between */
		for (size_t i = 0; i < n; i++) { p[i] = (char)Bytes::at(tag, i); if (i % 97 == 50) yield_point(); }
		if (res) {	/* the reserved space is consumed by the following requests */
			size_t k = 0; char *q = p; Rng g(op.c);
			if (al > 1) {	/* an aligned reservation is consumed by an aligned allocation */
				size_t m = n ? g.u(n + 1) : 0;
				char *a = (char *)x_static_aligned_alloc(m, al);
				CHECK(a == p, P, "reserve", "%zu bytes allocated after an aligned reservation of %zu are not at its start", m, n);
				t.live.push_back(S{off, m, tag}); t.pos = off + m;
			} else if (n) {
				for (int j = 0; j < 3 && k < n; j++) {
					size_t m = g.r(0, n - k);
					char *a = (char *)x_static_alloc(m);
					CHECK(a == q, P, "reserve", "%zu bytes allocated after a reservation of %zu are not taken from it", m, n);
					k += m; q += m;
				}
				t.live.push_back(S{off, k, tag}); t.pos = off + k;
			}
		} else { t.live.push_back(S{off, n, tag}); t.pos = off + n; }
		if (al > 1) cover("aligned");
		verify(t, "after a request");
	}
	const char *opname(int k) override { static const char *n[] = {"alloc", "aligned_alloc", "reserve", "aligned_reserve", "reset", "verify"}; return n[k]; }
	void end(int th) override { verify(T[th], "at the end"); }
	void finish() override { if (nthreads() > 1) count_nontrivial(); }
};
Scenario *sim::make_scenario() { return new Static; }
