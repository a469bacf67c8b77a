/* Input buffer: exact byte queue under growth, shrinking and refusals (C16; C24 in the ASAN flavour). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "ibuf";

enum { ALLOC, RES, RESCB, CONSUME, CONSB, DISCARD, TRUNC, RESET, SHRINK, REINIT, RECREATE, VERIFY, EXHAUST, RELIEVE };
struct Ib : Scenario {
	Env e;
	struct B { void *b = nullptr; Bytes s; size_t start = 0; };
	std::vector<B> bs[9];
	Tracker t{"C16,C24", "input buffer"};	/* whole buffers */
	bool asan; const char *P;
	void gen(Rng &r) override {
		asan = c->variant == "asan";
		Env::gen(c, r);
		long th = r.p(0.75) ? 1 : 2, s = c->get("slab"), pg = c->get("page");
		c->set("threads", th); c->set("nb", r.r(1, 2)); c->set("start", r.p(0.3) ? r.r(1, 200) : r.p(0.5) ? pg : r.r(1, s / 2));
		long per = th == 1 ? r.r(5, 70) : r.r(4, 18);
		double out = r.pick({0.2, 0.4, 0.5});
		bool giant = !asan && th == 1 && r.p(0.01); int giants = 0;
		if (giant) { c->set("giant", 1); c->set("limit", 1L << 40); c->set("nb", 1); }
		for (long i = 0; i < per; i++)
			for (long k = 1; k <= th; k++) {
				long x = r.u(100); int code;
				if (r.p(out)) code = x < 50 ? CONSUME : x < 62 ? CONSB : x < 76 ? DISCARD : x < 84 ? TRUNC : x < 86 ? RESET : x < 97 ? SHRINK : x < 98 ? REINIT : RECREATE;
				else code = x < 45 ? ALLOC : x < 72 ? RES : x < 84 ? RESCB : x < 88 ? VERIFY : x < 92 ? EXHAUST : RELIEVE;
				long n;
				switch (r.u(6)) {
				case 0: n = r.r(1, 16); break;
				case 1: n = r.r(1, 300); break;
				case 2: n = (pg << r.r(0, 5)) - 48 + r.r(-20, 20); break;
				case 3: n = r.r(1, pg); break;
				case 4: n = r.p(0.2) ? r.r(1, 2 * s) : r.r(1, s / 4); break;
				default: n = r.r(1, 2 * pg); break;
				}
				if (r.p(0.006) && !asan) n = r.pick({-1L, -2L, -60L, -4096L, -100000L, 0x7fffffffffffffffL, 0x4000000000000001L, 1L << 42});
				if (giant && giants < 5 && r.p(0.25)) { giants++; code = r.pick({(int)ALLOC, (int)ALLOC, (int)RES}); n = r.pick({1L << 31, 1L << 32, (1L << 32) - 48, (1L << 32) + 10, 3L << 30, 5L << 30}) + r.r(-100, 100); }
				c->add((int)k, code, n, (long)r.u(1 << 20));
			}
	}
	void setup() override { e.setup(this); asan = e.asan; P = asan ? "C24" : "C16"; t.props = P; }
	void mk(int th, B &b) {
		if (!b.b) b.b = os_alloc(x_ibuf_sizeof());
		b.start = cfg("start"); b.s.clear();
		x_ibuf_create(b.b, e.cache[th], b.start);
	}
	void begin(int th) override { e.mkcache(th); bs[th].resize(cfg("nb")); for (auto &b : bs[th]) mk(th, b); }
	void state(int th, B &b, const char *what, bool full = false) {
		size_t u = x_ibuf_used(b.b), un = x_ibuf_unused(b.b), cap = x_ibuf_capacity(b.b), pos = x_ibuf_pos(b.b);
		CHECK(u == b.s.total, P, "used", "after %s ibuf_used is %zu, written and not consumed are %zu bytes", what, u, b.s.total);
		CHECK(pos + u + un == cap, P, "capacity", "after %s position %zu, used %zu and unused %zu do not make up capacity %zu", what, pos, u, un, cap);
		char *rp = (char *)x_ibuf_rpos(b.b), *base = rp - pos;
		if (cap && !asan) CHECK(os_is_mapped(base, cap), P, "not-backed", "after %s the buffer of %zu bytes is not backed by memory", what, cap);
		if (u) {
			CHECK(os_is_mapped(rp, u), P, "not-backed", "after %s %zu unread bytes are not accessible", what, u);
			long bad = b.s.cmp(rp, 0, u, full);
			CHECK(bad < 0, P, "bytes-changed", "after %s unread byte %ld of %zu differs from what was written", what, bad, u);
		}
		if (asan) {
			char *w = (char *)x_ibuf_wpos(b.b), *g = (char *)((uintptr_t)rp & ~(uintptr_t)7);
			if (cap) CHECK(os_poisoned(w + un), P, "not-fenced-after", "the byte after the buffer is accessible");
			if (g > base) CHECK(os_poisoned(g - 1), P, "released-accessible", "after %s consumed bytes are accessible", what);
			return;
		}
		size_t sum = 0; int n = 0;
		for (auto &k : bs[th]) if (size_t c = x_ibuf_capacity(k.b)) { sum += c + e.hdr; n++; }
		size_t su = x_scache_used(e.cache[th]);
		CHECK(su == sum, P, "memory", "after %s %d buffers have %zu bytes, %zu are taken from the slab cache", what, n, sum, su);
		for (size_t i = 0; i < bs[th].size(); i++) for (size_t j = 0; j < i; j++) {
			char *p = (char *)x_ibuf_rpos(bs[th][i].b) - x_ibuf_pos(bs[th][i].b), *q = (char *)x_ibuf_rpos(bs[th][j].b) - x_ibuf_pos(bs[th][j].b);
			size_t pc = x_ibuf_capacity(bs[th][i].b), qc = x_ibuf_capacity(bs[th][j].b);
			CHECK(!pc || !qc || p + pc <= q || q + qc <= p, P, "overlap", "two buffers share memory");
		}
	}
	void refused(int th, B &b, size_t n, long av0, size_t cap0, const char *what) {
		cover("refused");
		size_t cap = x_ibuf_capacity(b.b);
		CHECK(cap == cap0, P, "refusal-effect", "refused %s of %zu bytes changed capacity from %zu to %zu", what, n, cap0, cap);
		size_t need = std::max<size_t>(std::max<size_t>(2 * cap, b.start), 2 * (b.s.total + n)) + 2 * e.slab;
		if (nthreads() == 1 && n < (1UL << 40))
			CHECK(th_mmap_failed() > 0 || th_malloc_failed() > 0 || av0 < (long)need, P, "refused-without-reason", "%s of %zu bytes was refused with %ld bytes of quota and no failure", what, n, av0);
		state(th, b, "refusal");
	}
	void exec(int th, const Op &o) override {
		B &b = bs[th][o.b % bs[th].size()];
		Rng g(mix(o.b, 7));
		size_t n = (size_t)o.a, cap0 = x_ibuf_capacity(b.b), un0 = x_ibuf_unused(b.b), pos0 = x_ibuf_pos(b.b);
		long av0 = e.avail();
		if (b.s.total > (64UL << 20) && (o.code == SHRINK || (o.code <= RESCB && n > un0))) {
			cover("giant");
			if (g.p(0.5)) {
				size_t m = g.u(b.s.total);
				x_ibuf_consume(b.b, m); b.s.pop_front(m); pos0 += m;
				state(th, b, "consuming");
			}
		}
		switch (o.code) {
		case ALLOC: {
			char *w0 = (char *)x_ibuf_wpos(b.b);
			char *p = (char *)(o.b & 64 ? x_ibuf_alloc(b.b, n) : x_ibuf_alloc_cb(b.b, n));
			ev(mix(p != nullptr, n));
			if (!p) { refused(th, b, n, av0, cap0, "allocation"); break; }
			wrote(b, p, n, w0, n <= un0, true);
			state(th, b, "allocation");
			if (asan && x_ibuf_unused(b.b)) CHECK(os_poisoned(p + n), P, "not-fenced-after", "the bytes after what was written are accessible");
			break;
		}
		case RES: case RESCB: {
			char *w0 = (char *)x_ibuf_wpos(b.b), *p; size_t room = n;
			if (o.code == RES) p = (char *)x_ibuf_reserve(b.b, n);
			else { if (g.p(0.2)) { n = b.start; room = 0; } p = (char *)x_ibuf_reserve_cb(b.b, &room); }
			ev(mix(p != nullptr, n));
			if (!p) { refused(th, b, n, av0, cap0, "reservation"); break; }
			size_t un = x_ibuf_unused(b.b);
			CHECK(un >= n, P, "reserve", "a reservation of %zu bytes left %zu unused", n, un);
			if (o.code == RESCB) CHECK(room == un, P, "reserve", "reported room %zu, unused %zu", room, un);
			state(th, b, "reservation");
			if (asan) CHECK(!os_poisoned(p) && !os_poisoned(p + n - 1) && !os_poisoned(p + un - 1), P, "object-fenced", "reserved memory is fenced");
			size_t m = g.p(0.2) ? 0 : 1 + g.u(o.code == RES ? n : un);
			if (g.p(0.5)) {
				wrote(b, p, m, w0, n <= un0, false);
				x_ibuf_advance(b.b, m);
			} else if (m) {
				char *q = (char *)x_ibuf_alloc(b.b, m);
				CHECK(q == p, P, "reserve", "allocation after a reservation is not in the reserved space");
				wrote(b, p, m, w0, n <= un0, true);
			}
			state(th, b, "write");
			break;
		}
		case CONSUME: case CONSB: {
			size_t u = b.s.total; if (!u) break;
			size_t m = g.p(0.25) ? u : g.u(u + 1);
			char *rp = (char *)x_ibuf_rpos(b.b);
			long bad = b.s.cmp(rp, 0, m, true);
			CHECK(bad < 0, P, "bytes-changed", "byte %ld read from the front differs from what was written", bad);
			if (o.code == CONSUME) x_ibuf_consume(b.b, m); else x_ibuf_consume_before(b.b, rp + m);
			b.s.pop_front(m);
			CHECK(x_ibuf_pos(b.b) == pos0 + m && x_ibuf_capacity(b.b) == cap0, P, "position", "consuming %zu bytes moved the position from %zu to %zu", m, pos0, x_ibuf_pos(b.b));
			state(th, b, "consuming");
			break;
		}
		case DISCARD: case TRUNC: {
			size_t m = g.u(b.s.total + 1);
			if (o.code == DISCARD) x_ibuf_discard(b.b, m); else x_ibuf_truncate(b.b, b.s.total - m);
			b.s.pop_back(m);
			CHECK(x_ibuf_pos(b.b) == pos0 && x_ibuf_capacity(b.b) == cap0, P, "position", "discarding moved the read position");
			state(th, b, "discarding");
			if (asan && m) CHECK(os_poisoned((char *)x_ibuf_wpos(b.b)), P, "released-accessible", "discarded bytes are accessible");
			break;
		}
		case RESET:
			x_ibuf_reset(b.b); b.s.clear();
			CHECK(x_ibuf_pos(b.b) == 0 && x_ibuf_capacity(b.b) == cap0, P, "reset", "reset changed capacity or left position %zu", x_ibuf_pos(b.b));
			state(th, b, "reset");
			if (asan && cap0) CHECK(os_poisoned((char *)x_ibuf_wpos(b.b)), P, "released-accessible", "forgotten bytes are accessible");
			break;
		case SHRINK: {
			x_ibuf_shrink(b.b);
			size_t cap = x_ibuf_capacity(b.b);
			state(th, b, "shrinking", true);
			CHECK(cap <= cap0, P, "shrink", "shrinking grew the buffer from %zu to %zu", cap0, cap);
			if (b.s.total == 0) CHECK(cap == 0, P, "shrink", "an empty buffer of %zu bytes was not released", cap);
			else if (!asan && th_mmap_failed() == 0 && th_malloc_failed() == 0 && nthreads() == 1 && av0 > (long)(cap0 + 4 * e.slab)) {
				size_t want = std::max(b.start, b.s.total);
				size_t rw = x_slab_real_size(e.cache[th], want), rc = x_slab_real_size(e.cache[th], cap);
				CHECK(rc == rw, P, "shrink", "shrinking left a block of %zu bytes for %zu bytes, %zu would do", rc, b.s.total, rw);
				if (cap < cap0) cover("shrunk");
			}
			break;
		}
		case REINIT: case RECREATE:
			if (o.code == REINIT) x_ibuf_reinit(b.b);
			else { x_ibuf_destroy(b.b); mk(th, b); }
			b.s.clear();
			CHECK(x_ibuf_capacity(b.b) == 0, P, "reinit", "a reinitialised buffer has capacity %zu", x_ibuf_capacity(b.b));
			state(th, b, "reinitialisation");
			break;
		case VERIFY: for (auto &k : bs[th]) state(th, k, "verification", true); break;
		case EXHAUST: if (!asan) { e.exhaust(); cover("exhausted"); } break;
		case RELIEVE: e.relieve(); break;
		}
	}
	void wrote(B &b, char *p, size_t n, char *w0, bool fit, bool allocated) {
		if (fit) CHECK(p == w0, P, "reserve", "space was available but the write position moved");
		if (n && !os_is_mapped(p, n)) { viol(P, "not-backed", "%zu bytes returned by the input buffer are not backed by memory", n); return; }
		if (p != w0 && w0) cover("moved");
		(void)allocated;
		uint64_t tag = b.s.tag();
		Bytes::put(p, n, tag); b.s.push(n, tag);
	}
	const char *opname(int k) override { static const char *n[] = {"alloc", "reserve", "reserve_cb", "consume", "consume_before", "discard", "truncate", "reset", "shrink", "reinit", "recreate", "verify", "exhaust", "relieve"}; return n[k]; }
	void end(int th) override {
		for (auto &b : bs[th]) state(th, b, "the end", true);
		for (auto &b : bs[th]) x_ibuf_destroy(b.b);
		CHECK(x_scache_used(e.cache[th]) == 0, P, "not-returned", "%zu bytes of slabs are in use after the buffers were destroyed", x_scache_used(e.cache[th]));
		x_scache_destroy(e.cache[th]);
	}
	void finish() override { e.finish(P); count_nontrivial(); }
};
Scenario *sim::make_scenario() { return new Ib; }
