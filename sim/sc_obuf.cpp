/* Output buffer: exact bytes under savepoints, rollbacks, refusals (C17), published bytes stay put for
 * another thread that transmits them (C18); ASAN flavour (C24). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "obuf";

enum { ALLOC, RES, RESCB, DUP, SVP, ROLLBACK, RESET, RECREATE, PUBLISH, VERIFY, EXHAUST, RELIEVE, RDROP, RESBACK };
struct Ob : Scenario {
	Env e;
	struct Sv { x_osvp s; size_t total; uint64_t no; std::vector<x_iov> v; };
	struct B { void *b = nullptr; Bytes s; std::vector<Sv> sv; bool live = false; size_t start = 0; uint64_t no = 0; };
	std::vector<B> bs[9];
	std::vector<char> src;
	/* what the owner published and the reader has not finished with */
	struct Pub { int b; Sv from, to; std::vector<Bytes::S> want; bool taken; };
	std::vector<Pub> pub; bool owner_done = false; uint64_t sent = 0;
	bool asan, deep; const char *P, *PR; int owners;
	void gen(Rng &r) override {
		asan = c->variant == "asan";
		Env::gen(c, r);
		long s = c->get("slab"), pg = c->get("page");
		bool reader = r.p(c->prop == "C18" ? 0.9 : 0.3), deep = !asan && r.p(0.01);
		if (deep) reader = false;
		long own = deep ? 1 : reader ? 1 : r.p(0.8) ? 1 : 2;
		c->set("reader", reader && !deep); c->set("threads", own + (reader && !deep)); c->set("owners", own);
		c->set("nb", r.r(1, 2)); c->set("start", r.p(0.3) ? r.r(1, 200) : r.p(0.5) ? pg : r.r(1, s / 2));
		long per = deep ? 150 : own == 1 ? r.r(5, reader ? 40 : 70) : r.r(4, 18);
		/* every allocation has a vector of its own up to a limit, then vectors are shared: get there first */
		long pre = asan && own == 1 && r.p(0.12) ? r.r(92, 97) : 0;
		if (pre) { c->set("nb", 1); per = r.r(8, 25); for (long i = 0; i < pre; i++) c->add(1, r.p(0.9) ? ALLOC : DUP, r.r(1, 40), (long)r.u(1 << 20), 1); }
		if (deep) { c->set("deep", 1); c->set("limit", 1L << 40); c->set("start", r.r(1, 8)); c->set("nb", 1); c->set("fr_mmap", 0); c->set("fr_malloc", 0); }
		double back = deep ? 0.01 : r.pick({0.1, 0.25, 0.4});
		double psvp = r.pick({0.1, 0.2, 0.3});
		for (long i = 0; i < per; i++) {
			for (long k = 1; k <= own; k++) {
				long x = r.u(100); int code;
				if (r.p(back)) code = x < 60 ? ROLLBACK : x < 80 ? RESBACK : x < 92 ? RESET : RECREATE;
				else if (r.p(psvp)) code = reader && x < 60 ? PUBLISH : SVP;
				else code = x < 25 ? ALLOC : x < 42 ? RES : x < 50 ? RESCB : x < 82 ? DUP : x < 88 ? VERIFY : x < 93 ? EXHAUST : RELIEVE;
				if (pre && (code == RESET || code == RECREATE)) code = RESBACK;
				if (deep && (code == EXHAUST || code == RESET || code == RECREATE)) code = VERIFY;
				long n;
				switch (r.u(7)) {
				case 0: n = r.r(1, 16); break;
				case 1: n = r.r(1, 300); break;
				case 2: n = (pg << r.r(0, 5)) - 48 + r.r(-20, 20); break;
				case 3: n = r.r(1, pg); break;
				case 4: n = r.p(0.2) ? r.r(1, 2 * s) : r.r(1, s / 4); break;
				default: n = r.r(1, 2 * pg); break;
				}
				if (r.p(0.006) && !asan) n = r.pick({-1L, -2L, -60L, -4096L, -100000L, 0x7fffffffffffffffL, 0x4000000000000001L, 1L << 42});
				if (pre && !r.p(0.1)) n = r.r(1, 200);
				c->add((int)k, code, n, (long)r.u(1 << 20), r.u(8));
			}
			if (c->get("reader") && r.p(0.6)) c->add((int)own + 1, RDROP, 0, (long)r.u(1 << 20));
		}
	}
	void setup() override {
		e.setup(this); asan = e.asan; P = asan ? "C24" : "C17"; PR = asan ? "C24" : "C18"; deep = cfg("deep"); owners = (int)cfg("owners");
		src.resize(600 << 10);
	}
	void mk(int th, B &b) {
		if (!b.b) b.b = os_alloc(x_obuf_sizeof());
		b.start = cfg("start"); b.s.clear(); b.sv.clear();
		x_obuf_create(b.b, e.cache[th], b.start); b.live = true;
		CHECK(x_obuf_is_initialized(b.b), P, "initialized", "not initialised after creation");
	}
	void begin(int th) override {
		if (th > owners) return;
		e.mkcache(th); bs[th].resize(cfg("nb")); for (auto &b : bs[th]) mk(th, b);
	}
	static std::vector<x_iov> iovs(B &b) {
		return peek([&] { std::vector<x_iov> v; int n = x_obuf_iovcnt(b.b); for (int i = 0; i < n; i++) { x_iov k; x_obuf_iov(b.b, i, &k); v.push_back(k); } return v; });
	}
	void state(B &b, const char *what, bool full = false) {
		size_t sz = x_obuf_size(b.b);
		CHECK(sz == b.s.total, P, "size", "after %s obuf_size is %zu, appended and not rolled back are %zu bytes", what, sz, b.s.total);
		int n = x_obuf_iovcnt(b.b);
		CHECK(n >= 0 && n <= x_obuf_iov_max(), P, "iovcnt", "after %s there are %d vectors", what, n);
		auto v = iovs(b);
		size_t off = 0; char *last = nullptr;
		for (int i = 0; i < (int)v.size(); i++) {
			if (!v[i].n) { CHECK(asan, P, "empty-iov", "after %s vector %d of %d is empty", what, i, n); continue; }
			if (off + v[i].n > b.s.total) { viol(P, "extra-bytes", "after %s the vectors hold more than the %zu bytes appended", what, b.s.total); return; }
			if (!os_is_mapped(v[i].p, v[i].n)) { viol(P, "not-backed", "after %s vector %d of %zu bytes is not backed by memory", what, i, v[i].n); return; }
			long bad = b.s.cmp((char *)v[i].p, off, v[i].n, full);
			CHECK(bad < 0, P, "bytes-changed", "after %s byte %ld of vector %d (stream offset %zu) differs from what was appended", what, bad, i, off);
			if (asan) CHECK(os_poisoned((char *)v[i].p + v[i].n), P, "not-fenced-after", "after %s the byte after vector %d is accessible", what, i);
			off += v[i].n; last = (char *)v[i].p + v[i].n;
		}
		CHECK(off == b.s.total, P, "missing-bytes", "after %s the vectors hold %zu of %zu bytes", what, off, b.s.total);
		(void)last;
		/* what a savepoint covers stays where it was */
		if (!b.sv.empty()) {
			Sv &s = b.sv.back();
			for (size_t i = 0; i < s.v.size(); i++) {
				if (!s.v[i].n) continue;
				bool ok = i < v.size() && v[i].p == s.v[i].p && v[i].n >= s.v[i].n;
				CHECK(ok, PR, "moved", "after %s vector %zu (%p, %zu bytes at the savepoint) is at %p with %zu bytes", what, i, s.v[i].p, s.v[i].n, i < v.size() ? v[i].p : nullptr, i < v.size() ? v[i].n : 0);
			}
		}
	}
	void refused(B &b, size_t n, long av0, const char *what) {
		cover("refused");
		int cnt = x_obuf_iovcnt(b.b), max = x_obuf_iov_max();
		if (cnt + 1 >= max) cover("iov_limit");
		if (nthreads() == 1 && n < (1UL << 40) && cnt < max) {
			long need = (long)std::max(b.start << (cnt + 2), 4 * n) + 4 * (long)e.slab;
			CHECK(th_mmap_failed() > 0 || th_malloc_failed() > 0 || av0 < need, P, "refused-without-reason", "%s of %zu bytes was refused with %ld bytes of quota and %d vectors", what, n, av0, cnt);
		}
		state(b, "refusal");
	}
	long cap_of(B &b) { return (long)(b.start << std::min(31, x_obuf_iovcnt(b.b))); }
	void exec(int th, const Op &o) override {
		if (o.code == RDROP) { transmit(o); return; }
		int bi = o.b % bs[th].size();
		B &b = bs[th][bi];
		Rng g(mix(o.b, 11));
		size_t n = (size_t)o.a; long av0 = e.avail();
		if (deep && o.code <= DUP) {	/* walk through all vectors */
			n = o.c & 1 ? 1 + o.b % 3 : (size_t)std::max(cap_of(b), 4049L);
			if (o.code == DUP && n > (256 << 10)) n = 1;
		}
		switch (o.code) {
		case ALLOC: {
			char *p = (char *)(o.b & 64 ? x_obuf_alloc(b.b, n) : x_obuf_alloc_cb(b.b, n));
			ev(mix(p != nullptr, n));
			if (!p) { refused(b, n, av0, "allocation"); break; }
			wrote(b, p, n);
			state(b, "allocation");
			break;
		}
		case RES: case RESCB: {
			size_t room = n;
			char *p = (char *)(o.code == RES ? x_obuf_reserve(b.b, n) : x_obuf_reserve_cb(b.b, &room));
			ev(mix(p != nullptr, n));
			if (!p) { refused(b, n, av0, "reservation"); break; }
			CHECK(room >= n, P, "reserve", "a reservation of %zu bytes has room for %zu", n, room);
			CHECK(x_obuf_size(b.b) == b.s.total, P, "size", "a reservation changed the size");
			if (!os_is_mapped(p, room)) { viol(P, "not-backed", "%zu reserved bytes are not backed by memory", room); break; }
			/* the whole reservation is usable */
			if (room <= (1 << 20)) Bytes::put(p, room, 5);
			if (asan && g.p(0.3)) yield_point();
			if (asan && g.p(0.2)) {
				if (g.p(0.3)) misuse("double-reserve", "a reservation on top of another one", [&] { x_obuf_reserve(b.b, n); });
				else misuse("more-than-reserved", "an allocation of more than was reserved", [&] { x_obuf_alloc(b.b, (256UL << 20) + g.u(5)); });
			}
			size_t m = 1 + g.u(room <= (1 << 20) ? room : n);
			char *q = (char *)x_obuf_alloc(b.b, m);
			CHECK(q == p, P, "reserve", "allocation after a reservation is not in the reserved space");
			if (q) wrote(b, q, m);
			state(b, "writing reserved space");
			break;
		}
		case DUP: {
			if (n > src.size()) n = 1 + (size_t)o.b % 300;
			if (o.c == 7 && g.p(0.3)) n = 0;
			uint64_t tag = b.s.tag();
			Bytes::put(src.data() + (o.b & 7), n, tag);
			/* another thread may overwrite the source once the call is over, not during it */
			std::vector<char> own; const char *d = src.data() + (o.b & 7);
			if (nthreads() > 1) { own.assign(d, d + n); d = own.data(); }
			size_t k = x_obuf_dup(b.b, d, n);
			ev(mix(k, n));
			CHECK(k <= n, P, "dup", "appending %zu bytes reports %zu", n, k);
			b.s.push(std::min(k, n), tag);
			if (k < n) { cover("dup_partial", k > 0); refused(b, n, av0, "append"); }
			else state(b, "append");
			break;
		}
		case SVP: take(b); break;
		case RESBACK: case ROLLBACK: {
			/* room that was asked for and not used goes with the rollback */
			if (o.code == RESBACK) {
				char *p = n > (4 << 20) ? nullptr : (char *)x_obuf_reserve(b.b, n);
				if (p) { cover("reserved_then_rolled_back"); if (os_is_mapped(p, n) && n <= (1 << 20)) Bytes::put(p, n, 9); }
			}
			size_t lo = 0;
			for (size_t i = 0; i < b.sv.size(); i++) for (auto &p : pub) if (p.b == bi && p.to.no >= b.sv[i].no) lo = i + 1;
			bool free_all = true; for (auto &p : pub) if (p.b == bi) free_all = false;
			Sv s; size_t k = 0;
			if (free_all && (b.sv.empty() || g.p(0.1))) { x_obuf_svp_reset(&s.s); s.total = 0; s.no = 0; }
			else {
				/* not below what the reader still uses */
				for (; lo > 0 && b.sv[lo - 1].no > 0; ) { bool used = false; for (auto &p : pub) if (p.b == bi && p.to.no == b.sv[lo - 1].no) used = true; if (used) { lo--; break; } lo--; }
				if (lo >= b.sv.size()) {
					if (o.code == RESBACK) { char *p = (char *)x_obuf_alloc(b.b, 1); if (p) wrote(b, p, 1); state(b, "allocation"); }
					break;
				}
				k = lo + g.u(b.sv.size() - lo); s = b.sv[k];
			}
			x_obuf_rollback(b.b, &s.s);
			b.s.pop_back(b.s.total - s.total);
			if (s.no) b.sv.resize(k + 1); else b.sv.clear();
			state(b, "rollback", true);
			if (s.no) {
				auto v = iovs(b); size_t cnt = 0, want = 0;
				for (auto &x : v) if (x.n) cnt++;
				for (auto &x : s.v) if (x.n) want++;
				CHECK(cnt == want, P, "rollback", "after rollback there are %zu vectors with data, at the savepoint there were %zu", cnt, want);
				for (size_t i = 0; i < v.size() && i < s.v.size(); i++)
					CHECK(!s.v[i].n || (v[i].p == s.v[i].p && v[i].n == s.v[i].n), P, "rollback", "vector %zu differs from the savepoint after rollback", i);
			} else CHECK(x_obuf_iovcnt(b.b) == 0, P, "rollback", "after rollback to the start %d vectors remain", x_obuf_iovcnt(b.b));
			cover("rollback");
			break;
		}
		case RESET: case RECREATE: {
			bool busy = false; for (auto &p : pub) if (p.b == bi) busy = true;
			if (busy) break;
			if (o.code == RESET) { x_obuf_reset(b.b); b.s.clear(); b.sv.clear(); CHECK(x_obuf_iovcnt(b.b) == 0, P, "reset", "after reset %d vectors remain", x_obuf_iovcnt(b.b)); }
			else { destroy(b); mk(th, b); }
			state(b, "reset");
			break;
		}
		case PUBLISH: {
			Sv from;
			x_obuf_svp_reset(&from.s); from.total = 0; from.no = 0;
			size_t nf = b.sv.size(); if (nf && g.p(0.8)) from = b.sv[g.u(nf)];
			take(b);
			Pub p{bi, from, b.sv.back(), {}, false};
			{ size_t o2 = 0; for (auto &x : b.s.s) { size_t a = std::max(o2, from.total), z = std::min(o2 + x.n, p.to.total); if (a < z) p.want.push_back(Bytes::S{z - a, x.tag, x.off + a - o2, x.all}); o2 += x.n; } }
			pub.push_back(p);
			cover("published");
			break;
		}
		case VERIFY: for (auto &k : bs[th]) state(k, "verification", true); break;
		case EXHAUST: if (!asan) { e.exhaust(); cover("exhausted"); } break;
		case RELIEVE: e.relieve(); break;
		}
	}
	void take(B &b) {
		Sv s; x_obuf_svp(b.b, &s.s); s.total = b.s.total; s.no = ++b.no; s.v = iovs(b);
		CHECK(s.s.used == b.s.total, P, "savepoint", "a savepoint at %zu bytes says %zu", b.s.total, s.s.used);
		char *p = (char *)x_obuf_svp_ptr(b.b, &s.s);
		if (s.s.iov_len) CHECK(!s.v.empty() && p == (char *)s.v.back().p + s.v.back().n, P, "savepoint", "the savepoint does not point at the end of data");
		b.sv.push_back(s);
	}
	void wrote(B &b, char *p, size_t n) {
		if (!os_is_mapped(p, n)) { viol(P, "not-backed", "%zu bytes returned by the output buffer are not backed by memory", n); return; }
		uint64_t tag = b.s.tag();
		Bytes::put(p, n, tag); b.s.push(n, tag);
	}
	/* the reader: takes bytes between two published savepoints straight from the buffer, as writev() would */
	void transmit(const Op &o) {
		size_t i = 0;
		while (i < pub.size() && pub[i].taken) i++;
		if (i == pub.size()) return;
		pub[i].taken = true;
		Pub p = pub[i]; void *b = bs[1][p.b].b;
		Rng g(mix(o.b, 13));
		Bytes want; for (auto &x : p.want) { want.s.push_back(x); want.total += x.n; }
		size_t off = 0;
		for (size_t k = p.from.s.pos; k <= p.to.s.pos; k++) {
			x_iov v; x_obuf_iov(b, (int)k, &v);
			char *base = (char *)v.p; size_t lo = k == p.from.s.pos ? p.from.s.iov_len : 0, hi = k == p.to.s.pos ? p.to.s.iov_len : v.n;
			if (hi <= lo) { CHECK(hi == lo, PR, "published-shrunk", "vector %zu has %zu bytes, %zu were published", k, hi, lo); continue; }
			size_t n = hi - lo;
			/* in parts, the owner runs in between */
			for (size_t d = 0; d < n; ) {
				size_t m = std::min(n - d, 1 + g.u(g.p(0.5) ? 64 : 16384));
				yield_point();
				if (off + m > want.total) { viol(PR, "published-extra", "more bytes than published"); return; }
				if (!os_is_mapped(base + lo + d, m)) { viol(PR, "published-unmapped", "published bytes at stream offset %zu are no longer backed by memory", p.from.total + off); return; }
				if (asan) CHECK(!os_poisoned(base + lo + d) && !os_poisoned(base + lo + d + m - 1), PR, "published-fenced", "published bytes are fenced");
				long bad = want.cmp(base + lo + d, off, m, m <= 4096);
				CHECK(bad < 0, PR, "published-changed", "published byte at stream offset %zu differs from what was appended before the savepoint", p.from.total + off + bad);
				d += m; off += m;
			}
		}
		CHECK(off == want.total, PR, "published-missing", "%zu of %zu published bytes found", off, want.total);
		sent += off; cover("transmitted");
		ev(off);
		/* finished: the owner may discard them */
		for (size_t j = 0; j < pub.size(); j++) if (pub[j].taken && pub[j].to.no == p.to.no && pub[j].b == p.b) { pub.erase(pub.begin() + j); break; }
	}
	void destroy(B &b) {
		state(b, "the end", true);
		x_obuf_destroy(b.b); b.live = false;
		CHECK(!x_obuf_is_initialized(b.b), P, "initialized", "still initialised after destruction");
	}
	const char *opname(int k) override { static const char *n[] = {"alloc", "reserve", "reserve_cb", "dup", "savepoint", "rollback", "reset", "recreate", "publish", "verify", "exhaust", "relieve", "transmit", "reserve_and_rollback"}; return n[k]; }
	void end(int th) override {
		if (th > owners) {	/* send the rest */
			for (;;) {
				wait_until([this] { if (owner_done) return true; for (auto &p : pub) if (!p.taken) return true; return false; });
				bool any = false; for (auto &p : pub) if (!p.taken) any = true;
				if (!any) break;
				transmit(Op{0, th, RDROP, 0, 12345, 0});
			}
			return;
		}
		owner_done = true;
		if (th == 1) wait_until([this] { return pub.empty(); });
		for (auto &b : bs[th]) destroy(b);
		CHECK(x_scache_used(e.cache[th]) == 0, P, "not-returned", "%zu bytes of slabs are in use after the buffers were destroyed", x_scache_used(e.cache[th]));
		x_scache_destroy(e.cache[th]);
	}
	void finish() override { e.finish(P); count_nontrivial(); }
};
Scenario *sim::make_scenario() { return new Ob; }
