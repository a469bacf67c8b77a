/* The whole stack together: several threads with their own caches, pools, small allocators, regions,
 * buffers and lessors over shared arenas and one quota (C23; C24 in the ASAN flavour). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "system";

enum { PALLOC, PFREE, SALLOC, SFREE, RALLOC, RTRUNC, LALLOC, LGC, IWRITE, IREAD, OWRITE, OBACK, LEASE, ENDLEASE, QSET, QBACK, TEARDOWN, SLAB, SLABFREE, VERIFY, MALLOC, MTOUCH, MVIEW, MFREE, RJOIN, LFLUSH };
/* matras takes its extents from a pool of the same thread */
static std::map<void *, void *> ext_pool;
void *h_ext_alloc(void *al) { return x_pool_alloc(ext_pool[al]); }
void h_ext_free(void *al, void *p) { x_pool_free(ext_pool[al], p); }
struct System : Scenario {
	struct Mem { char *p; size_t n; long id; };
	struct W {
		void *cache = nullptr, *pool[2] = {0}, *small = nullptr, *region = nullptr, *ls = nullptr, *ib = nullptr, *ob = nullptr, *lessor = nullptr;
		size_t psize[2] = {0}; std::vector<Mem> pobj[2], sobj, robj, lobj, slabs; size_t rused = 0; long id = 0;
		Bytes is, os; x_svp lsvp; size_t lseen = 0; std::vector<std::pair<x_osvp, size_t>> sv; std::vector<long> leases; long leased = 0;
		bool up = false; int ar = 0;
		struct View { void *v; std::vector<uint64_t> tag; };
		void *mt = nullptr, *mal = nullptr, *mpool = nullptr; size_t es = 0, bs = 0; std::vector<uint64_t> mtag; std::vector<View> views; std::vector<void *> vfree;
	};
	void *q = nullptr, *arena[2] = {0}; size_t slab[2] = {0}; int na = 1;
	W w[9]; Tracker t{"C23,C24", "object"}; bool asan = false; const char *P = "C23";
	size_t limit = 0; bool tight = false; int inflight = 0; unsigned gran = 8;

	void gen(Rng &r) override {
		bool a = c->variant == "asan";
		long th = r.p(0.15) ? 1 : r.r(2, 4);
		c->set("threads", th);
		c->set("page", r.pick({4096, 4096, 16384}));
		long s = r.pick({65536, 65536, 131072, 262144});
		c->set("slab0", s); c->set("slab1", r.pick({65536, 131072, 524288}));
		c->set("na", r.p(0.6) ? 1 : 2); c->set("pre0", r.p(0.5) ? 0 : r.r(1, 3) * s); c->set("pre1", 0);
		bool tight = !a && r.p(0.6);
		long lim = tight ? (1 << 20) + r.r(0, 12) * s : 512L << 20;
		c->set("limit", lim); c->set("tight", tight); c->set("handoff", r.p(0.3));
		if (!a) {
			if (r.p(0.35)) c->set("fr_mmap", r.pick({50, 200, 500}));
			if (r.p(0.35)) c->set("fr_malloc", r.pick({50, 200, 500}));
			if (r.p(0.15)) c->set("fr_madv", 200);
		}
		if (r.p(0.3)) c->set("fr_cas", r.pick({50, 200}));
		long per = r.r(8, 80 / th + 8);
		long wt[] = {12, 6, 14, 7, 10, 4, 9, 4, 9, 6, 9, 4, 6, 4, 1, 2, 2, 5, 3, 2, 6, 5, 3, 2, 4, 4};
		/* every run stresses a part of the stack */
		for (auto &x : wt) if (r.p(0.25)) x = r.pick({0L, 4L * x});
		if (!tight) wt[QSET] = 0;
		long sum = 0; for (auto x : wt) sum += x;
		double big = r.pick({0.02, 0.1, 0.3});
		for (long i = 0; i < per; i++)
			for (long k = 1; k <= th; k++) {
				long x = r.u(sum); int code = 0;
				while (x >= wt[code]) x -= wt[code++];
				long n = r.p(big) ? r.r(1, 3) * s + r.r(-200, 200) : r.p(0.5) ? r.r(1, 200) : r.r(1, s / 3);
				c->add((int)k, code, n, (long)r.u(1 << 24), r.r(0, 7));
			}
	}
	void setup() override {
		ext_pool.clear();
		asan = x_is_asan(); P = asan ? "C24" : "C23"; t.props = P;
		limit = cfg("limit"); tight = cfg("tight"); na = (int)cfg("na");
		q = os_alloc(x_quota_sizeof()); x_quota_init(q, limit);
		NoFaults nf;
		for (int i = 0; i < na; i++) {
			slab[i] = cfg(i ? "slab1" : "slab0"); arena[i] = os_alloc(x_arena_sizeof());
			int rc = x_arena_create(arena[i], q, (size_t)cfg(i ? "pre1" : "pre0"), (unsigned)slab[i], x_arena_flags(0, 0, cfg("fr_madv") > 0));
			CHECK(rc == 0, P, "arena", "arena creation failed without faults");
		}
		if (cfg("handoff")) for (int k = 1; k <= nthreads(); k++) mkcache(k);
	}
	void mkcache(int th) {
		W &x = w[th]; x.ar = th % na;
		if (!x.cache) x.cache = os_alloc(x_scache_sizeof());
		x_scache_create(x.cache, arena[x.ar]);
	}
	void up(int th, Rng &g) {
		W &x = w[th];
		auto obj = [](void *&p, size_t n) { if (!p) p = os_alloc(n); return p; };
		for (int i = 0; i < 2; i++) {
			x.psize[i] = i ? g.r(500, 3000) : g.r(8, 300);
			x_pool_create(obj(x.pool[i], x_pool_sizeof()), x.cache, (unsigned)x.psize[i]);
		}
		x_small_create(obj(x.small, x_small_sizeof()), x.cache, (unsigned)g.pick({8, 16, 32}), gran, 1.1f);
		x_region_create(obj(x.region, x_region_sizeof()), x.cache);
		x_ls_create(obj(x.ls, x_ls_sizeof()), arena[x.ar]); x_svp_create(&x.lsvp); x.lseen = 0;
		x_ibuf_create(obj(x.ib, x_ibuf_sizeof()), x.cache, g.pick({16, 1024, 16384}));
		x_obuf_create(obj(x.ob, x_obuf_sizeof()), x.cache, g.pick({16, 1024, 16384}));
		x_lessor_create(obj(x.lessor, x_lessor_sizeof()), q);
		x.es = g.pick({256, 512, 1024}); x.bs = g.pick({8, 16, 64});
		x_pool_create(obj(x.mpool, x_pool_sizeof()), x.cache, (unsigned)x.es);
		ext_pool[obj(x.mal, x_mal_sizeof())] = x.mpool;
		x_mal_create(x.mal, x.es);
		x_matras_create(obj(x.mt, x_matras_sizeof()), (unsigned)x.bs, x.mal, nullptr);
		x.mtag.clear();
		x.rused = 0; x.id = 0; x.is.clear(); x.os.clear(); x.sv.clear(); x.up = true;
	}
	/* keep: the cache is destroyed next, with whatever slabs are still in use */
	void down(int th, Rng &g, bool keep = false) {
		W &x = w[th]; x.up = false; keep = keep && !asan;
		int order[9] = {0, 1, 2, 3, 4, 5, 6, 7, 8};
		for (int i = 8; i > 0; i--) std::swap(order[i], order[g.u(i + 1)]);
		for (int k : order) switch (k) {
		case 0: case 1: if (asan || g.p(0.5)) while (x.pobj[k].size()) freep(x, k, g.u(x.pobj[k].size())); gone(x.pobj[k]); x_pool_destroy(x.pool[k]); break;
		case 2: if (keep && g.p(0.5)) gone(x.sobj); while (x.sobj.size()) frees(x, x.sobj.size() - 1); x_small_destroy(x.small); break;
		case 3: gone(x.robj); if (g.p(0.5)) x_region_free(x.region); x_region_destroy(x.region); break;
		case 4: gone(x.lobj); x.lseen = 0; x_ls_destroy(x.ls); break;
		case 5: if (g.p(0.3)) x_ibuf_reinit(x.ib); x_ibuf_destroy(x.ib); break;
		case 6: x_obuf_destroy(x.ob); break;
		case 8:
			while (x.views.size()) rmview(x, g.u(x.views.size()));
			if (g.p(0.3)) x_matras_reset(x.mt);
			x_matras_destroy(x.mt); x_mal_destroy(x.mal);
			CHECK(x_pool_count(x.mpool) == 0, P, "extent-leak", "%zu extents remain after the block array was destroyed", x_pool_count(x.mpool));
			x_pool_destroy(x.mpool);
			break;
		default: x_lessor_destroy(x.lessor); x.leases.clear(); x.leased = 0; break;
		}
		if (keep && g.p(0.5)) { if (x.slabs.size()) cover("caches_destroyed_in_use"); gone(x.slabs); }
		while (x.slabs.size()) { Mem m = x.slabs.back(); x.slabs.pop_back(); t.remove(m.p); x_slab_put(x.cache, x_slab_from_data(m.p)); }
	}
	void gone(std::vector<Mem> &v) { for (auto &m : v) t.remove(m.p); v.clear(); }
	void begin(int th) override {
		Rng g(mix(cfg("salt"), th));
		inflight++;
		if (cfg("handoff")) x_scache_set_thread(w[th].cache); else mkcache(th);
		up(th, g);
		inflight--;
	}
	/* what is held against what is charged */
	void ledger(const char *what) {
		peek([&] {
			size_t total, used; x_quota_get(q, &total, &used);
			CHECK(used <= total, P, "over-limit", "after %s %zu bytes are charged, the limit is %zu", what, used, total);
			if (asan) return 0;
			size_t au = 0, lease = 0, lu = 0, map = 0;
			for (int i = 0; i < na; i++) { size_t u = x_arena_used(arena[i]); au += u; map += std::max(u, x_arena_prealloc(arena[i])); }
			size_t heap = os_heap_live();
			for (int k = 1; k <= nthreads(); k++) if (w[k].up) { lease += w[k].leased; lu += x_leased(w[k].lessor) + x_lease_available(w[k].lessor); }
			/* a refused slab may leave the arena and the quota in any order, and never held memory */
			size_t leaving = 0, sl = 0;
			for (int i = 0; i < na; i++) sl = std::max(sl, slab[i]);
			for (int k = 1; k <= nthreads(); k++) if (k != cur_th && th_mmap_failed_of(k)) leaving += sl;
			CHECK(au + heap + lease <= used + leaving, P, "uncharged", "after %s arenas hold %zu bytes, heap blocks %zu and leases %zu, but only %zu bytes are charged", what, au, heap, lease, used);
			if (inflight) return 0;
			CHECK(used <= au + heap + lu + 1024 * os_heap_blocks(), P, "overcharged", "after %s %zu bytes are charged, arenas hold %zu bytes, heap blocks %zu and lessors %zu", what, used, au, heap, lu);
			CHECK(os_mapped() == map, P, "mapped", "after %s %zu bytes are mapped, arenas account for %zu", what, os_mapped(), map);
			cover("quiescent_checks");
			return 0;
		});
	}
	void refused(const char *what, size_t n) {
		cover("refused");
		CHECK(tight || fired_total() > 0, P, "refused-without-reason", "%s of %zu bytes was refused although the quota is ample and nothing failed", what, n);
	}
	void freep(W &x, int k, size_t i) { Mem m = x.pobj[k][i]; x.pobj[k][i] = x.pobj[k].back(); x.pobj[k].pop_back(); t.remove(m.p); x_pool_free(x.pool[k], m.p); }
	void frees(W &x, size_t i) { Mem m = x.sobj[i]; x.sobj[i] = x.sobj.back(); x.sobj.pop_back(); t.remove(m.p); x_smfree(x.small, m.p, m.n); }
	void buf_state(W &x, const char *what) {
		size_t u = x_ibuf_used(x.ib);
		CHECK(u == x.is.total, P, "ibuf", "after %s the input buffer has %zu bytes instead of %zu", what, u, x.is.total);
		if (u) {
			char *p = (char *)x_ibuf_rpos(x.ib);
			if (!os_is_mapped(p, u)) { viol(P, "not-backed", "after %s the input buffer is not backed by memory", what); return; }
			CHECK(x.is.cmp(p, 0, u, false) < 0, P, "ibuf", "after %s the contents of the input buffer changed", what);
		}
		size_t off = 0; int n = x_obuf_iovcnt(x.ob);
		CHECK(x_obuf_size(x.ob) == x.os.total, P, "obuf", "after %s the output buffer has %zu bytes instead of %zu", what, x_obuf_size(x.ob), x.os.total);
		for (int i = 0; i < n; i++) {
			x_iov v; x_obuf_iov(x.ob, i, &v);
			if (!v.n) continue;
			if (off + v.n > x.os.total || !os_is_mapped(v.p, v.n)) { viol(P, "obuf", "after %s vector %d of the output buffer is wrong", what, i); return; }
			CHECK(x.os.cmp((char *)v.p, off, v.n, false) < 0, P, "obuf", "after %s the contents of the output buffer changed", what);
			off += v.n;
		}
		CHECK(off == x.os.total, P, "obuf", "after %s the output buffer holds %zu of %zu bytes", what, off, x.os.total);
	}
	void rmview(W &x, size_t i) {
		x_matras_destroy_view(x.mt, x.views[i].v);
		x.vfree.push_back(x.views[i].v);
		x.views[i] = x.views.back(); x.views.pop_back();
	}
	/* the latest bytes in one chunk: whole objects (the gaps between aligned ones are anything) */
	void join(W &x, Rng &g) {
		size_t k = x.robj.size(), n = 0, most = 1 + g.u(6), cut = 0;
		while (k > 0 && most-- && n < (1 << 20)) { size_t e = k == x.robj.size() ? x.rused : (size_t)x.robj[k].id; if (x.robj[k - 1].id + x.robj[k - 1].n != e) break; n += x.robj[--k].n; }
		if (!n) return;
		if (g.p(0.3)) { cut = g.u(x.robj[k].n); n -= cut; }
		char *p = (char *)x_region_join(x.region, n); ev(p != nullptr);
		if (!p) { refused("joining a region", n); return; }
		if (!os_is_mapped(p, n)) { viol(P, "not-backed", "a joined chunk is not backed by memory"); return; }
		size_t off = 0; bool ok = true;
		peek([&] {
			for (size_t i = k; i < x.robj.size(); i++, cut = 0) { ok = ok && !memcmp(p + off, x.robj[i].p + cut, x.robj[i].n - cut); off += x.robj[i].n - cut; }
			return 0;
		});
		CHECK(ok, P, "join", "the last %zu bytes of a region were joined into something else", n);
		size_t u = x_region_used(x.region);
		if (u != x.rused) { cover("joins"); t.add(p, n, 1); x.robj.push_back(Mem{p, n, (long)x.rused}); x.rused = u; }
	}
	/* what was added to the log since the last time, once and in order */
	void flush(W &x, Rng &g) {
		std::vector<x_iov> v(g.pick({1, 2, 40})); int cnt = (int)v.size();
		x_ls_to_iovec(x.ls, v.data(), &cnt, &x.lsvp); ev((uint64_t)cnt);
		CHECK(cnt >= 0 && cnt <= (int)v.size(), P, "iovec", "%d vectors instead of at most %zu", cnt, v.size());
		for (int i = 0; i < cnt && i < (int)v.size(); i++) {
			char *p = (char *)v[i].p; size_t left = v[i].n;
			/* objects lie one after another, vectors end where an object does */
			while (left && x.lseen < x.lobj.size() && x.lobj[x.lseen].n <= left && p == x.lobj[x.lseen].p) { p += x.lobj[x.lseen].n; left -= x.lobj[x.lseen].n; x.lseen++; }
			CHECK(left == 0, P, "flush", "an exported vector of %zu bytes is not what was added to the log next", v[i].n);
		}
		if (cnt < (int)v.size()) { CHECK(x.lseen == x.lobj.size(), P, "flush", "%zu objects of a log were not exported", x.lobj.size() - x.lseen); cover("flushes"); }
	}
	bool good(const char *p, size_t n, uint64_t tag) {
		for (size_t i = 0; i < n; i += 8) { uint64_t v = pat(tag, i >> 3); if (memcmp(p + i, &v, 8)) return false; }
		return true;
	}
	void blocks(W &x) {
		size_t step = 1 + x.mtag.size() / 40;
		for (size_t i = 0; i < x.mtag.size(); i += step) {
			char *p = (char *)x_matras_get(x.mt, (uint32_t)i);
			if (!os_is_mapped(p, x.bs)) { viol(P, "not-backed", "block %zu is not backed by memory", i); return; }
			CHECK(good(p, x.bs, x.mtag[i]), P, "block", "the contents of block %zu changed", i);
		}
		for (auto &v : x.views) for (size_t i = 0; i < v.tag.size(); i += 1 + v.tag.size() / 40) {
			char *p = (char *)x_matras_view_get(x.mt, v.v, (uint32_t)i);
			if (!os_is_mapped(p, x.bs)) { viol(P, "not-backed", "block %zu of a read view is not backed by memory", i); return; }
			CHECK(good(p, x.bs, v.tag[i]), P, "view", "the contents of block %zu of a read view changed", i);
		}
	}
	void verify(W &x) {
		for (int k = 0; k < 2; k++) CHECK(x_pool_count(x.pool[k]) == x.pobj[k].size(), P, "pool-count", "a pool reports %zu objects instead of %zu", x_pool_count(x.pool[k]), x.pobj[k].size());
		peek([&] { blocks(x); return 0; });
		for (auto *v : {&x.pobj[0], &x.pobj[1], &x.sobj, &x.robj, &x.lobj, &x.slabs})
			for (auto &m : *v) { auto i = t.m.find((uintptr_t)m.p); if (i != t.m.end()) t.verify(i->second); }
		peek([&] { buf_state(x, "verification"); return 0; });
	}
	void exec(int th, const Op &o) override {
		W &x = w[th]; Rng g(mix(o.b, 3)); size_t n = (size_t)o.a; char *p;
		inflight++;
		switch (o.code) {
		case PALLOC: {
			int k = o.c & 1;
			for (long i = 0; i <= o.c * 2; i++) {
				p = (char *)x_pool_alloc(x.pool[k]); ev(p != nullptr);
				if (!p) { refused("pool object", x.psize[k]); break; }
				t.add(p, x.psize[k], 1); x.pobj[k].push_back(Mem{p, x.psize[k], 0});
			}
			break; }
		case PFREE: { int k = o.c & 1; for (long i = 0; i <= o.c && x.pobj[k].size(); i++) freep(x, k, g.u(x.pobj[k].size())); break; }
		case SALLOC:
			p = (char *)x_smalloc(x.small, n); ev(p != nullptr);
			if (!p) { refused("small object", n); break; }
			t.add(p, n, 1); x.sobj.push_back(Mem{p, n, 0});
			break;
		case SFREE: for (long i = 0; i <= o.c && x.sobj.size(); i++) frees(x, g.u(x.sobj.size())); break;
		case RALLOC:
			for (long i = 0; i <= (o.c & 2); i++) {
				p = (char *)(o.c & 1 ? x_region_alloc(x.region, n) : x_region_aligned_alloc(x.region, n, 8)); ev(p != nullptr);
				if (!p) { refused("region allocation", n); break; }
				t.add(p, n, 1); x.robj.push_back(Mem{p, n, (long)x.rused}); x.rused = x_region_used(x.region);
			}
			break;
		case RJOIN: join(x, g); break;
		case LFLUSH: flush(x, g); break;
		case RTRUNC:
			if (o.c == 0) { gone(x.robj); x.rused = 0; if (g.p(0.5)) x_region_reset(x.region); else x_region_free(x.region); }
			else if (x.robj.size()) {
				size_t i = g.u(x.robj.size()); size_t u = x.robj[i].id;
				while (x.robj.size() > i) { t.remove(x.robj.back().p); x.robj.pop_back(); }
				x_region_truncate(x.region, u); x.rused = u;
			}
			break;
		case LALLOC:
			p = (char *)x_ls_alloc(x.ls, n, ++x.id); ev(p != nullptr);
			if (!p) { refused("log region allocation", n); break; }
			t.add(p, n, 1); x.lobj.push_back(Mem{p, n, x.id});
			break;
		case LGC:
			if (x.lobj.size()) {
				/* what is collected has been exported */
				flush(x, g);
				long id = x.lobj[g.u(x.lobj.size())].id;
				if (x.lseen < x.lobj.size()) { if (!x.lseen) break; id = std::min(id, x.lobj[x.lseen - 1].id); }
				while (x.lobj.size() && x.lobj[0].id <= id) { t.remove(x.lobj[0].p); x.lobj.erase(x.lobj.begin()); x.lseen--; }
				x_ls_gc(x.ls, id);
			}
			break;
		case IWRITE: {
			uint64_t tag = x.is.tag();
			p = (char *)x_ibuf_alloc(x.ib, n); ev(p != nullptr);
			if (!p) { refused("input buffer allocation", n); break; }
			if (!os_is_mapped(p, n)) { viol(P, "not-backed", "input buffer space is not backed by memory"); break; }
			Bytes::put(p, n, tag); x.is.push(n, tag);
			break; }
		case IREAD: {
			size_t m = x.is.total ? g.u(x.is.total + 1) : 0;
			if (o.c == 0) { x_ibuf_reset(x.ib); x.is.clear(); }
			else if (o.c == 1) x_ibuf_shrink(x.ib);
			else { x_ibuf_consume(x.ib, m); x.is.pop_front(m); }
			break; }
		case OWRITE: {
			if (o.c < 2) { x_osvp s; x_obuf_svp(x.ob, &s); x.sv.push_back({s, x.os.total}); }
			uint64_t tag = x.os.tag();
			if (o.c & 1) {
				std::vector<char> d(n); Bytes::put(d.data(), n, tag);
				size_t k = x_obuf_dup(x.ob, d.data(), n); ev(k);
				CHECK(k <= n, P, "dup", "appending %zu bytes reports %zu", n, k);
				x.os.push(std::min(k, n), tag);
				if (k < n) refused("output buffer append", n);
				break;
			}
			p = (char *)x_obuf_alloc(x.ob, n); ev(p != nullptr);
			if (!p) { refused("output buffer allocation", n); break; }
			if (!os_is_mapped(p, n)) { viol(P, "not-backed", "output buffer space is not backed by memory"); break; }
			Bytes::put(p, n, tag); x.os.push(n, tag);
			break; }
		case OBACK:
			if (o.c < 2 || x.sv.empty()) { x_obuf_reset(x.ob); x.os.clear(); x.sv.clear(); }
			else { size_t i = g.u(x.sv.size()); x_obuf_rollback(x.ob, &x.sv[i].first); x.os.pop_back(x.os.total - x.sv[i].second); x.sv.resize(i); }
			break;
		case LEASE: {
			long r = x_lease(x.lessor, o.a); ev((uint64_t)r);
			if (r < 0) { refused("lease", n); break; }
			x.leases.push_back(o.a); x.leased += o.a;
			break; }
		case ENDLEASE:
			if (x.leases.size()) { long m = x.leases.back(); x.leases.pop_back(); x.leased -= m; x_end_lease(x.lessor, (size_t)m); }
			break;
		case QSET: {
			size_t total, used; peek([&] { x_quota_get(q, &total, &used); return 0; });
			size_t to = std::min(limit, std::max<size_t>(1 << 20, used + g.r(0, 3) * 65536));
			long r = x_quota_set(q, to);
			CHECK(r == (long)to || r == -1, P, "quota-set", "setting the limit to %zu returned %ld", to, r);
			cover("limit_changes");
			break; }
		case QBACK: { long r = x_quota_set(q, limit); CHECK(r == (long)limit, P, "quota-set", "raising the limit to %zu returned %ld", limit, r); break; }
		case TEARDOWN:
			verify(x); down(th, g, o.c & 1);
			if (o.c & 1) {
				x_scache_destroy(x.cache); mkcache(th);
			} else if (!asan) CHECK(x_scache_used(x.cache) == 0, P, "not-returned", "%zu bytes of slabs are in use after every component of the thread was destroyed", x_scache_used(x.cache));
			/* a lessor needs a limit of at least a chunk */
			up(th, g);
			cover("teardowns");
			break;
		case SLAB: {
			void *s = x_slab_get(x.cache, n); ev(s != nullptr);
			if (!s) { refused("slab", n); break; }
			p = (char *)x_slab_data(s);
			t.add(p, n, 1); x.slabs.push_back(Mem{p, n, 0});
			break; }
		case SLABFREE:
			if (x.slabs.size()) { Mem m = x.slabs.back(); x.slabs.pop_back(); t.remove(m.p); x_slab_put(x.cache, x_slab_from_data(m.p)); }
			break;
		case MALLOC:
			for (long i = 0; i <= o.c * 4 && x.mtag.size() < 600; i++) {
				uint32_t id; p = (char *)x_matras_alloc(x.mt, &id); ev(p != nullptr);
				if (!p) { refused("block", x.bs); break; }
				CHECK(id == x.mtag.size(), P, "block-id", "block %u follows %zu blocks", id, x.mtag.size());
				if (!os_is_mapped(p, x.bs)) { viol(P, "not-backed", "a block is not backed by memory"); break; }
				uint64_t tag = x.is.tag(); Bytes::put(p, x.bs, tag); x.mtag.push_back(tag);
			}
			break;
		case MTOUCH:
			for (long i = 0; i <= o.c && x.mtag.size(); i++) {
				uint32_t id = (uint32_t)g.u(x.mtag.size());
				p = (char *)x_matras_touch(x.mt, id); ev(p != nullptr);
				if (!p) { refused("copy of a block", x.bs); break; }
				if (!os_is_mapped(p, x.bs)) { viol(P, "not-backed", "a block is not backed by memory"); break; }
				CHECK(good(p, x.bs, x.mtag[id]), P, "block", "touching block %u changed its contents", id);
				uint64_t tag = x.is.tag(); Bytes::put(p, x.bs, tag); x.mtag[id] = tag;
			}
			break;
		case MVIEW:
			if (x.views.size() && (o.c < 3 || x.views.size() > 2)) rmview(x, g.u(x.views.size()));
			else {
				void *v;
				if (x.vfree.size()) { v = x.vfree.back(); x.vfree.pop_back(); } else v = os_alloc(x_mview_sizeof());
				x_matras_create_view(x.mt, v);
				x.views.push_back(W::View{v, x.mtag});
			}
			break;
		case MFREE:
			/* with a read view a block must be touched before (see known findings), and that can be refused */
			while (x.views.size()) rmview(x, x.views.size() - 1);
			for (long i = 0; i <= o.c * 8 && x.mtag.size(); i++) { x_matras_dealloc(x.mt); x.mtag.pop_back(); }
			break;
		default: verify(x); break;
		}
		if (o.code >= IWRITE && o.code <= OBACK) peek([&] { buf_state(x, opname(o.code)); return 0; });
		else if (g.p(0.15)) verify(x);
		inflight--;
		ledger(opname(o.code));
	}
	const char *opname(int k) override { static const char *n[] = {"pool_alloc", "pool_free", "small_alloc", "small_free", "region_alloc", "region_truncate", "ls_alloc", "ls_gc", "ibuf_write", "ibuf_read", "obuf_write", "obuf_rollback", "lease", "end_lease", "limit", "limit_back", "teardown", "slab_get", "slab_put", "verify", "block_alloc", "block_touch", "block_view", "block_free", "region_join", "ls_flush"}; return n[k]; }
	void end(int th) override {
		Rng g(mix(cfg("salt"), th + 100));
		inflight++;
		verify(w[th]);
		down(th, g, !cfg("handoff"));
		if (!cfg("handoff")) x_scache_destroy(w[th].cache);
		inflight--;
		ledger("the end of a thread");
	}
	void finish() override {
		if (cfg("handoff") && !asan) {
			/* an idle cache keeps one largest slab, everything else is at the disposal of others */
			x_quota_set(q, x_quota_used(q));
			for (int i = 0; i < na; i++) {
				size_t users = 0, total = x_arena_used(arena[i]) / slab[i]; std::vector<void *> got; void *p;
				for (int k = 1; k <= nthreads(); k++) users += w[k].ar == i;
				while ((p = x_slab_map(arena[i]))) got.push_back(p);
				CHECK(got.size() + users >= total, P, "hoarding", "with all memory released to %zu idle caches only %zu of %zu slabs of an arena can be had", users, got.size(), total);
				for (void *g : got) x_slab_unmap(arena[i], g);
			}
			cover("idle_cache_checks");
		}
		if (cfg("handoff")) for (int k = 1; k <= nthreads(); k++) {
			x_scache_set_thread(w[k].cache);
			if (!asan) CHECK(x_scache_used(w[k].cache) == 0, P, "not-returned", "%zu bytes of slabs are in use after every component of a thread was destroyed", x_scache_used(w[k].cache));
			x_scache_destroy(w[k].cache);
		}
		CHECK(os_heap_live() == 0, P, "leak", "%zu bytes of heap remain after everything was destroyed", os_heap_live());
		size_t used = x_quota_used(q), au = 0;
		if (asan) { CHECK(used == 0, P, "quota-leak", "after everything was destroyed %zu bytes are charged", used); count_nontrivial(); return; }
		for (int i = 0; i < na; i++) au += x_arena_used(arena[i]);
		CHECK(used == au, P, "quota-leak", "after everything was destroyed %zu bytes are charged, arenas hold %zu", used, au);
		/* memory that was given back is usable again */
		CHECK(x_quota_set(q, limit) == (long)limit, P, "quota-set", "limit not restored");
		for (int i = 0; i < na; i++) {
			if (x_arena_used(arena[i]) == 0 && limit - x_quota_used(q) < slab[i]) continue;
			void *cache = os_alloc(x_scache_sizeof()), *pool = os_alloc(x_pool_sizeof());
			x_scache_create(cache, arena[i]); x_pool_create(pool, cache, 100);
			void *o = x_pool_alloc(pool);
			CHECK(o, P, "no-recovery", "an object is refused although all memory was given back");
			if (o) x_pool_free(pool, o);
			x_pool_destroy(pool); x_scache_destroy(cache);
		}
		used = x_quota_used(q); x_quota_set(q, used);
		for (int i = 0; i < na; i++) {
			std::vector<void *> got; void *p; size_t u = x_arena_used(arena[i]);
			while ((p = x_slab_map(arena[i]))) got.push_back(p);
			CHECK(got.size() * slab[i] == u, P, "slab-leak", "%zu of %zu slabs of an arena came back", got.size(), u / slab[i]);
			for (void *k : got) x_slab_unmap(arena[i], k);
			x_arena_destroy(arena[i]);
		}
		CHECK(os_mapped() == 0, P, "map-leak", "%zu bytes remain mapped", os_mapped());
		count_nontrivial();
	}
};
Scenario *sim::make_scenario() { return new System; }
