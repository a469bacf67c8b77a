/* Matras: block identifiers (C19), read views (C20), extent accounting and touch reservations (C21). */
#include "common.h"
using namespace sim;
const char *sim::scenario_name = "matras";

enum { ALLOC, RANGE, DEALLOC, DRANGE, TOUCH, WRITEN, RTOUCH, RALLOC, MKVIEW, RMVIEW, VREAD, VERIFY, LIMIT, UNLIMIT, RESET, RECREATE, FULL };

/* ---- the extent allocator given to matras ---- */
struct Alo;
struct Ext { Alo *a; bool live; };
struct Alo {
	void *al = nullptr; size_t es = 0, live = 0; long left = -1; long refused = 0, calls = 0; bool reuse = false, fast = false, nofault = false;
	std::vector<char *> freelist; void *arena = nullptr; size_t carved = 0, arena_n = 0;
};
static std::map<uintptr_t, Ext> exts;
static std::map<void *, Alo *> alos;
static void dirty(char *p, size_t n) { if (n <= 65536) memset(p, 0xA5, n); else { memset(p, 0xA5, 4096); memset(p + n - 4096, 0xA5, 4096); } }
void *h_ext_alloc(void *al) {
	yield_point();
	Alo &a = *alos[al]; a.calls++;
	if (a.left == 0 || (!a.fast && !a.nofault && fault(F_EXT))) { a.refused++; return nullptr; }
	if (a.left > 0) a.left--;
	char *p;
	if (a.freelist.size()) { p = a.freelist.back(); a.freelist.pop_back(); exts[(uintptr_t)p].live = true; }
	else if (a.arena) {
		if (a.carved + a.es > a.arena_n) { a.refused++; return nullptr; }
		p = (char *)a.arena + a.carved; a.carved += a.es;
		a.live++; exts[(uintptr_t)p] = Ext{&a, true};
		return p;
	} else { p = (char *)os_alloc(a.es); if (!p) { a.refused++; return nullptr; } exts[(uintptr_t)p] = Ext{&a, true}; }
	a.live++;
	dirty(p, a.es);
	return p;
}
void h_ext_free(void *al, void *q) {
	yield_point();
	Alo &a = *alos[al];
	auto i = exts.find((uintptr_t)q);
	CHECK(i != exts.end(), "C21,C20,C19", "bad-extent-free", "freed extent %p was never allocated", q);
	CHECK(i->second.live, "C21,C20,C19", "double-free", "an extent is freed twice");
	CHECK(i->second.a == &a, "C21", "foreign-extent", "an extent is given back to another allocator");
	a.live--;
	if (a.fast) { i->second.live = false; return; }
	dirty((char *)q, a.es);
	if (a.reuse) { i->second.live = false; a.freelist.push_back((char *)q); return; }
	exts.erase(i); os_release(q);
}

struct Matras : Scenario {
	struct View { void *v; std::vector<uint64_t> tag; std::vector<char *> addr; int pins = 0; bool live = true; };
	struct Mt {
		void *m = nullptr; Alo *a = nullptr; size_t bs = 0, es = 0, bpe = 0, ppe = 0, cap = 0, max = 0;
		std::vector<uint64_t> tag; std::vector<char *> addr; std::vector<View *> views;
		std::vector<char> own_ext;	/* extents made or touched since the last view was created: they stay where they are */
		void *hv = nullptr; bool shared_alloc = false;
		size_t needed(size_t n) { return n ? 1 + (n + bpe - 1) / bpe + (n + bpe * ppe - 1) / (bpe * ppe) : 0; }
	};
	struct Own { Alo alo[2]; std::vector<Mt> ms; void *stats = nullptr; };
	Own own[9]; uint64_t nexttag = 1; std::vector<View *> all;
	const char *PI = "C19", *PV = "C20", *PX = "C21", *PA = "C19,C20,C21";
	~Matras() { for (auto v : all) delete v; }

	void gen(Rng &r) override {
		long mode = r.u(10);	/* 0-5 one owner, 6-8 owner and readers, 9 two owners */
		long th = mode < 6 ? 1 : mode < 9 ? r.r(2, 3) : 2;
		c->set("threads", th); c->set("owners", mode == 9 ? 2 : 1);
		long es = r.pick({16, 32, 32, 64, 64, 64, 128, 256, 512, 4096});
		bool big = th == 1 && r.p(0.004), full = !big && th == 1 && r.p(0.002);
		long bs;
		if (big) { es = 1L << r.r(19, 22); bs = 1L << r.r(3, 6); }
		else {
			int l = 0; while ((1L << l) < es) l++;
			bs = r.p(0.8) ? 1L << r.r(3, l) : 1L << r.r(0, l);
			if (es / bs > 1024) bs = es / 1024;
		}
		c->set("es", es); c->set("bs", bs); c->set("big", big);
		c->set("nm", r.p(0.75) || big ? 1 : 2); c->set("stats", r.p(0.7)); c->set("reuse", r.p(0.5));
		if (r.p(0.45)) c->set("fr_ext", r.pick({30, 150, 400}));
		long per = full ? 1 : big ? 12 : th == 1 ? r.r(6, 90) : r.r(5, 25);
		double pv = r.pick({0.05, 0.15, 0.3}), pr = pv * r.pick({0.5, 0.9, 1.2}), pd = r.pick({0.05, 0.2, 0.35});
		double pw = r.pick({0.1, 0.3, 0.5});
		long lump = r.pick({1L, 3L, 12L, 60L});
		if (full) { c->add(1, FULL, r.u(6), r.u(1 << 20)); return; }
		for (long i = 0; i < per; i++)
			for (long k = 1; k <= th; k++) {
				long x = r.u(100); int code;
				if (k > c->get("owners")) { c->add((int)k, VREAD, r.u(1 << 20), r.u(1 << 20), r.r(1, 6)); continue; }
				if (r.p(pv)) code = MKVIEW;
				else if (r.p(pr)) code = RMVIEW;
				else if (r.p(pd)) code = x < 65 ? DEALLOC : DRANGE;
				else if (r.p(pw)) code = x < 60 ? TOUCH : x < 75 ? WRITEN : RTOUCH;
				else code = x < 55 ? ALLOC : x < 78 ? RANGE : x < 82 ? RALLOC : x < 86 ? VERIFY : x < 90 ? LIMIT : x < 96 ? UNLIMIT : x < 98 ? RESET : RECREATE;
				long cnt = r.p(0.6) ? 1 : r.r(1, lump);
				c->add((int)k, code, cnt, (long)r.u(1 << 30), r.r(0, 7));
			}
	}
	void mk(Own &o, Mt &m, Alo *a, bool fresh_obj = true) {
		if (fresh_obj) { m.m = os_alloc(x_matras_sizeof()); m.hv = os_alloc(x_mview_sizeof()); }
		m.a = a; m.es = a->es; m.bs = cfg("bs"); m.bpe = m.es / m.bs; m.ppe = m.es / sizeof(void *);
		unsigned __int128 cap = (unsigned __int128)m.ppe * m.ppe * m.bpe;
		m.cap = cap > ((size_t)1 << 32) ? (size_t)1 << 32 : (size_t)cap;
		m.max = std::min<size_t>(m.cap, cfg("big") ? 400000 : 700);
		x_matras_create(m.m, (unsigned)m.bs, a->al, o.stats);
		x_matras_head_view(m.hv);
	}
	void setup() override { exts.clear(); alos.clear(); set_tls_swap(true); }
	void mkalo(Alo &a, size_t es) {
		if (!a.al) a.al = os_alloc(x_mal_sizeof());
		a.es = es; a.reuse = cfg("reuse"); a.left = -1; alos[a.al] = &a;
		x_mal_create(a.al, es);
	}
	void begin(int th) override {
		if (th > cfg("owners")) return;
		Own &o = own[th];
		if (cfg("stats")) { o.stats = os_alloc(x_mstats_sizeof()); x_mstats_create(o.stats); }
		mkalo(o.alo[0], cfg("es"));
		o.ms.resize(cfg("nm"));
		for (auto &m : o.ms) mk(o, m, &o.alo[0]);
	}
	uint64_t newtag() { return nexttag++; }
	void put(char *p, size_t n, uint64_t tag) { Bytes::put(p, n, tag); }
	bool good(const char *p, size_t n, uint64_t tag) {
		size_t i = 0;
		for (; i + 8 <= n; i += 8) { uint64_t v = pat(tag, i >> 3), w; memcpy(&w, p + i, 8); if (v != w) return false; }
		for (; i < n; i++) if ((uint8_t)p[i] != Bytes::at(tag, i)) return false;
		return true;
	}
	void place(Mt &m, char *p, size_t id, const char *P, const char *what) {
		auto i = exts.upper_bound((uintptr_t)p);
		bool in = false;
		if (i != exts.begin()) {
			--i;
			size_t off = (uintptr_t)p - i->first;
			if (off + m.bs <= m.es && i->second.live && i->second.a == m.a) {
				in = true;
				CHECK(off % m.bs == 0, P, "misplaced", "%s: block %zu lies at offset %zu of its extent, block size %zu", what, id, off, m.bs);
			}
		}
		CHECK(in, P == PV ? "C20,C21" : "C19,C21", "not-in-extent", "%s: block %zu does not lie inside an extent held by the structure", what, id);
	}
	void one(Mt &m, size_t id, const char *what) {
		char *p = (char *)peek([&] { return x_matras_get(m.m, (uint32_t)id); });
		place(m, p, id, PI, what);
		CHECK(p == m.addr[id], PI, "moved", "%s: block %zu moved although nothing in its extent was touched", what, id);
		CHECK(good(p, m.bs, m.tag[id]), PI, "contents", "%s: block %zu of the current version does not hold what was last written", what, id);
	}
	void onev(Mt &m, View &v, size_t id, const char *what) {
		char *p = (char *)peek([&] { return x_matras_view_get(m.m, v.v, (uint32_t)id); });
		place(m, p, id, PV, what);
		CHECK(p == v.addr[id], PV, "view-moved", "%s: block %zu of a read view moved", what, id);
		CHECK(good(p, m.bs, v.tag[id]), PV, "view-contents", "%s: block %zu of a read view changed", what, id);
	}
	void verify(Mt &m, Rng &g, const char *what, bool full) {
		size_t n = m.tag.size();
		if (n > 3000) full = false;
		if (full) for (size_t i = 0; i < n; i++) one(m, i, what);
		else if (n) for (int k = 0; k < 8; k++) one(m, k == 0 ? n - 1 : k == 1 ? 0 : g.u(n), what);
		for (auto v : m.views) if (v->live) {
			size_t s = v->tag.size();
			if (full) for (size_t i = 0; i < s; i++) onev(m, *v, i, what);
			else if (s) for (int k = 0; k < 6; k++) onev(m, *v, k == 0 ? s - 1 : k == 1 && n && n < s ? n : g.u(s), what);
		}
	}
	void account(Own &o, const char *what) {
		for (auto &a : o.alo) if (a.al) {
			size_t ext = 0; bool noview = true; size_t need = 0;
			for (auto &m : o.ms) if (m.a == &a) {
				size_t e = x_matras_extents(m.m); ext += e; need += m.needed(m.tag.size());
				bool nv = true; for (auto v : m.views) if (v->live) nv = false;
				noview = noview && nv;
				CHECK(e >= m.needed(m.tag.size()), PX, "extent-count", "%s: %zu extents for %zu blocks, at least %zu are needed", what, e, m.tag.size(), m.needed(m.tag.size()));
				if (nv) CHECK(e == m.needed(m.tag.size()), PX, "extents-held", "%s: without read views %zu extents are held for %zu blocks instead of %zu", what, e, m.tag.size(), m.needed(m.tag.size()));
			}
			int res = x_mal_reserved(a.al);
			CHECK(ext + res == a.live, PX, "extent-balance", "%s: %zu extents reported and %d reserved, %zu held from the allocator", what, ext, res, a.live);
			if (o.stats) {
				size_t se, rv; x_mstats_get(o.stats, &se, &rv);
				CHECK(se == ext, PX, "stats", "%s: statistics show %zu extents, %zu are used", what, se, ext);
				CHECK(rv == ext - need, PX, "stats-view", "%s: statistics show %zu extents held for read views, %zu are", what, rv, ext - need);
			}
		}
	}
	/* blocks of the extent of id may have moved */
	void moved(Mt &m, size_t id) {
		size_t b = id / m.bpe * m.bpe, n = std::min(m.tag.size(), b + m.bpe);
		for (size_t i = b; i < n; i++) m.addr[i] = (char *)peek([&] { return x_matras_get(m.m, (uint32_t)i); });
	}
	void private_(Mt &m, size_t id, char *p, const char *what) {
		for (auto v : m.views) if (v->live && id < v->tag.size())
			CHECK(p != v->addr[id], PV, "not-private", "%s: block %zu may be written but is shared with a read view", what, id);
	}
	bool alloc(Mt &m, size_t cnt, const char *what) {
		size_t n = m.tag.size(); uint32_t id = 0x5a5a5a5a; long ref = m.a->refused;
		char *p = (char *)(cnt == 1 ? x_matras_alloc(m.m, &id) : x_matras_alloc_range(m.m, &id, (uint32_t)cnt));
		ev(p != nullptr);
		if (!p) {
			if (n + cnt > m.cap) { cover("capacity_reached"); return false; }
			CHECK(m.a->refused > ref, PI, "refused", "%s of %zu blocks failed with %zu of %zu blocks used although no extent was refused", what, cnt, n, m.cap);
			cover("alloc_refused");
			return false;
		}
		CHECK(n + cnt <= m.cap, PI, "over-capacity", "%s returned block %zu beyond the capacity of %zu", what, n, m.cap);
		CHECK(m.a->refused == ref, PI, "refused-success", "%s succeeded although an extent was refused", what);
		CHECK(id == n, PI, "id", "%s returned id %u, expected %zu", what, id, n);
		for (size_t i = 0; i < cnt; i++) {
			char *q = (char *)peek([&] { return x_matras_get(m.m, (uint32_t)(n + i)); });
			CHECK(q == p + i * m.bs, PI, "address", "%s: id %zu does not resolve to the returned memory", what, n + i);
			place(m, q, n + i, PI, what);
			private_(m, n + i, q, what);
			m.tag.push_back(newtag()); m.addr.push_back(q);
			put(q, m.bs, m.tag.back());
		}
		size_t ne = (m.tag.size() + m.bpe - 1) / m.bpe;
		if (m.own_ext.size() < ne) m.own_ext.resize(ne, 1);
		return true;
	}
	void write(Mt &m, size_t id, char *p) { m.tag[id] = newtag(); put(p, m.bs, m.tag[id]); }
	/* returns whether it succeeded */
	bool touch(Mt &m, size_t id, bool must, const char *what) {
		long ref = m.a->refused;
		bool need = x_matras_needs_touch(m.m, (uint32_t)id);
		char *p;
		if (need && (id & 1)) p = (char *)x_matras_touch_no_check(m.m, (uint32_t)id);
		else p = (char *)x_matras_touch(m.m, (uint32_t)id);
		ev(p != nullptr);
		if (!p) {
			CHECK(m.a->refused > ref, PX, "touch-refused", "%s of block %zu failed although no extent was refused", what, id);
			CHECK(need, PX, "touch-refused", "%s of block %zu failed although it was not needed", what, id);
			CHECK(!must, PX, "reserve-broken", "%s of block %zu failed although space for it had been reserved", what, id);
			cover("touch_refused");
			return false;
		}
		if (need) {
			cover("touch_cow");
			if (m.own_ext[id / m.bpe]) CHECK(p == m.addr[id], PI, "moved", "%s of block %zu moved it although its extent was already private to the current version", what, id);
			else moved(m, id);
		}
		m.own_ext[id / m.bpe] = 1;
		private_(m, id, p, what);
		char *q = (char *)peek([&] { return x_matras_get(m.m, (uint32_t)id); });
		CHECK(p == q, PI, "touch-address", "%s of block %zu returned other memory than its id resolves to", what, id);
		CHECK(good(p, m.bs, m.tag[id]), PI, "touch-contents", "%s of block %zu lost its contents", what, id);
		yield_point();
		write(m, id, p);
		return true;
	}
	void exec(int th, const Op &op) override {
		Rng g(mix((uint64_t)op.b, op.id));
		if (th > cfg("owners")) { reader(op, g); return; }
		Own &o = own[th]; Mt &m = o.ms[op.c % o.ms.size()]; Alo &a = *m.a;
		size_t n = m.tag.size();
		switch (op.code) {
		case ALLOC:
			for (long i = 0; i < op.a && m.tag.size() < m.max; i++) if (!alloc(m, 1, "allocation")) break;
			if (m.tag.size() >= m.max && m.max == m.cap) alloc(m, 1, "allocation at capacity");
			break;
		case RANGE: {
			size_t r = m.bpe; int sh = (int)g.u(4);
			while (r > 1 && sh--) r /= 2;
			while (n % r) r /= 2;
			if (n + r > m.max && m.max < m.cap) break;
			alloc(m, r, "range allocation");
			break; }
		case DEALLOC: case DRANGE: {
			if (!n) break;
			size_t r = 1;
			if (op.code == DRANGE) { r = m.bpe; int sh = (int)g.u(3); while (r > 1 && sh--) r /= 2; while (n % r) r /= 2; }
			long times = op.code == DEALLOC ? op.a : 1;
			for (long i = 0; i < times && m.tag.size(); i++) {
				long left = a.left; a.nofault = true;
				/* a failing copy cannot be reported by this call (see known findings): make room before */
				a.left = -1;
				if (cfg("dfault")) a.left = 0;	/* only in the recorded finding: refuse it all the same */
				else if (g.p(0.5)) {
					int rc = x_matras_touch_reserve(m.m, 1);
					CHECK(rc == 0, PX, "reserve-refused", "reservation failed although no extent was refused");
					a.left = 0;
				}
				long ref = a.refused;
				if (r == 1) x_matras_dealloc(m.m); else x_matras_dealloc_range(m.m, (uint32_t)r);
				CHECK(a.refused == ref || cfg("dfault"), PX, "reserve-broken", "deallocation after a reservation for one touch still asked for more extents");
				a.left = left; a.nofault = false;
				m.tag.resize(m.tag.size() - r); m.addr.resize(m.tag.size());
				m.own_ext.resize((m.tag.size() + m.bpe - 1) / m.bpe);
				if (m.tag.size() % m.bpe && !m.own_ext.back()) moved(m, m.tag.size() - 1);
			}
			cover("dealloc");
			break; }
		case TOUCH:
			for (long i = 0; i < op.a && n; i++) touch(m, g.u(n), false, "touch");
			break;
		case WRITEN:	/* write in place where no touch is needed */
			for (int i = 0; i < 4 && n; i++) {
				size_t id = g.u(n);
				if (x_matras_needs_touch(m.m, (uint32_t)id)) continue;
				char *p = (char *)x_matras_get(m.m, (uint32_t)id);
				private_(m, id, p, "write without touch");
				CHECK(p == m.addr[id], PI, "moved", "block %zu moved although it was not touched", id);
				write(m, id, p);
			}
			break;
		case RTOUCH: {
			if (!n) break;
			int cnt = (int)std::min<long>(op.a, 20); long ref = a.refused;
			int rc = x_matras_touch_reserve(m.m, cnt);
			if (rc) { CHECK(a.refused > ref, PX, "reserve-refused", "reservation for %d touches failed although no extent was refused", cnt); cover("reserve_refused"); break; }
			CHECK(a.refused == ref, PX, "reserve-refused", "reservation for %d touches succeeded although an extent was refused", cnt);
			long left = a.left;
			if (g.p(0.3)) {	/* a later, larger reservation that fails halfway does not cost the first one */
				int more = cnt + (int)g.r(1, 30); a.left = g.r(0, 3); ref = a.refused;
				rc = x_matras_touch_reserve(m.m, more);
				CHECK((rc != 0) == (a.refused > ref), PX, "reserve-refused", "reservation for %d touches returned %d, %ld extents were refused", more, rc, a.refused - ref);
				if (rc) cover("second_reservation_refused");
			}
			a.left = 0;
			size_t base = g.u(n);
			for (int i = 0; i < cnt; i++) touch(m, g.p(0.5) ? g.u(n) : (base + i * m.bpe) % n, true, "reserved touch");
			a.left = left;
			cover("reserved_touches");
			break; }
		case RALLOC: {
			int cnt = (int)g.r(0, 6); long ref = a.refused;
			int rc = x_mal_reserve(a.al, cnt);
			CHECK((rc != 0) == (a.refused > ref), PX, "reserve-refused", "reserving %d extents returned %d, %ld refused", cnt, rc, a.refused - ref);
			if (rc) break;
			CHECK(x_mal_reserved(a.al) >= cnt, PX, "reserve-count", "%d extents reserved, %d requested", x_mal_reserved(a.al), cnt);
			if (cnt >= 3 && n < m.max) {
				long left = a.left; a.left = 0;
				bool ok = alloc(m, 1, "allocation with extents reserved");
				CHECK(ok || n == m.cap, PX, "reserve-broken", "allocation failed although %d extents were reserved", cnt);
				a.left = left;
			}
			break; }
		case MKVIEW: {
			size_t live = 0; for (auto v : m.views) live += v->live;
			if (live >= 6) break;
			View *v = new View; all.push_back(v);
			v->v = os_alloc(x_mview_sizeof());
			x_matras_create_view(m.m, v->v);
			CHECK(x_matras_is_view(v->v) == 1 && x_matras_is_view(m.hv) == 0, PV, "is-view", "a read view is not recognised as one");
			v->tag = m.tag; v->addr = m.addr;
			std::fill(m.own_ext.begin(), m.own_ext.end(), 0);
			m.views.push_back(v);
			cover("views");
			break; }
		case RMVIEW: {
			std::vector<View *> l; for (auto v : m.views) if (v->live && !v->pins) l.push_back(v);
			if (l.empty()) break;
			View *v = l[g.u(l.size())];
			v->live = false;
			x_matras_destroy_view(m.m, v->v);
			os_release(v->v);
			for (size_t i = 0; i < m.views.size(); i++) if (m.views[i] == v) { m.views.erase(m.views.begin() + i); break; }
			break; }
		case LIMIT: a.left = g.r(0, 4); break;
		case UNLIMIT: a.left = -1; break;
		case RESET: case RECREATE: {
			bool pinned = false; for (auto v : m.views) if (v->pins) pinned = true;
			if (pinned) break;
			for (auto v : m.views) v->live = false;
			if (op.code == RESET) x_matras_reset(m.m); else x_matras_destroy(m.m);
			for (auto v : m.views) os_release(v->v);
			m.views.clear(); m.tag.clear(); m.addr.clear(); m.own_ext.clear();
			if (op.code == RECREATE) mk(o, m, m.a, false);
			break; }
		case FULL: full(op); return;
		default: break;
		}
		account(o, opname(op.code));
		for (auto &k : o.ms) verify(k, g, opname(op.code), op.code == VERIFY || op.code == RMVIEW || g.p(0.1));
		if (n && m.tag.size()) {	/* through a view of the current version */
			size_t id = g.u(m.tag.size());
			char *p = (char *)x_matras_view_get(m.m, m.hv, (uint32_t)id);
			CHECK(p == m.addr[id], PI, "head-view", "the head view resolves block %zu differently", id);
		}
	}
	void reader(const Op &op, Rng &g) {
		if (own[1].ms.empty()) return;
		std::vector<std::pair<Mt *, View *>> l;
		for (auto &m : own[1].ms) for (auto v : m.views) if (v->live && v->tag.size()) l.push_back({&m, v});
		if (l.empty()) return;
		auto x = l[g.u(l.size())]; Mt &m = *x.first; View &v = *x.second;
		v.pins++;
		for (long i = 0; i < op.c; i++) {
			size_t id = g.u(v.tag.size());
			char *p = (char *)x_matras_view_get(m.m, v.v, (uint32_t)id);
			place(m, p, id, PV, "reader");
			CHECK(p == v.addr[id], PV, "view-moved", "reader: block %zu of a read view moved", id);
			CHECK(good(p, m.bs, v.tag[id]), PV, "view-contents", "reader: block %zu of a read view changed", id);
			yield_point();
			place(m, p, id, PV, "reader holding a block");
			CHECK(good(p, m.bs, v.tag[id]), PV, "view-contents", "reader: block %zu of a read view changed while being read", id);
			cover("view_reads");
		}
		v.pins--;
	}
	/* the identifier space filled up to the very end: extents of 64 KB, one byte per block */
	void full(const Op &op) {
		Alo a; size_t es = 65536; unsigned bs = 1;
		switch (op.a % 3) { case 0: break; case 1: es = 1 << 20; bs = 1; break; default: es = 1 << 22; bs = 4; }
		size_t bpe = es / bs, cap = 1ULL << 32;
		a.fast = true; a.arena_n = cap * bs + (16ULL << 30) / 16; a.arena = os_alloc(a.arena_n);
		mkalo(a, es);
		void *m = os_alloc(x_matras_sizeof()), *v = os_alloc(x_mview_sizeof()); Rng g(op.b);
		x_matras_create(m, bs, a.al, nullptr);
		uint64_t n = 0; uint32_t id; std::vector<std::pair<uint64_t, char *>> mark;
		while (n < cap) {
			char *p = (char *)x_matras_alloc_range(m, &id, (uint32_t)bpe);
			CHECK(p && id == n, PI, "full-id", "range allocation of %zu at block %llu of %zu gave %p id %u", bpe, (unsigned long long)n, cap, p, id);
			if (g.p(0.01) || n + bpe == cap || n == 0 || n == cap / 2) { uint64_t b = n + g.u(bpe); char *q = p + (b - n) * bs; mark.push_back({b, q}); *q = (char)mix(b, 1); }
			n += bpe;
		}
		CHECK(!x_matras_alloc(m, &id) && !x_matras_alloc_range(m, &id, (uint32_t)bpe), PI, "over-capacity", "allocation beyond 2^32 blocks succeeded");
		for (auto &k : mark) {
			char *q = (char *)x_matras_get(m, (uint32_t)k.first);
			CHECK(q == k.second && *q == (char)mix(k.first, 1), PI, "full-address", "block %llu of a full structure does not resolve to its memory", (unsigned long long)k.first);
		}
		size_t need = 1 + cap / bpe + (cap + bpe * (es / 8) - 1) / (bpe * (es / 8));
		CHECK(a.live >= need && x_matras_extents(m) == a.live, PX, "full-extents", "%zu extents held, %zu reported, %zu needed", a.live, x_matras_extents(m), need);
		if (op.b & 1) {
			x_matras_create_view(m, v);
			for (auto &k : mark) {
				char *q = (char *)x_matras_touch(m, (uint32_t)k.first);
				CHECK(q && q != k.second && *q == (char)mix(k.first, 1), PI, "full-touch", "touch of block %llu of a full structure", (unsigned long long)k.first);
				*q = 0;
				if (g.p(0.5)) break;
			}
			for (auto &k : mark) CHECK(*(char *)x_matras_view_get(m, v, (uint32_t)k.first) == (char)mix(k.first, 1), PV, "full-view", "view of a full structure lost block %llu", (unsigned long long)k.first);
			if (op.b & 2) {
				x_matras_destroy_view(m, v);
				CHECK(a.live == x_matras_extents(m), PX, "full-extents", "%zu extents held, %zu reported", a.live, x_matras_extents(m));
			}
		}
		if (op.b & 4) x_matras_dealloc_range(m, (uint32_t)bpe);
		x_matras_destroy(m);
		x_mal_destroy(a.al);
		CHECK(a.live == 0, PX, "leak", "%zu extents remain after the destruction of a full structure", a.live);
		cover("full_id_space");
		os_release(a.arena);
		for (auto i = exts.begin(); i != exts.end();) if (i->second.a == &a) i = exts.erase(i); else ++i;
		alos.erase(a.al);
	}
	const char *opname(int k) override { static const char *n[] = {"alloc", "alloc_range", "dealloc", "dealloc_range", "touch", "write", "reserve+touch", "reserve+alloc", "create_view", "destroy_view", "read_view", "verify", "limit", "unlimit", "reset", "recreate", "fill_up"}; return n[k]; }
	void end(int th) override {
		if (th > cfg("owners")) return;
		Own &o = own[th];
		Rng g(mix(c->get("salt"), th));
		for (auto &m : o.ms) for (auto v : m.views) v->live = false;
		for (auto &m : o.ms) for (auto v : m.views) if (v->pins) { View *w = v; wait_until([w] { return w->pins == 0; }); }
		for (auto &m : o.ms) {
			for (auto v : m.views) v->live = false;
			if (g.p(0.6)) while (m.views.size()) { size_t i = g.u(m.views.size()); x_matras_destroy_view(m.m, m.views[i]->v); m.views.erase(m.views.begin() + i); }
			if (g.p(0.3)) { x_matras_reset(m.m); x_matras_destroy(m.m); } else x_matras_destroy(m.m);
			CHECK(x_matras_extents(m.m) == 0, PX, "leak", "%zu extents are reported after destruction", x_matras_extents(m.m));
			m.views.clear();
		}
		if (o.stats) { size_t a, b; x_mstats_get(o.stats, &a, &b); CHECK(!a && !b, PX, "stats", "statistics show %zu extents and %zu for views after everything was destroyed", a, b); }
		for (auto &a : o.alo) if (a.al) {
			x_mal_destroy(a.al);
			CHECK(x_mal_reserved(a.al) == 0, PX, "leak", "%d reserved extents reported after destruction", x_mal_reserved(a.al));
			CHECK(a.live == 0, PX, "leak", "%zu extents were never given back", a.live);
		}
		o.ms.clear();
	}
	void finish() override { CHECK(os_heap_live() == 0, PX, "leak", "heap leak"); count_nontrivial(); }
};
Scenario *sim::make_scenario() { return new Matras; }
