/* Lock-free list: linearizable stack, ABA safety (C02), lock-freedom (C05). */
#include "engine.h"
#include "shim/shim.h"
using namespace sim;
const char *sim::scenario_name = "lifo";

enum { PUSH, POP, EMPTY, CYCLE, STORM };
struct Lifo : Scenario {
	void *head = nullptr;
	std::vector<char *> el;
	std::vector<int> owner;		/* thread, 0 = in the list */
	std::vector<int> own[9];
	std::vector<long> init;
	Lin lin;
	enum { ESZ = 64 };
	long pushes = 0;
	void gen(Rng &r) override {
		if (!active("C05") && r.p(0.06)) {
			/* one thread is suspended inside an operation while another one
			 * takes everything out, recycles an element 2^k times and puts
			 * the same top element back on a different rest of the list */
			c->set("threads", 2); c->set("elems", 4); c->set("initial", r.r(2, 3)); c->set("cycles", 1);
			c->set("sched", 2); c->set("pctlen", r.pick({8, 16, 30})); c->set("pctd", r.r(1, 2));
			for (long i = 0, k = r.r(1, 2); i < k; i++) c->add(1, r.p(0.85) ? POP : PUSH, (long)r.u(9));
			long k = r.p(0.08) ? r.r(11, 15) : r.r(1, 10);
			c->add(2, STORM, 1L << k, (long)r.u(9));
			if (r.p(0.3)) c->add(1, POP);
			return;
		}
		long th = r.r(2, 4);
		c->set("threads", th);
		c->set("elems", r.r(1, 5));
		c->set("initial", r.u(4));
		if (r.p(0.5)) c->set("fr_cas", r.pick({20, 100, 300}));
		bool c5 = active("C05");
		if (c5) c->set("solo", r.pick({5, 30, 100}));
		bool cyc = !c5 && r.p(0.15);
		c->set("cycles", cyc);
		long per = c5 ? r.r(3, 8) : cyc ? r.r(2, 5) : r.r(2, 7);
		for (long i = 0; i < per; i++)
			for (long t = 1; t <= th; t++) {
				long x = r.u(100);
				if (cyc && x < 25)
					c->add((int)t, CYCLE, r.p(0.04) ? r.pick({32768, 65535, 65000, 4096}) : r.pick({1, 2, 3, 4, 8, 15, 16, 17, 32, 64, 127, 128, 255, 256, 257, 512, 1024}));
				else
					c->add((int)t, x < 45 ? PUSH : x < 90 ? POP : EMPTY, (long)r.u(1000), (long)r.u(1000));
			}
	}
	int idx(void *p) { for (size_t i = 0; i < el.size(); i++) if (el[i] == p) return (int)i; return -1; }
	/* content the owner writes into its element: next-pointer-like bait */
	void scribble(int i, long salt) {
		for (int k = 0; k < ESZ / 8; k++) {
			uint64_t v = mix(salt, k);
			if (k == 0) v = (salt & 3) == 0 ? 0 : (salt & 3) == 1 ? (uint64_t)el[salt % el.size()] + (v & 0xffff) : v;
			memcpy(el[i] + 8 * k, &v, 8);
		}
		memcpy(copy[i], el[i], ESZ);
	}
	char copy[8][ESZ];
	void setup() override {
		head = os_alloc(x_lifo_sizeof());
		x_lifo_init(head);
		for (long i = 0; i < cfg("elems"); i++) {
			el.push_back((char *)os_alloc(ESZ, 65536));
			owner.push_back(0);
		}
		CHECK(x_lifo_empty(head), "C02", "empty-new", "a new list is not empty");
		for (size_t i = 0; i < el.size(); i++) {
			int t = 1 + i % cfg("threads");
			if ((long)i < cfg("initial")) { x_lifo_push(head, el[i]); init.push_back((long)i); owner[i] = 0; }
			else { owner[i] = t; own[t].push_back((int)i); scribble((int)i, (long)i * 7 + 1); }
		}
	}
	int do_pop(int th, const char *what) {
		void *p = x_lifo_pop(head);
		if (!p) return -1;
		int i = idx(p);
		if (i < 0) viol("C02", "invented", "%s returned %p which was never pushed", what, p);
		if (owner[i] != 0) viol("C02", "double-pop", "%s by thread %d returned element %d which thread %d owns", what, th, i, owner[i]);
		owner[i] = th;
		own[th].push_back(i);
		scribble(i, (long)now());
		return i;
	}
	void do_push(int th, size_t k) {
		int i = own[th][k];
		own[th].erase(own[th].begin() + k);
		if (memcmp(copy[i], el[i], ESZ)) viol("C02", "owned-changed", "element %d changed while thread %d owned it", i, th);
		owner[i] = 0; pushes++;
		x_lifo_push(head, el[i]);
	}
	void push_el(int th, int i) {
		size_t pos = 0;
		while (pos < own[th].size() && own[th][pos] != i) pos++;
		do_push(th, pos);
	}
	void exec(int th, const Op &o) override {
		HEv e{th, now(), 0, o.code, 0, 0, 0, 0};
		switch (o.code) {
		case PUSH:
			if (own[th].empty()) return;
			e.a = own[th][o.a % own[th].size()];
			do_push(th, o.a % own[th].size());
			break;
		case POP: e.r1 = do_pop(th, "pop"); break;
		case EMPTY: e.r1 = x_lifo_empty(head) != 0; break;
		case CYCLE: {
			/* recycle one element many times while others may be in the middle of a pop */
			int i = do_pop(th, "pop");
			if (i < 0) return;
			int keep = o.b & 1 ? do_pop(th, "pop") : -1;
			(void)keep;
			long n = o.a;
			if (pushes + n > 65000) n = 65000 - pushes;
			for (long k = 0; k < n; k++) {
				size_t pos = 0;
				while (pos < own[th].size() && own[th][pos] != i) pos++;
				do_push(th, pos);
				if (k + 1 < n) { i = do_pop(th, "pop"); if (i < 0) break; }
			}
			cover("recycle_bursts");
			return;
		}
		case STORM: {
			int a = do_pop(th, "pop"), b = do_pop(th, "pop");
			if (a < 0 || own[th].size() < 2) return;
			int k = -1;
			for (int i : own[th]) if (i != a && i != b) k = i;
			if (k < 0) k = b;
			long n = o.a < 2 ? 2 : o.a; bool ok = true;
			for (long j = 0; j < n - 1 && ok; j++) {
				push_el(th, k);
				if (j + 1 < n - 1) { int q = do_pop(th, "pop"); ok = q == k; }
			}
			if (ok) push_el(th, a);
			cover("recycle_storms");
			return;
		}
		}
		e.res = now();
		logf("-> %ld", e.code == PUSH ? e.a : e.r1);
		ev(mix(e.code, e.r1) ^ e.a);
		if (!cfg("cycles")) lin.h.push_back(e);
	}
	const char *opname(int k) override { static const char *n[] = {"push", "pop", "is_empty", "recycle", "storm"}; return n[k]; }
	void finish() override {
		if (active("C02") && !cfg("cycles")) {
			bool ok = lin.check(init, [](std::vector<long> &s, const HEv &e) {
				switch (e.code) {
				case PUSH: s.push_back(e.a); return true;
				case POP: if (s.empty()) return e.r1 == -1; if (s.back() != e.r1) return false; s.pop_back(); return true;
				case EMPTY: return (e.r1 != 0) == s.empty();
				}
				return false;
			});
			cover(lin.gave_up ? "linearizability_inconclusive" : "linearizability_checked");
			if (!ok)
				viol("C02", "not-linearizable", "no stack order explains the history:%s",
				     lin.text([this](const HEv &e) { char b[128]; snprintf(b, sizeof b, "%s(%ld)=%ld", opname(e.code), e.a, e.r1); return std::string(b); }).c_str());
		}
		/* drain: everything not owned must come out exactly once */
		size_t in = 0; for (int o : owner) in += o == 0;
		for (size_t k = 0; k < in; k++) {
			CHECK(!x_lifo_empty(head), "C02", "lost", "list is empty but %zu of %zu elements are missing", in - k, in);
			int i = do_pop(1, "final pop");
			CHECK(i >= 0, "C02", "lost", "%zu of %zu pushed elements cannot be popped", in - k, in);
			if (i < 0) break;
		}
		CHECK(x_lifo_pop(head) == nullptr, "C02", "invented", "the drained list still yields an element");
		CHECK(x_lifo_empty(head), "C02", "empty-drained", "a drained list does not report empty");
	}
};
Scenario *sim::make_scenario() { return new Lifo; }
