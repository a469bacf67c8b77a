/*
 * Deterministic simulator for tarantool/small: public interface of the engine.
 *
 * One process, one OS thread.  Simulated threads are fibers; every memory
 * access made by library code (compiled with -fsanitize=thread and linked
 * with our own runtime instead of libtsan) is a scheduling point; the heap,
 * mmap and friends are simulated in a private address range with shadow
 * state.  A run is a pure function of a Case.
 */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <functional>

namespace sim {

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	/* [0, n) */
	uint64_t u(uint64_t n) { return n ? next() % n : 0; }
	/* [lo, hi] */
	long r(long lo, long hi) { return lo + (long)u((uint64_t)(hi - lo) + 1); }
	bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
	template <class T> T pick(std::initializer_list<T> l) {
		return *(l.begin() + u(l.size()));
	}
};
static inline uint64_t mix(uint64_t a, uint64_t b) {
	uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

enum FaultKind { F_MMAP, F_MALLOC, F_MADV, F_CAS, F_EXT, F_MAX };
extern const char *fault_name[F_MAX];

struct Op { int id, th, code; long a, b, c; };
struct Sw { int th, op, acc, to, solo; };	/* solo: ops run with the rest frozen */
struct Ft { int th, op, kind, nth; };

struct Case {
	std::string prop, scenario, variant;
	uint64_t seed = 0;
	std::map<std::string, long> cfg;
	std::vector<Op> ops;
	std::vector<Sw> sw;
	std::vector<Ft> ft;
	/* expected outcome, filled for replay files */
	std::string key, msg;
	uint64_t hash = 0;
	long get(const char *n, long d = 0) const {
		auto i = cfg.find(n);
		return i == cfg.end() ? d : i->second;
	}
	void set(const char *n, long v) { cfg[n] = v; }
	void add(int th, int code, long a = 0, long b = 0, long c = 0) {
		ops.push_back(Op{(int)ops.size() + 1, th, code, a, b, c});
	}
};

/* op ids with a meaning of their own */
enum { OP_SETUP = 0, OP_BEGIN = 1000000, OP_END = 2000000, OP_FINISH = 3000000 };

struct Scenario {
	Case *c = nullptr;
	virtual ~Scenario() {}
	virtual void gen(Rng &r) = 0;
	virtual void setup() = 0;
	virtual void begin(int) {}
	virtual void exec(int th, const Op &op) = 0;
	virtual void end(int) {}
	virtual void finish() = 0;
	virtual const char *opname(int) { return "op"; }
	virtual void describe(std::string &) {}
	long cfg(const char *n, long d = 0) const { return c->get(n, d); }
};
/* every scenario translation unit provides this */
Scenario *make_scenario();
extern const char *scenario_name;

/* ---------- services for scenarios ---------- */
extern int cur_th;			/* running simulated thread, 0 = main */
int nthreads();
bool active(const char *props);		/* is one of "C01,C02" the active property */
/* report a violation of one of the properties (comma separated, "*" = any) */
void viol(const char *props, const char *key, const char *fmt, ...)
	__attribute__((format(printf, 3, 4)));
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void ev(uint64_t h);			/* mix an observable result into the run hash */
uint64_t now();				/* simulated time: scheduling points so far */
void yield_point();			/* explicit scheduling point */
void wait_until(std::function<bool()> f);
void faults(bool on);			/* enable / disable fault injection */
bool faults_on();
bool fault(FaultKind k);		/* ask whether to inject here */
uint64_t fired(FaultKind k);		/* faults of this kind fired in this run */
uint64_t fired_total();
void cover(const char *name, uint64_t n = 1);	/* coverage counters */
void count_nontrivial();		/* this run exercised something beyond the trivial */
void set_tls_swap(bool on);
void nofault_add(int th, int d);
/* no faults for this thread in this scope */
struct NoFaults { int th; NoFaults() : th(cur_th) { nofault_add(th, 1); } ~NoFaults() { nofault_add(th, -1); } };

/* simulated operating system */
void *os_alloc(size_t n, size_t align = 16);	/* harness-owned object visible to the library */
void os_release(void *p);
size_t os_heap_live();			/* bytes malloc'ed by the library, live */
size_t os_heap_blocks();
size_t os_mapped();			/* bytes mapped by the library */
size_t os_mapped_count();
bool os_is_mapped(const void *p, size_t n);	/* r/w backed, as mmap or heap */
bool os_in_map(const void *p);
bool os_flag_at(const void *p, int what);	/* 1: MAP_PRIVATE 2: MAP_SHARED 4: DONTDUMP 8: writable */
bool os_all_pages(const void *p, size_t n, int what);
bool os_no_pages(const void *p, size_t n, int what);
size_t os_block_size(const void *p);		/* size of heap block starting at p, 0 if none */
uintptr_t os_block_of(const void *p, size_t *n);	/* live heap block that contains p */
bool os_poisoned(const void *p);		/* asan flavour: byte fenced or not addressable */
bool os_caught(std::function<void()> f);		/* asan flavour: f ends in a failed assertion */
size_t os_page();
void os_protect_owned(const void *p, size_t n, bool on);	/* library writes here are violations */
uint64_t os_mmap_calls(); uint64_t os_mmap_failed(); uint64_t os_malloc_failed();
extern const char *owned_prop;
std::vector<std::pair<uintptr_t, size_t>> os_maps();
long th_mmap_failed();			/* refused mmaps in the current operation of this thread */
long th_malloc_failed();
long th_madvise_failed();
long th_mmap_failed_of(int th);		/* the same of another thread */
/* run f without scheduling points and faults: an observation by the checker */
template <class F> auto peek(F f) -> decltype(f());
void peek_begin(); void peek_end();
template <class F> auto peek(F f) -> decltype(f()) { peek_begin(); auto r = f(); peek_end(); return r; }

/* contents of live objects */
uint64_t pat(uint64_t tag, size_t word);
void fill(void *p, size_t n, uint64_t tag);
long check(const void *p, size_t n, uint64_t tag);	/* -1 ok, else offset of damage */

struct Live { char *p; size_t n; uint64_t tag; long x; };
struct Tracker {
	const char *props; const char *what;
	std::map<uintptr_t, Live> m;
	size_t bytes = 0;
	uint64_t next = 1;
	Tracker(const char *props_, const char *what_) : props(props_), what(what_) {}
	/* new object: check backing, alignment, overlap; fill */
	Live &add(void *p, size_t n, size_t align, long x = 0, bool dofill = true);
	void verify(const Live &l);
	void verify_all();
	void remove(void *p);		/* verify and forget */
	void forget(void *p);
	Live &nth(size_t i);
	size_t size() const { return m.size(); }
};

/* histories */
struct HEv { int th; uint64_t inv, res; int code; long a, b, r1, r2; };
struct Lin {
	std::vector<HEv> h;
	bool gave_up = false;
	/* apply(state, ev) -> legal?  state is a vector<long> */
	bool check(std::vector<long> init,
		   std::function<bool(std::vector<long> &, const HEv &)> apply,
		   size_t budget = 200000);
	std::string text(std::function<std::string(const HEv &)> f);
};

} /* namespace sim */

#define CHECK(cond, props, key, ...) do { if (!(cond)) ::sim::viol(props, key, __VA_ARGS__); } while (0)
