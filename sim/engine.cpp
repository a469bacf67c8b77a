/* Deterministic simulator engine: fibers, scheduler, faults, simulated OS. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "engine.h"
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <limits.h>
#include <setjmp.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <algorithm>

namespace sim {

const char *fault_name[F_MAX] = { "mmap_enomem", "malloc_null", "madvise_fail",
				  "cas_spurious", "extent_refused" };
int cur_th;
const char *owned_prop = "C03";

/* ------------------------------------------------------------------ */
/* state of one run                                                    */

enum { MAXTH = 8, STK = 256 * 1024 };
enum St { ST_NONE, ST_RUN, ST_WAIT, ST_DONE };

struct Thread {
	void *sp = nullptr;
	char *lo = nullptr, *hi = nullptr;
	St st = ST_NONE;
	std::function<bool()> pred;
	bool lockwait = false;
	int op = 0, acc = 0;
	long mmfail = 0, mafail = 0, mdfail = 0;
	int nofault = 0;
	int fcnt[F_MAX] = {0};
	int storm = 0;		/* this many more atomic updates of the operation lose against contention */
	uint64_t stalled_until = 0;
	long prio = 0;
	jmp_buf *expect = nullptr;	/* a failed library assertion ends the call here */
	std::vector<Op> ops;
	char *tls = nullptr;
};
static Thread T[MAXTH + 1];
static int NT;
static void *main_sp;
static Scenario *SC;
static Case *CASE;
static bool recording, par, faults_enabled, verbose, tls_swap;
static uint64_t hooks, hooks_seen, bulks, steps, step_cap, run_hash, sw_inside, run_faults[F_MAX];
static int solo_th, solo_left; static uint64_t solo_steps;
static bool nontrivial;
static Rng SR(1);	/* scheduling */
static Rng FR(1);	/* faults */
static std::vector<Sw> rec_sw; static std::vector<Ft> rec_ft;
static std::unordered_map<uint64_t, Sw> rep_sw;
static std::unordered_set<uint64_t> rep_ft;
static std::map<std::string, uint64_t> COV;
static std::string LOG;
static std::string ACTIVE;
static uint64_t tot_steps;

static uint64_t kacc(int th, int op, int acc) {
	return ((uint64_t)th << 58) ^ ((uint64_t)op << 30) ^ (uint64_t)acc;
}
static uint64_t kft(int th, int op, int kind, int nth) {
	return ((uint64_t)th << 58) ^ ((uint64_t)op << 30) ^ ((uint64_t)kind << 24) ^ nth;
}

int nthreads() { return NT; }
uint64_t now() { return steps; }
void ev(uint64_t h) { run_hash = mix(run_hash, h); }
void faults(bool on) { faults_enabled = on; }
void nofault_add(int th, int d) { T[th].nofault += d; }
bool faults_on() { return faults_enabled; }
uint64_t fired(FaultKind k) { return run_faults[k]; }
uint64_t fired_total() { uint64_t n = 0; for (int i = 0; i < F_MAX; i++) n += run_faults[i]; return n; }
void cover(const char *name, uint64_t n) { COV[name] += n; }
void count_nontrivial() { nontrivial = true; }
void set_tls_swap(bool on) { tls_swap = on; }

void logf(const char *fmt, ...) {
	if (!verbose)
		return;
	char b[1024];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
	printf("%8llu t%d op%d.%d  %s\n", (unsigned long long)steps, cur_th,
	       T[cur_th].op, T[cur_th].acc, b);
}

bool active(const char *props) {
	if (!strcmp(props, "*"))
		return true;
	const char *p = strstr(props, ACTIVE.c_str());
	return p != nullptr;
}

/* ------------------------------------------------------------------ */
/* case files                                                           */

static std::string case_text(const Case &c) {
	std::string s = "smallsim 1\n"; char b[512];
	s += "prop " + c.prop + "\nscenario " + c.scenario + "\nvariant " + c.variant + "\n";
	snprintf(b, sizeof b, "seed %llu\n", (unsigned long long)c.seed); s += b;
	if (!c.key.empty()) {
		s += "expect_key " + c.key + "\n";
		snprintf(b, sizeof b, "expect_hash %016llx\n", (unsigned long long)c.hash); s += b;
		std::string m = c.msg; for (auto &ch : m) if (ch == '\n') ch = ' ';
		s += "expect_msg " + m + "\n";
	}
	for (auto &k : c.cfg) { snprintf(b, sizeof b, "cfg %s %ld\n", k.first.c_str(), k.second); s += b; }
	for (auto &o : c.ops) { snprintf(b, sizeof b, "op %d %d %d %ld %ld %ld # %s\n", o.id, o.th, o.code, o.a, o.b, o.c, SC ? SC->opname(o.code) : ""); s += b; }
	for (auto &w : c.sw) { snprintf(b, sizeof b, "switch thread=%d op=%d point=%d to=%d solo=%d\n", w.th, w.op, w.acc, w.to, w.solo); s += b; }
	for (auto &f : c.ft) { snprintf(b, sizeof b, "fault thread=%d op=%d kind=%s nth=%d\n", f.th, f.op, fault_name[f.kind], f.nth); s += b; }
	return s;
}
static bool case_load(const char *path, Case &c) {
	FILE *f = fopen(path, "r");
	if (!f) return false;
	static char b[1 << 16];
	while (fgets(b, sizeof b, f)) {
		char s1[64]; unsigned long long u; Op o; Sw w; Ft ft; long v; int n;
		b[strcspn(b, "\n")] = 0;
		if (!strncmp(b, "prop ", 5)) c.prop = b + 5;
		else if (!strncmp(b, "scenario ", 9)) c.scenario = b + 9;
		else if (!strncmp(b, "variant ", 8)) c.variant = b + 8;
		else if (!strncmp(b, "expect_key ", 11)) c.key = b + 11;
		else if (!strncmp(b, "expect_msg ", 11)) c.msg = b + 11;
		else if (sscanf(b, "expect_hash %llx", &u) == 1) c.hash = u;
		else if (sscanf(b, "seed %llu", &u) == 1) c.seed = u;
		else if (sscanf(b, "cfg %63s %ld", s1, &v) == 2) c.cfg[s1] = v;
		else if (sscanf(b, "op %d %d %d %ld %ld %ld", &o.id, &o.th, &o.code, &o.a, &o.b, &o.c) == 6) c.ops.push_back(o);
		else if (sscanf(b, "switch thread=%d op=%d point=%d to=%d solo=%d", &w.th, &w.op, &w.acc, &w.to, &w.solo) == 5) c.sw.push_back(w);
		else if (sscanf(b, "fault thread=%d op=%d kind=%63s nth=%d", &ft.th, &ft.op, s1, &n) == 4) {
			s1[63] = 0; for (char *p = s1; *p; p++) if (*p == ' ') *p = 0;
			ft.nth = n; ft.kind = -1;
			for (int i = 0; i < F_MAX; i++) if (!strcmp(s1, fault_name[i])) ft.kind = i;
			if (ft.kind >= 0) c.ft.push_back(ft);
		}
	}
	fclose(f);
	return true;
}

/* ------------------------------------------------------------------ */
/* violations                                                           */

static std::function<void()> on_viol;
static bool in_viol;

void viol(const char *props, const char *key, const char *fmt, ...) {
	if (!active(props)) {
		COV[std::string("other_property_oracle_fired_") + key]++;
		return;
	}
	if (in_viol)
		_exit(3);
	in_viol = true;
	static char b[4096];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	CASE->key = key;
	char pre[160];
	snprintf(pre, sizeof pre, "[thread %d, op %d point %d] ", cur_th, T[cur_th].op, T[cur_th].acc);
	CASE->msg = std::string(pre) + b;
	uint64_t hk = 0; for (const char *p = key; *p; p++) hk = mix(hk, *p);
	CASE->hash = mix(mix(run_hash, hk), mix(steps, (uint64_t)cur_th << 32 | (unsigned)T[cur_th].op));
	if (recording) { CASE->sw = rec_sw; CASE->ft = rec_ft; }
	on_viol();
	_exit(1);
}

static void on_signal(int sig, siginfo_t *si, void *) {
	if (sig == SIGVTALRM && hooks != hooks_seen) { hooks_seen = hooks; return; }	/* slow, but not stuck */
	if (sig == SIGVTALRM)
		viol("*", "hang", "15 seconds of processor time without one memory access of the library: some call does not return");
	viol("*", "crash", "signal %d (%s) at address %p", sig, strsignal(sig), si ? si->si_addr : nullptr);
}

/* ------------------------------------------------------------------ */
/* scheduler                                                            */

extern "C" void sim_ctx_switch(void **save, void *load);
asm(".text\n.globl sim_ctx_switch\nsim_ctx_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
    "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

static uintptr_t stk_lo, stk_hi;	/* running fiber's stack */
static int sched_mode; static uint64_t sched_gap, gap_left; static double p_atomic, p_bound;
static std::vector<uint64_t> pct; static size_t pct_i; static long pct_low;
static long gap_next() {
	if (sched_gap <= 1) return 1;
	/* geometric-ish */
	uint64_t g = 1 + SR.u(2 * sched_gap - 1);
	return (long)g;
}

static char *tls_base; static size_t tls_size; static char *tls_init;

static bool runnable(int t) {
	Thread &x = T[t];
	if (x.st == ST_RUN) return true;
	if (x.st == ST_WAIT) return x.pred();
	return false;
}

static void go(int to) {
	int from = cur_th;
	if (from == to) return;
	if (tls_swap) {
		memcpy(T[from].tls, tls_base, tls_size);
		memcpy(tls_base, T[to].tls, tls_size);
	}
	cur_th = to;
	stk_lo = (uintptr_t)T[to].lo; stk_hi = (uintptr_t)T[to].hi;
	void **save = from == 0 ? &main_sp : &T[from].sp;
	void *load = to == 0 ? main_sp : T[to].sp;
	int e = errno;
	sim_ctx_switch(save, load);
	errno = e;
}

static void do_switch(int to, int solo, bool inside) {
	Thread &me = T[cur_th];
	if (recording)
		rec_sw.push_back(Sw{cur_th, me.op, me.acc, to, solo});
	run_hash = mix(run_hash, kacc(cur_th, me.op, me.acc) * 31 + to + 1000 * solo);
	if (inside && to != cur_th) { sw_inside++; nontrivial = true; }
	if (solo) { solo_th = to; solo_left = solo; solo_steps = 0; nontrivial = true; COV["threads_frozen_events"]++; }
	if (verbose && to != cur_th) logf("---- switch to thread %d%s", to, solo ? " (all others frozen)" : "");
	go(to);
}

static int pick_other(bool must) {
	int cand[MAXTH + 1], n = 0;
	for (int pass = 0; pass < 2 && n == 0; pass++)
		for (int t = 1; t <= NT; t++)
			if ((t != cur_th || !must) && runnable(t) &&
			    (pass == 1 || T[t].stalled_until <= steps))
				cand[n++] = t;
	if (!n) return -1;
	if (sched_mode == 2) {
		int b = cand[0];
		for (int i = 1; i < n; i++) if (T[cand[i]].prio > T[b].prio) b = cand[i];
		return b;
	}
	return cand[SR.u(n)];
}

static void limits() {
	if (steps > step_cap)
		viol("*", "no-progress", "the run did not finish within %llu scheduling points",
		     (unsigned long long)step_cap);
	if (solo_th && cur_th == solo_th) {
		if (++solo_steps > 600)
			viol("C05", "blocked-by-stalled-thread",
			     "with all other threads stalled, the operation made %llu steps without completing",
			     (unsigned long long)solo_steps);
	}
}

/* kind: 0 plain access, 1 atomic, 2 operation boundary / explicit yield */
static void point_slow(int kind) {
	Thread &me = T[cur_th];
	if (!recording) {
		auto i = rep_sw.find(kacc(cur_th, me.op, me.acc));
		if (i == rep_sw.end()) return;
		int to = i->second.to;
		if (to < 1 || to > NT || !runnable(to)) return;
		if (solo_th) return;
		do_switch(to, i->second.solo, kind != 2);
		return;
	}
	if (solo_th) return;
	if (CASE->get("solo") && SR.u(1000) < (uint64_t)CASE->get("solo")) {
		int to = 1 + SR.u(NT);
		if (runnable(to)) { do_switch(to, 1 + SR.u(3), kind != 2); return; }
	}
	switch (sched_mode) {
	case 0: case 1: case 3: case 4: {
		double p = kind == 2 ? p_bound : sched_mode == 4 ? 0 : kind == 1 ? p_atomic : 1.0;
		if (!SR.p(p)) return;
		if (sched_mode == 3 && kind != 2)
			me.stalled_until = steps + (1ULL << SR.r(3, 11));
		int to = pick_other(true);
		if (to >= 0) do_switch(to, 0, kind != 2);
		break;
	}
	case 2:
		while (pct_i < pct.size() && pct[pct_i] <= steps) { T[cur_th].prio = pct_low--; pct_i++; }
		{
			int to = pick_other(false);
			if (to >= 0 && to != cur_th) do_switch(to, 0, kind != 2);
		}
		break;
	}
}

static inline void point(int kind) {
	hooks++;
	if (!par) return;
	T[cur_th].acc++;
	steps++;
	if (steps > step_cap || solo_th) limits();
	if (recording) {
		if (sched_mode == 2) {
			if (!(kind == 2 || (pct_i < pct.size() && pct[pct_i] <= steps) || CASE->get("solo"))) return;
		} else if (kind == 0) {
			if (--gap_left > 0) return;
			gap_left = gap_next();
		}
	}
	point_slow(kind);
}

/* Accesses to the giant blocks: only runs of one thread have them, and copying gigabytes takes billions. */
static inline void bulk() {
	hooks++;
	if (par && ++bulks > 50000000000ULL) viol("*", "no-progress", "the run did not finish within 50 billion accesses to giant blocks");
}

void yield_point() { point(2); }

/* current fiber cannot continue; pick another one */
static void forced_switch(bool finished) {
	Thread &me = T[cur_th];
	me.acc++; steps++;
	if (steps > step_cap) limits();
	if (solo_th == cur_th) { solo_th = 0; solo_left = 0; }
	int to = -1;
	if (recording) {
		to = pick_other(true);
	} else {
		auto i = rep_sw.find(kacc(cur_th, me.op, me.acc));
		if (i != rep_sw.end() && i->second.to >= 1 && i->second.to <= NT &&
		    i->second.to != cur_th && runnable(i->second.to))
			to = i->second.to;
		else
			for (int t = 1; t <= NT && to < 0; t++)
				if (t != cur_th && runnable(t)) to = t;
	}
	if (to < 0) {
		if (!finished && runnable(cur_th)) return;
		for (int t = 1; t <= NT; t++)
			if (T[t].st == ST_WAIT)
				viol("*", "deadlock", "no thread can run; thread %d waits forever", t);
		go(0);
		return;
	}
	if (recording) rec_sw.push_back(Sw{cur_th, me.op, me.acc, to, 0});
	go(to);
}

void wait_until(std::function<bool()> f) {
	if (!par) {
		if (!f()) viol("*", "deadlock", "waiting outside of the parallel phase");
		return;
	}
	point(2);
	Thread &me = T[cur_th];
	while (!f()) {
		me.st = ST_WAIT; me.pred = f;
		forced_switch(false);
		me.st = ST_RUN; me.pred = nullptr;
	}
}

static void op_done() {
	if (solo_th == cur_th) {
		solo_steps = 0;
		if (--solo_left <= 0) { solo_th = 0; point(2); }
	}
}

static void enter_op(int id) {
	Thread &me = T[cur_th];
	me.op = id; me.acc = 0;
	memset(me.fcnt, 0, sizeof me.fcnt); me.storm = 0;
	me.mmfail = me.mafail = me.mdfail = 0;
}
long th_mmap_failed() { return T[cur_th].mmfail; }
long th_madvise_failed() { return T[cur_th].mdfail; }
long th_mmap_failed_of(int th) { return T[th].mmfail; }
long th_malloc_failed() { return T[cur_th].mafail; }
static bool peek_par, peek_f;
void peek_begin() { peek_par = par; peek_f = faults_enabled; par = false; faults_enabled = false; }
void peek_end() { par = peek_par; faults_enabled = peek_f; }

static void fiber_main() {
	int th = cur_th;
	enter_op(OP_BEGIN);
	SC->begin(th);
	for (auto &o : T[th].ops) {
		enter_op(o.id);
		point(2);
		if (verbose) logf("begin %s a=%ld b=%ld c=%ld", SC->opname(o.code), o.a, o.b, o.c);
		SC->exec(th, o);
		op_done();
	}
	enter_op(OP_END);
	SC->end(th);
	T[th].st = ST_DONE;
	forced_switch(true);
	for (;;) abort();
}

/* ------------------------------------------------------------------ */
/* faults                                                               */

static int burst[F_MAX];
bool fault(FaultKind k) {
	if (!faults_enabled || T[cur_th].nofault)
		return false;
	Thread &me = T[cur_th];
	int nth = me.fcnt[k]++;
	bool f;
	if (recording) {
		if (burst[k] > 0) { burst[k]--; f = true; }
		else if (k == F_CAS && me.storm > 0 && !solo_th) { me.storm--; f = true; }
		else {
			static const char *names[F_MAX] = { "fr_mmap", "fr_malloc", "fr_madv", "fr_cas", "fr_ext" };
			long rate = CASE->get(names[k]);
			f = rate > 0 && FR.u(1000) < (uint64_t)rate;
			if (f && k != F_CAS && FR.u(4) == 0) burst[k] = FR.r(1, 6);
			if (f && k == F_CAS && nth >= 3) f = false;
			if (f && k == F_CAS && FR.u(400) == 0) { static const int len[] = { 20, 150, 1100 }; me.storm = len[FR.u(3)]; COV["contention_storms"]++; }
		}
		if (f) rec_ft.push_back(Ft{cur_th, me.op, k, nth});
	} else {
		f = rep_ft.count(kft(cur_th, me.op, k, nth)) != 0;
	}
	if (f) {
		run_faults[k]++; nontrivial = true;
		run_hash = mix(run_hash, kft(cur_th, me.op, k, nth));
		if (verbose) logf("**** fault injected: %s", fault_name[k]);
	}
	return f;
}

/* ------------------------------------------------------------------ */
/* simulated memory                                                     */

static const uintptr_t MM = 0x100000000000ULL, MMSZ = 64ULL << 30;
static const uintptr_t HP = 0x180000000000ULL, HPSZ = 4ULL << 30;
/* blocks too large for byte-wise shadow memory: reserved address space, touched sparsely */
static const uintptr_t GP = 0x1c0000000000ULL, GPSZ = 512ULL << 30;
static uintptr_t gp_next;
struct Giant { uintptr_t a; size_t n; bool live; };
static std::vector<Giant> giants;
static std::map<uintptr_t, uintptr_t> gfence;	/* fenced ranges of giant blocks (asan flavour) */
static bool giant_fenced(uintptr_t a) { auto i = gfence.upper_bound(a); return i != gfence.begin() && std::prev(i)->second > a; }
static void giant_unfence(uintptr_t b, uintptr_t e) {
	auto i = gfence.lower_bound(b);
	if (i != gfence.begin() && std::prev(i)->second > b) i = std::prev(i);
	while (i != gfence.end() && i->first < e) {
		uintptr_t x = i->first, y = i->second;
		i = gfence.erase(i);
		if (x < b) gfence[x] = b;
		if (y > e) gfence[e] = y;
	}
}
static void giant_fence(uintptr_t b, uintptr_t e) { giant_unfence(b, e); if (b < e) gfence[b] = e; }
enum { PG = 4096 };
enum { P_MAP = 16, P_PRIV = 1, P_SHARED = 2, P_DD = 4, P_W = 8, P_OWN = 32 };
static uint8_t *pg;		/* page state, one byte per 4K page of MM */
static uint8_t *hs;		/* heap state, one byte per byte of HP */
enum { H_NONE = 0, H_OK = 1, H_FREED = 2, H_FENCE = 3 };
struct Block { size_t n; bool live, lib; };
static std::unordered_map<uintptr_t, Block> blocks;
static std::map<uintptr_t, size_t> maps;	/* disjoint mapped ranges */
static uintptr_t hp_next; static size_t heap_live, heap_blocks, mapped_bytes;
static uint64_t mmap_calls, mmap_failed, malloc_calls, malloc_failed;
static std::map<size_t, std::vector<uintptr_t>> hp_freed;	/* freed blocks of the library by size */
static std::vector<std::pair<uintptr_t, size_t>> mm_used;	/* everything mapped in this run */
static uint8_t *pgt;		/* page has been handed out before: may be dirty */
static size_t pgt_n;

size_t os_page() { return (size_t)CASE->get("page", 4096); }
size_t os_heap_live() { return heap_live; }
size_t os_heap_blocks() { return heap_blocks; }
size_t os_mapped() { return mapped_bytes; }
size_t os_mapped_count() { return maps.size(); }
std::vector<std::pair<uintptr_t, size_t>> os_maps() { return {maps.begin(), maps.end()}; }
uint64_t os_mmap_calls() { return mmap_calls; }
uint64_t os_mmap_failed() { return mmap_failed; }
uint64_t os_malloc_failed() { return malloc_failed; }

static void mem_init() {
	void *a = mmap((void *)MM, MMSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void *b = mmap((void *)HP, HPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	pg = (uint8_t *)mmap(NULL, MMSZ / PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	pgt = (uint8_t *)mmap(NULL, MMSZ / PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	hs = (uint8_t *)mmap(NULL, HPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	void *g = mmap((void *)GP, GPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (a != (void *)MM || b != (void *)HP || g != (void *)GP || pg == MAP_FAILED || hs == MAP_FAILED) {
		fprintf(stderr, "cannot reserve simulated memory\n"); _exit(2);
	}
}
static void mem_reset() {
	if (!mm_used.empty()) {
		for (auto &u : mm_used) memset(pg + (u.first - MM) / PG, 0, u.second / PG);
		if (pgt_n > (768 << 20) / PG) {
			madvise((void *)MM, MMSZ, MADV_DONTNEED);
			madvise(pgt, MMSZ / PG, MADV_DONTNEED);
			pgt_n = 0;
		}
	}
	mm_used.clear(); hp_freed.clear();
	if (hp_next > HP + (48 << 20)) {
		madvise((void *)HP, hp_next - HP, MADV_DONTNEED);
		madvise(hs, hp_next - HP, MADV_DONTNEED);
	} else if (hp_next) {
		memset(hs, 0, hp_next - HP + 64);
	}
	if (gp_next) madvise((void *)GP, gp_next - GP, MADV_DONTNEED);
	gp_next = 0; giants.clear(); gfence.clear();
	hp_next = HP + 4096; heap_live = heap_blocks = mapped_bytes = 0;
	mmap_calls = mmap_failed = malloc_calls = malloc_failed = 0;
	blocks.clear(); maps.clear();
}

static void check_heap(uintptr_t a, size_t n, bool w, const char *what) {
	uint8_t *s = hs + (a - HP);
	for (size_t i = 0; i < n; i++)
		if (s[i] != H_OK) {
			viol("*", s[i] == H_FREED ? "use-after-free" : s[i] == H_FENCE ? "fenced-access" : "heap-out-of-bounds",
			     "library %s of %zu bytes at heap offset %#zx (byte %zu): %s memory",
			     w ? "write" : what, n, (size_t)(a - HP), i,
			     s[i] == H_FREED ? "freed" : s[i] == H_FENCE ? "fenced" : "unallocated");
			return;
		}
}
static void check_mm(uintptr_t a, size_t n, bool w, const char *what) {
	if (a + n > MM + MMSZ || n > MMSZ) {
		viol("*", "wild-access", "library %s of %zu bytes at %#zx", what, n, (size_t)a);
		return;
	}
	for (uintptr_t p = (a - MM) / PG; p <= (a + n - 1 - MM) / PG; p++) {
		if (!(pg[p] & P_MAP)) {
			viol("*", "unmapped-access", "library %s of %zu bytes at mapping offset %#zx: not mapped",
			     w ? "write" : what, n, (size_t)(a - MM));
			return;
		}
		if (w && !(pg[p] & P_W)) {
			viol("*", "readonly-write", "library write of %zu bytes to read-only memory at offset %#zx",
			     n, (size_t)(a - MM));
			return;
		}
		if (w && (pg[p] & P_OWN)) {
			viol(owned_prop, "write-to-held-memory", "library wrote %zu bytes at mapping offset %#zx into memory held by a user",
			     n, (size_t)(a - MM));
			return;
		}
	}
}
static void check_giant(uintptr_t a, size_t n, bool w) {
	for (auto &g : giants)
		if (a >= g.a && a + n <= g.a + g.n && a + n >= a) {
			if (!g.live) viol("*", "use-after-free", "library %s of %zu bytes in a freed block of %zu bytes", w ? "write" : "read", n, g.n);
			if (!gfence.empty()) {
				auto i = gfence.lower_bound(a);
				if (giant_fenced(a) || (i != gfence.end() && i->first < a + n)) viol("*", "fenced-access", "library %s of %zu bytes in a fenced part of a block of %zu bytes", w ? "write" : "read", n, g.n);
			}
			return;
		}
	viol("*", "heap-out-of-bounds", "library %s of %zu bytes at %#zx is outside of any block", w ? "write" : "read", n, (size_t)a);
}
static inline void check_access(uintptr_t a, size_t n, bool w) {
	if (a - MM < MMSZ) {
		uint8_t f = pg[(a - MM) / PG];
		if ((f & (P_MAP | P_W | P_OWN)) != (P_MAP | P_W) || (a & (PG - 1)) + n > PG)
			check_mm(a, n, w, "read");
	} else if (a - HP < HPSZ) {
		uint8_t *s = hs + (a - HP);
		if (n == 8) {
			uint64_t v; memcpy(&v, s, 8);
			if (v == 0x0101010101010101ULL) return;
		} else if (n == 4) {
			uint32_t v; memcpy(&v, s, 4);
			if (v == 0x01010101U) return;
		}
		check_heap(a, n, w, "read");
	} else if (a - GP < GPSZ) {
		check_giant(a, n, w);
	}
}

static void *heap_get(size_t n, size_t align, bool lib) {
	if (align < 16) align = 16;
	if (n > (32ULL << 20)) {
		if (n > (64ULL << 30)) return nullptr;
		uintptr_t a = ((gp_next ? gp_next : GP) + 4096 + align - 1) & ~(align - 1);
		if (align == 16 && (a & 31) == 0) a += 16;
		if (a + n + 8192 > GP + GPSZ) return nullptr;
		gp_next = (a + n + 8191) & ~(uintptr_t)4095;
		giants.push_back(Giant{a, n, true});
		blocks[a] = Block{n, true, lib};
		if (lib) { heap_live += n; heap_blocks++; }
		return (void *)a;
	}
	if (lib && align == 16 && nthreads() == 1 && CASE->get("reuse")) {	/* like most allocators: what was freed last is handed out first */
		auto f = hp_freed.find(n);
		if (f != hp_freed.end() && !f->second.empty()) {
			uintptr_t a = f->second.back(); f->second.pop_back();
			memset(hs + (a - HP), H_OK, n);
			memset((void *)a, 0xa5, n <= 65536 ? n : 4096);
			blocks[a].live = true;
			heap_live += n; heap_blocks++;
			return (void *)a;
		}
	}
	uintptr_t a = hp_next + 32;
	a = (a + align - 1) & ~(align - 1);
	if (lib && align == 16 && (a & 31) == 0) a += 16;	/* no more alignment than asked for */
	uintptr_t e = a + (n ? n : 1) + 32;
	e = (e + 15) & ~(uintptr_t)15;
	if (e > HP + HPSZ) return nullptr;
	hp_next = e;
	memset(hs + (a - HP), H_OK, n);
	size_t g = n <= 65536 ? n : 4096;
	memset((void *)a, 0xa5, g);
	if (g < n) memset((void *)(a + n - 4096), 0xa5, 4096);
	blocks[a] = Block{n, true, lib};
	if (lib) { heap_live += n; heap_blocks++; }
	return (void *)a;
}
static bool heap_put(void *p, bool lib) {
	auto i = blocks.find((uintptr_t)p);
	if (i == blocks.end() || !i->second.live || i->second.lib != lib) {
		viol("*", i == blocks.end() || i->second.live ? "bad-free" : "double-free",
		     "free of %p which is not a live block of the library", p);
		return false;
	}
	i->second.live = false;
	if ((uintptr_t)p - GP < GPSZ) {
		for (auto &g : giants) if (g.a == (uintptr_t)p) g.live = false;
		if (lib) { heap_live -= i->second.n; heap_blocks--; }
		return true;
	}
	if (lib) hp_freed[i->second.n].push_back((uintptr_t)p);
	memset(hs + ((uintptr_t)p - HP), H_FREED, i->second.n);
	size_t n = i->second.n;
	memset(p, 0xdb, n <= 65536 ? n : 4096);
	if (lib) { heap_live -= n; heap_blocks--; }
	return true;
}
void *os_alloc(size_t n, size_t align) { return heap_get(n, align, false); }
void os_release(void *p) { heap_put(p, false); }
size_t os_block_size(const void *p) {
	auto i = blocks.find((uintptr_t)p);
	return i != blocks.end() && i->second.live ? i->second.n : 0;
}
uintptr_t os_block_of(const void *p, size_t *n) {
	uintptr_t a = (uintptr_t)p;
	for (auto &b : blocks)
		if (b.second.live && a >= b.first && a < b.first + b.second.n) { *n = b.second.n; return b.first; }
	return 0;
}
bool os_poisoned(const void *p) {
	uintptr_t a = (uintptr_t)p;
	if (a - HP < HPSZ) return hs[a - HP] != H_OK;
	if (a - MM < MMSZ) return !(pg[(a - MM) / PG] & P_MAP);
	if (a - GP < GPSZ) { for (auto &g : giants) if (a >= g.a && a < g.a + g.n) return !g.live || giant_fenced(a); return true; }
	return false;
}
bool os_is_mapped(const void *p, size_t n) {
	uintptr_t a = (uintptr_t)p;
	if (n == 0) n = 1;
	if (a - MM < MMSZ) {
		if (a + n > MM + MMSZ || a + n < a) return false;
		for (uintptr_t q = (a - MM) / PG; q <= (a + n - 1 - MM) / PG; q++)
			if ((pg[q] & (P_MAP | P_W)) != (P_MAP | P_W)) return false;
		return true;
	}
	if (a - HP < HPSZ) {
		if (a + n > HP + HPSZ || a + n < a) return false;
		uint8_t *s = hs + (a - HP);
		if (n > 64) {
			if (s[0] != H_OK || memcmp(s, s + 1, n - 1)) return false;
			return true;
		}
		for (size_t i = 0; i < n; i++) if (s[i] != H_OK) return false;
		return true;
	}
	if (a - GP < GPSZ)
		for (auto &g : giants) if (a >= g.a && a + n <= g.a + g.n && a + n >= a) return g.live;
	return false;
}
bool os_in_map(const void *p) { return (uintptr_t)p - MM < MMSZ; }
bool os_flag_at(const void *p, int what) { return (pg[((uintptr_t)p - MM) / PG] & what) == what; }
bool os_all_pages(const void *p, size_t n, int what) {
	uintptr_t a = (uintptr_t)p;
	for (uintptr_t q = (a - MM) / PG; q <= (a + n - 1 - MM) / PG; q++)
		if ((pg[q] & what) != what) return false;
	return true;
}
bool os_no_pages(const void *p, size_t n, int what) {
	uintptr_t a = (uintptr_t)p;
	for (uintptr_t q = (a - MM) / PG; q <= (a + n - 1 - MM) / PG; q++)
		if (pg[q] & what) return false;
	return true;
}
void os_protect_owned(const void *p, size_t n, bool on) {
	uintptr_t a = (uintptr_t)p;
	if (a - MM >= MMSZ) return;
	for (uintptr_t q = (a - MM) / PG; q <= (a + n - 1 - MM) / PG; q++)
		pg[q] = on ? pg[q] | P_OWN : pg[q] & ~P_OWN;
}

/* mapping placement */
static bool range_free(uintptr_t a, size_t n) {
	auto i = maps.lower_bound(a);
	if (i != maps.end() && i->first < a + n) return false;
	if (i != maps.begin()) { --i; if (i->first + i->second > a) return false; }
	return a >= MM && a + n <= MM + MMSZ;
}
static uintptr_t mm_place(size_t n) {
	long mode = CASE->get("mm_mode");
	Rng r(mix(CASE->get("salt"), mmap_calls));
	size_t page = os_page();
	uintptr_t top = MM + (1ULL << 30) + (uintptr_t)CASE->get("mm_off") * page;
	size_t big = 8 << 20;
	if (n > (64u << 20)) top = MM + (48ULL << 30) + (uintptr_t)CASE->get("mm_off") * page;
	for (int k = 0; k < 64; k++) {
		uintptr_t a;
		switch (mode) {
		case 1: a = top - n - r.u((48 << 20) / page) * page; break;
		case 2: a = ((top - n - r.u((48 << 20) / big) * big) & ~(uintptr_t)(big - 1)) + page * (1 + r.u(15)); break;
		case 3: a = (top - n - r.u((48 << 20) / big) * big) & ~(uintptr_t)(big - 1); break;
		case 4: a = r.p(0.5) ? top - n - r.u((48 << 20) / page) * page
			  : (top - n - r.u((48 << 20) / big) * big) & ~(uintptr_t)(big - 1); break;
		case 5:	/* far apart, and often equal in the low 31 or 32 bits */
			a = ((top - n - (r.u(3) + 1) * big) & ~(uintptr_t)(big - 1)) + (r.u(20) << 31) + (k > 20 ? r.u(64) * page : 0);
			if (k < 12 && !maps.empty() && r.p(0.5)) {
				auto i = maps.begin(); std::advance(i, r.u(maps.size()));
				a = i->first + (1ULL << r.r(31, 35)) * (r.p(0.5) ? 1 : -1);
			}
			break;
		default: k = 64; continue;
		}
		a &= ~(uintptr_t)(page - 1);
		if (range_free(a, n)) return a;
	}
	/* like Linux: highest gap below the top that fits */
	uintptr_t hi = top & ~(uintptr_t)(page - 1);
	for (auto i = maps.rbegin(); ; ++i) {
		while (i != maps.rend() && i->first >= top) ++i;
		uintptr_t lo = i == maps.rend() ? MM : i->first + i->second;
		lo = (lo + page - 1) & ~(uintptr_t)(page - 1);
		if (hi >= lo && hi - lo >= n) return hi - n;
		if (i == maps.rend()) return 0;
		hi = i->first;
	}
}

/* contents */
uint64_t pat(uint64_t tag, size_t w) { return mix(tag, w) | 1; }
template <class F> static void walk(size_t n, F f) {
	size_t words = n / 8;
	if (n <= 4096) {
		for (size_t i = 0; i < words; i++) f(i * 8, 8);
	} else {
		for (size_t i = 0; i < 32; i++) f(i * 8, 8);
		size_t step = n <= (64u << 20) ? 61 : words / 1000;
		for (size_t i = 32; i < words - 32; i += step) f(i * 8, 8);
		for (size_t i = words - 32; i < words; i++) f(i * 8, 8);
	}
	if (n & 7) f(words * 8, n & 7);
}
void fill(void *p, size_t n, uint64_t tag) {
	char *c = (char *)p;
	walk(n, [&](size_t o, size_t k) { uint64_t v = pat(tag, o / 8); memcpy(c + o, &v, k); });
}
long check(const void *p, size_t n, uint64_t tag) {
	const char *c = (const char *)p; long bad = -1;
	walk(n, [&](size_t o, size_t k) {
		uint64_t v = pat(tag, o / 8);
		if (bad < 0 && memcmp(c + o, &v, k)) bad = (long)o;
	});
	return bad;
}

Live &Tracker::add(void *p, size_t n, size_t align, long x, bool dofill) {
	uintptr_t a = (uintptr_t)p;
	if (align && a % align)
		viol(props, "misaligned", "%s at %p of %zu bytes is not aligned to %zu", what, p, n, align);
	if (!os_is_mapped(p, n))
		viol(props, "not-backed", "%s at %p of %zu bytes is not entirely writable memory", what, p, n);
	auto i = m.lower_bound(a);
	if (i != m.end() && i->first < a + (n ? n : 1))
		viol(props, "overlap", "%s at %p of %zu bytes overlaps live %s at %p of %zu bytes", what, p, n, what, i->second.p, i->second.n);
	if (i != m.begin()) {
		auto j = i; --j;
		if (j->first + j->second.n > a)
			viol(props, "overlap", "%s at %p of %zu bytes overlaps live %s at %p of %zu bytes", what, p, n, what, j->second.p, j->second.n);
	}
	Live l{(char *)p, n, mix(next++, 77), x};
	if (dofill) fill(p, n, l.tag);
	Live &r = m[a]; r = l;
	bytes += n;
	return r;
}
void Tracker::verify(const Live &l) {
	long b = check(l.p, l.n, l.tag);
	if (b >= 0)
		viol(props, "contents-changed", "%s at %p of %zu bytes changed at offset %ld while live", what, l.p, l.n, b);
}
void Tracker::verify_all() { for (auto &i : m) verify(i.second); }
void Tracker::forget(void *p) {
	auto i = m.find((uintptr_t)p);
	if (i == m.end()) return;
	bytes -= i->second.n; m.erase(i);
}
void Tracker::remove(void *p) {
	auto i = m.find((uintptr_t)p);
	if (i == m.end()) return;
	verify(i->second);
	bytes -= i->second.n; m.erase(i);
}
Live &Tracker::nth(size_t i) { auto it = m.begin(); std::advance(it, i % m.size()); return it->second; }

/* ------------------------------------------------------------------ */
/* linearizability (Wing & Gong with memoisation)                       */

bool Lin::check(std::vector<long> st, std::function<bool(std::vector<long> &, const HEv &)> apply, size_t budget) {
	gave_up = false;
	size_t n = h.size();
	if (n > 62) { gave_up = true; return true; }
	std::unordered_set<uint64_t> seen;
	size_t used = 0;
	uint64_t all = n == 62 ? (1ULL << 62) - 1 : (1ULL << n) - 1;
	std::function<bool(uint64_t, std::vector<long> &)> rec = [&](uint64_t done, std::vector<long> &s) -> bool {
		if (done == all) return true;
		uint64_t hh = done; for (long v : s) hh = mix(hh, (uint64_t)v); hh = mix(hh, s.size());
		if (!seen.insert(hh).second) return false;
		if (++used > budget) { gave_up = true; return true; }
		uint64_t minres = ~0ULL;
		for (size_t i = 0; i < n; i++) if (!(done >> i & 1)) minres = std::min(minres, h[i].res);
		for (size_t i = 0; i < n; i++) {
			if (done >> i & 1 || h[i].inv > minres) continue;
			std::vector<long> t = s;
			if (apply(t, h[i]) && rec(done | 1ULL << i, t)) return true;
		}
		return false;
	};
	return rec(0, st);
}
std::string Lin::text(std::function<std::string(const HEv &)> f) {
	std::string s; char b[64];
	for (auto &e : h) {
		snprintf(b, sizeof b, " {t%d [%llu,%llu] ", e.th, (unsigned long long)e.inv, (unsigned long long)e.res);
		s += b + f(e) + "}";
	}
	return s;
}

/* ------------------------------------------------------------------ */
/* running one case                                                     */

extern "C" char __start_simlib_data[] __attribute__((weak)), __stop_simlib_data[] __attribute__((weak));
extern "C" char __start_simlib_bss[] __attribute__((weak)), __stop_simlib_bss[] __attribute__((weak));
static std::vector<char> snap_data, snap_bss;

static int tls_cb(struct dl_phdr_info *info, size_t, void *) {
	for (int i = 0; i < info->dlpi_phnum; i++)
		if (info->dlpi_phdr[i].p_type == PT_TLS) {
			const ElfW(Phdr) &ph = info->dlpi_phdr[i];
			size_t al = ph.p_align ? ph.p_align : 1;
			tls_size = ph.p_memsz;
			size_t off = (ph.p_memsz + al - 1) / al * al;
			tls_base = (char *)__builtin_thread_pointer() - off;
			tls_init = (char *)calloc(1, tls_size);
			memcpy(tls_init, (char *)info->dlpi_addr + ph.p_vaddr, ph.p_filesz);
		}
	return 1;	/* main program only */
}
static void lib_snapshot() {
	if (__start_simlib_data) snap_data.assign(__start_simlib_data, __stop_simlib_data);
	if (__start_simlib_bss) snap_bss.assign(__start_simlib_bss, __stop_simlib_bss);
	dl_iterate_phdr(tls_cb, nullptr);
}
static void lib_restore() {
	if (!snap_data.empty()) memcpy(__start_simlib_data, snap_data.data(), snap_data.size());
	if (!snap_bss.empty()) memcpy(__start_simlib_bss, snap_bss.data(), snap_bss.size());
	if (tls_size) memcpy(tls_base, tls_init, tls_size);
}

struct Outcome { uint64_t hash, steps, sw_inside, faults[F_MAX]; bool nontrivial; };

static Outcome run_case(Case &c, bool record) {
	CASE = &c;
	mem_reset(); lib_restore();
	recording = record; par = false; tls_swap = false; faults_enabled = true;
	steps = 0; step_cap = c.get("huge") ? 200000000 : 30000000; run_hash = mix(c.seed * 0, 1); sw_inside = 0; nontrivial = false;
	memset(run_faults, 0, sizeof run_faults); memset(burst, 0, sizeof burst);
	solo_th = solo_left = 0; rec_sw.clear(); rec_ft.clear(); rep_sw.clear(); rep_ft.clear();
	if (!record) {
		for (auto &w : c.sw) rep_sw[kacc(w.th, w.op, w.acc)] = w;
		for (auto &f : c.ft) rep_ft.insert(kft(f.th, f.op, f.kind, f.nth));
	} else { c.sw.clear(); c.ft.clear(); }
	SR = Rng(mix(c.seed, 101)); FR = Rng(mix(c.seed, 202));
	NT = (int)c.get("threads", 1);
	if (NT > MAXTH) NT = MAXTH;
	sched_mode = NT < 2 ? 4 : (int)SR.u(5);
	if (NT > 1 && c.get("sched", -1) >= 0) sched_mode = (int)c.get("sched");
	sched_gap = SR.pick({2, 4, 8, 30, 100, 400});
	p_atomic = SR.pick({0.05, 0.3, 0.6}); p_bound = SR.pick({0.1, 0.5, 0.9});
	if (sched_mode == 1) sched_gap = 50;
	if (NT < 2) p_bound = 0;
	gap_left = gap_next();
	pct.clear(); pct_i = 0; pct_low = -1;
	if (sched_mode == 2) {
		uint64_t L = 1ULL << SR.r(4, 13);
		int d = SR.r(1, 4);
		if (c.get("pctlen")) L = c.get("pctlen");
		if (c.get("pctd")) d = (int)c.get("pctd");
		for (int i = 0; i < d; i++) pct.push_back(1 + SR.u(L));
		std::sort(pct.begin(), pct.end());
	}
	for (int t = 0; t <= NT; t++) {
		Thread &x = T[t];
		x.ops.clear(); x.pred = nullptr; x.stalled_until = 0; x.prio = (long)SR.u(1000);
		x.op = 0; x.acc = 0; x.nofault = 0; memset(x.fcnt, 0, sizeof x.fcnt); x.storm = 0; x.expect = nullptr;
		if (!x.tls) x.tls = (char *)calloc(1, tls_size + 1);
		if (tls_size) memcpy(x.tls, tls_init, tls_size);
		if (t == 0) continue;
		if (!x.lo) {
			char *m = (char *)mmap(NULL, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			mprotect(m, 4096, PROT_NONE);
			x.lo = m + 4096; x.hi = m + 4096 + STK;
		}
		void **sp = (void **)x.hi;
		*--sp = nullptr; *--sp = nullptr; *--sp = nullptr;	/* alignment */
		*--sp = (void *)fiber_main;
		for (int i = 0; i < 6; i++) *--sp = nullptr;
		x.sp = sp; x.st = ST_RUN;
	}
	for (auto &o : c.ops) if (o.th >= 1 && o.th <= NT) T[o.th].ops.push_back(o);
	hooks_seen = 0; hooks = 1; bulks = 0;
	struct itimerval tv = { {15, 0}, {15, 0} };
	setitimer(ITIMER_VIRTUAL, &tv, NULL);
	cur_th = 0; T[0].st = ST_RUN;
	SC = make_scenario(); SC->c = &c;
	/* stack of the main thread: treat as one huge range below the current frame */
	stk_hi = (uintptr_t)__builtin_frame_address(0) + (1 << 16); stk_lo = stk_hi - (4 << 20);
	T[0].lo = (char *)stk_lo; T[0].hi = (char *)stk_hi;
	enter_op(OP_SETUP);
	SC->setup();
	par = true;
	{
		int first = 1;
		if (record) { first = 1 + SR.u(NT); rec_sw.push_back(Sw{0, 0, 0, first, 0}); }
		else { auto i = rep_sw.find(kacc(0, 0, 0)); if (i != rep_sw.end() && i->second.to >= 1 && i->second.to <= NT) first = i->second.to; }
		if (sched_mode == 2 && record) { for (int t = 1; t <= NT; t++) if (T[t].prio > T[first].prio) first = t; rec_sw.back().to = first; }
		run_hash = mix(run_hash, first);
		go(first);
	}
	par = false;
	enter_op(OP_FINISH);
	faults_enabled = false;
	SC->finish();
	delete SC; SC = nullptr;
	if (record) { c.sw = rec_sw; c.ft = rec_ft; }
	tot_steps += steps;
	Outcome o; o.hash = mix(run_hash, steps); o.steps = steps; o.sw_inside = sw_inside;
	memcpy(o.faults, run_faults, sizeof run_faults); o.nontrivial = nontrivial;
	return o;
}

bool os_caught(std::function<void()> f) {
	jmp_buf jb; Thread &me = T[cur_th];
	if (setjmp(jb)) { me.expect = nullptr; return true; }
	me.expect = &jb;
	f();
	me.expect = nullptr;
	return false;
}

} /* namespace sim */

/* ------------------------------------------------------------------ */
/* runtime behind -fsanitize=thread                                     */

using namespace sim;
typedef uintptr_t up;
/* NB: the access itself is performed by the caller after the hook returns,
 * so for plain accesses the scheduling point precedes the access. */
#define HOOK(a, n, w) do { up A = (up)(a); if (A - stk_lo < stk_hi - stk_lo) return; \
	if (A - GP < GPSZ) bulk(); else point(0); \
	check_access(A, n, w); } while (0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define RW(n) \
void __tsan_read##n(void *a) { HOOK(a, n, false); } \
void __tsan_write##n(void *a) { HOOK(a, n, true); } \
void __tsan_unaligned_read##n(void *a) { HOOK(a, n, false); } \
void __tsan_unaligned_write##n(void *a) { HOOK(a, n, true); } \
void __tsan_volatile_read##n(void *a) { HOOK(a, n, false); } \
void __tsan_volatile_write##n(void *a) { HOOK(a, n, true); } \
void __tsan_unaligned_volatile_read##n(void *a) { HOOK(a, n, false); } \
void __tsan_unaligned_volatile_write##n(void *a) { HOOK(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range_hook(up a, size_t n, bool w) {
	if (n == 0 || a - stk_lo < stk_hi - stk_lo) return;
	point(0);
	if (a - MM < MMSZ) check_mm(a, n, w, "read");
	else if (a - HP < HPSZ) { if (a + n > HP + HPSZ) viol("*", "wild-access", "range of %zu bytes", n); else check_heap(a, n, w, "read"); }
	else if (a - GP < GPSZ) check_giant(a, n, w);
}
void __tsan_read_range(void *a, size_t n) { range_hook((up)a, n, false); }
void __tsan_write_range(void *a, size_t n) { range_hook((up)a, n, true); }
#define ATOM(sz, ty) \
ty __tsan_atomic##sz##_load(const volatile ty *p, int) { apoint((up)p, sizeof(ty), false); return *p; } \
void __tsan_atomic##sz##_store(volatile ty *p, ty v, int) { apoint((up)p, sizeof(ty), true); *p = v; } \
ty __tsan_atomic##sz##_exchange(volatile ty *p, ty v, int) { apoint((up)p, sizeof(ty), true); ty o = *p; *p = v; return o; } \
ty __tsan_atomic##sz##_fetch_add(volatile ty *p, ty v, int) { apoint((up)p, sizeof(ty), true); ty o = *p; *p = o + v; return o; } \
ty __tsan_atomic##sz##_fetch_sub(volatile ty *p, ty v, int) { apoint((up)p, sizeof(ty), true); ty o = *p; *p = o - v; return o; } \
ty __tsan_atomic##sz##_fetch_and(volatile ty *p, ty v, int) { apoint((up)p, sizeof(ty), true); ty o = *p; *p = o & v; return o; } \
ty __tsan_atomic##sz##_fetch_or(volatile ty *p, ty v, int) { apoint((up)p, sizeof(ty), true); ty o = *p; *p = o | v; return o; } \
ty __tsan_atomic##sz##_fetch_xor(volatile ty *p, ty v, int) { apoint((up)p, sizeof(ty), true); ty o = *p; *p = o ^ v; return o; } \
ty __tsan_atomic##sz##_fetch_nand(volatile ty *p, ty v, int) { apoint((up)p, sizeof(ty), true); ty o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##sz##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int, int) { \
	apoint((up)p, sizeof(ty), true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##sz##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int, int) { \
	apoint((up)p, sizeof(ty), true); \
	if (par && fault(F_CAS)) { *e = *p; return 0; } \
	if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
ty __tsan_atomic##sz##_compare_exchange_val(volatile ty *p, ty e, ty v, int, int) { \
	apoint((up)p, sizeof(ty), true); ty o = *p; if (o == e) *p = v; return o; }
static void apoint(up a, size_t n, bool w) { if (a - stk_lo >= stk_hi - stk_lo) { point(1); check_access(a, n, w); } }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
typedef unsigned __int128 u128;
ATOM(128, u128)
void __tsan_atomic_thread_fence(int) { point(1); }
void __tsan_atomic_signal_fence(int) {}

/* ---------------- address sanitizer interface (asan flavour) ---------------- */
static int gk(up g) { int k = 0; while (k < 8 && hs[g - HP + k] == H_OK) k++; return k == 8 ? 0 : k == 0 ? -1 : k; }
static void sk(up g, int k) {
	int n = k == 0 ? 8 : k < 0 ? 0 : k;
	for (int i = 0; i < 8; i++) hs[g - HP + i] = i < n ? H_OK : H_FENCE;
}
void __asan_poison_memory_region(void const volatile *p, size_t n) {
	up b = (up)p, e = b + n;
	if (n == 0) return;
	if (b - GP < GPSZ && e - GP <= GPSZ) {
		up eg = e & ~(up)7;
		if (eg != e) { if (!os_poisoned((void *)e)) e = eg; else e = eg + 8; }
		if (b < e) giant_fence(b, e);
		return;
	}
	if (b - HP >= HPSZ || e > HP + HPSZ) return;
	up bg = b & ~(up)7, eg = e & ~(up)7; int bo = b & 7, eo = e & 7;
	int bv = gk(bg), evl = gk(eg);
	if (bg == eg) {
		if (bv > 0 && bv <= eo) sk(bg, bo > 0 ? std::min(bv, bo) : -1);
		return;
	}
	if (bo > 0) { sk(bg, bv == 0 ? bo : bv < 0 ? -1 : std::min(bv, bo)); bg += 8; }
	if (eg > bg) memset(hs + (bg - HP), H_FENCE, eg - bg);
	if (evl > 0 && evl <= eo) sk(eg, -1);
}
void __asan_unpoison_memory_region(void const volatile *p, size_t n) {
	up b = (up)p, e = b + n;
	if (n == 0) return;
	if (b - GP < GPSZ && e - GP <= GPSZ) { giant_unfence(b & ~(up)7, e); return; }
	if (b - HP >= HPSZ || e > HP + HPSZ) return;
	up bg = b & ~(up)7, eg = e & ~(up)7; int bo = b & 7, eo = e & 7;
	int bv = gk(bg), evl = gk(eg);
	if (bg == eg) { if (bv != 0) sk(bg, std::max(bv, eo)); return; }
	if (bo > 0) { sk(bg, 0); bg += 8; }
	if (eg > bg) memset(hs + (bg - HP), H_OK, eg - bg);
	if (eo > 0 && evl != 0) sk(eg, std::max(evl, eo));
}
int __asan_address_is_poisoned(void const volatile *p) { return os_poisoned((const void *)p); }
void *__asan_region_is_poisoned(void *p, size_t n) {
	for (size_t i = 0; i < n; i++) if (os_poisoned((char *)p + i)) return (char *)p + i;
	return nullptr;
}

/* the callback for failed assertions of the library's ASAN flavour */
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn);
void h_assert_failed(const char *f, int l, const char *fn, const char *e) {
	if (T[cur_th].expect) longjmp(*T[cur_th].expect, 1);
	sim___assert_fail(e, f, (unsigned)l, fn);
}

/* callbacks of shims which a scenario may define */
__attribute__((weak)) void h_region_cb(void *, int, size_t, size_t) {}
__attribute__((weak)) void *h_ext_alloc(void *) { return nullptr; }
__attribute__((weak)) void h_ext_free(void *, void *) {}
/* ---------------- simulated libc entry points (library objects only) ---------------- */
void *sim_malloc(size_t n) {
	point(0); malloc_calls++;
	if (fault(F_MALLOC)) { malloc_failed++; T[cur_th].mafail++; errno = ENOMEM; return nullptr; }
	void *p = heap_get(n, 16, true);
	if (!p) { malloc_failed++; T[cur_th].mafail++; errno = ENOMEM; }
	return p;
}
void sim_free(void *p) { if (!p) return; point(0); heap_put(p, true); }
void *sim_calloc(size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) return nullptr;
	void *p = sim_malloc(n); if (p) memset(p, 0, n); return p;
}
void *sim_realloc(void *q, size_t n) {
	if (!q) return sim_malloc(n);
	size_t o = os_block_size(q);
	void *p = sim_malloc(n);
	if (!p) return nullptr;
	memcpy(p, q, std::min(o, n)); sim_free(q); return p;
}
void *sim_aligned_alloc(size_t al, size_t n) {
	point(0); malloc_calls++;
	if (fault(F_MALLOC)) { malloc_failed++; T[cur_th].mafail++; return nullptr; }
	return heap_get(n, al, true);
}
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
int sim_posix_memalign(void **p, size_t al, size_t n) { void *r = sim_aligned_alloc(al, n); if (!r) return ENOMEM; *p = r; return 0; }
static void mem_range(const void *p, size_t n, bool w) { range_hook((up)p, n, w); }
/* Giant copies: pages of the source that were never touched are zero and are not copied.
 * Direct result of the copy is the same; only the memory it takes differs. */
static bool giant_copy(char *d, const char *s, size_t n) {
	if (n <= (64u << 20) || (up)d - GP >= GPSZ || (up)s - GP >= GPSZ || d == s) return false;
	const size_t C = 4096;
	up s0 = (up)s & ~(up)(C - 1), d0 = (up)d & ~(up)(C - 1);
	size_t sn = ((up)s + n - s0 + C - 1) / C, dn = ((up)d + n - d0 + C - 1) / C;
	std::vector<unsigned char> sv(sn), dv(dn);
	if (mincore((void *)s0, sn * C, sv.data()) || mincore((void *)d0, dn * C, dv.data())) return false;
	auto one = [&](size_t i) {
		up a = std::max(s0 + i * C, (up)s), z = std::min(s0 + (i + 1) * C, (up)s + n);
		up da = (up)d + (a - (up)s), dz = da + (z - a);
		if (sv[i] & 1) { memmove((void *)da, (void *)a, z - a); for (up q = da & ~(up)(C - 1); q < dz; q += C) dv[(q - d0) / C] |= 1; return; }
		for (up q = da; q < dz; ) {
			up e = std::min((q & ~(up)(C - 1)) + C, dz);
			if (dv[(q - d0) / C] & 1) memset((void *)q, 0, e - q);
			q = e;
		}
	};
	/* overlapping ranges: pages touched on the way count as touched, like in one memmove */
	if (d < s) for (size_t i = 0; i < sn; i++) one(i);
	else for (size_t i = sn; i-- > 0; ) one(i);
	return true;
}
void *sim_memcpy(void *d, const void *s, size_t n) {
	if (n && d != s && (up)d < (up)s + n && (up)s < (up)d + n)
		viol("*", "overlapping-copy", "memcpy of %zu bytes between overlapping ranges %td bytes apart", n, (char *)d - (char *)s);
	mem_range(s, n, false); mem_range(d, n, true); return giant_copy((char *)d, (const char *)s, n) ? d : memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { mem_range(s, n, false); mem_range(d, n, true); return giant_copy((char *)d, (const char *)s, n) ? d : memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) {
	mem_range(d, n, true);
	if (n > (64u << 20) && (up)d - GP < GPSZ) {	/* giant blocks are touched sparsely */
		memset(d, c, 65536); memset((char *)d + n - 65536, c, 65536); return d;
	}
	return memset(d, c, n);
}
int sim_memcmp(const void *a, const void *b, size_t n) { mem_range(a, n, false); mem_range(b, n, false); return memcmp(a, b, n); }

void *sim_mmap(void *hint, size_t n, int prot, int flags, int, off_t) {
	(void)hint;
	point(0); mmap_calls++;
	if (n == 0) { errno = EINVAL; return MAP_FAILED; }
	size_t page = os_page(), len = (n + page - 1) & ~(page - 1);
	if (fault(F_MMAP)) { mmap_failed++; T[cur_th].mmfail++; errno = ENOMEM; return MAP_FAILED; }
	uintptr_t a = len > (16ULL << 30) || len < n ? 0 : mm_place(len);
	if (!a) { mmap_failed++; T[cur_th].mmfail++; errno = ENOMEM; return MAP_FAILED; }
	maps[a] = len; mapped_bytes += len;
	uint8_t f = P_MAP | ((flags & MAP_PRIVATE) ? P_PRIV : 0) | ((flags & MAP_SHARED) ? P_SHARED : 0) |
		((prot & PROT_WRITE) ? P_W : 0);
	memset(pg + (a - MM) / PG, f, len / PG);
	mm_used.push_back({a, len});
	if (len > (64 << 20)) madvise((void *)a, len, MADV_DONTNEED);
	for (size_t i = (a - MM) / PG; i < (a - MM + len) / PG; i++) {
		if (!pgt[i]) { pgt[i] = 1; pgt_n++; }
		else if (len <= (64 << 20)) memset((void *)(MM + i * PG), 0, PG);
	}
	logf("mmap(%zu) = +%#zx", n, (size_t)(a - MM));
	point(0);
	return (void *)a;
}
void *sim_mmap64(void *h, size_t n, int p, int f, int fd, off_t o) { return sim_mmap(h, n, p, f, fd, o); }
int sim_munmap(void *p, size_t n) {
	point(0);
	up a = (up)p; size_t page = os_page(), len = (n + page - 1) & ~(page - 1);
	logf("munmap(+%#zx, %zu)", (size_t)(a - MM), n);
	if (a % page || n == 0 || a - MM >= MMSZ || a + len > MM + MMSZ) {
		viol("*", "bad-munmap", "munmap(%p, %zu): invalid range", p, n);
		errno = EINVAL; return -1;
	}
	for (up q = a; q < a + len; q += PG) {
		uint8_t f = pg[(q - MM) / PG];
		if (!(f & P_MAP)) { viol("*", "bad-munmap", "munmap(%p, %zu): page %p is not mapped", p, n, (void *)q); return 0; }
		if (f & P_OWN) { viol("*", "bad-munmap", "munmap(%p, %zu): page %p is held by a user", p, n, (void *)q); return 0; }
	}
	memset(pg + (a - MM) / PG, 0, len / PG);
	mapped_bytes -= len;
	/* cut the range out of the mapping list */
	auto i = maps.upper_bound(a);
	if (i != maps.begin()) --i;
	while (i != maps.end() && i->first < a + len) {
		up s = i->first, e = s + i->second;
		if (e <= a) { ++i; continue; }
		i = maps.erase(i);
		if (s < a) maps[s] = a - s;
		if (e > a + len) maps[a + len] = e - (a + len);
		i = maps.upper_bound(a + len - 1);
	}
	point(0);
	return 0;
}
int sim_madvise(void *p, size_t n, int adv) {
	point(0);
	up a = (up)p; size_t page = os_page(), len = (n + page - 1) & ~(page - 1);
	if (fault(F_MADV)) { T[cur_th].mdfail++; errno = EAGAIN; return -1; }
	if (adv == MADV_DONTDUMP && CASE->get("nodontdump")) { errno = EINVAL; return -1; }	/* an old kernel */
	if (a % page || a - MM >= MMSZ || a + len > MM + MMSZ || len < n) { errno = EINVAL; return -1; }
	for (up q = a; q < a + len; q += PG)
		if (!(pg[(q - MM) / PG] & P_MAP)) { errno = ENOMEM; return -1; }
	for (up q = a; q < a + len; q += PG) {
		if (adv == MADV_DONTDUMP) pg[(q - MM) / PG] |= P_DD;
		else if (adv == MADV_DODUMP) pg[(q - MM) / PG] &= ~P_DD;
	}
	if (adv == MADV_DONTNEED || adv == MADV_REMOVE) memset(p, 0, len);
	return 0;
}
int sim_mprotect(void *p, size_t n, int prot) {
	point(0);
	up a = (up)p; size_t page = os_page(), len = (n + page - 1) & ~(page - 1);
	if (a % page || a - MM >= MMSZ || a + len > MM + MMSZ) { errno = EINVAL; return -1; }
	for (up q = a; q < a + len; q += PG) {
		if (!(pg[(q - MM) / PG] & P_MAP)) { errno = ENOMEM; return -1; }
		if (prot & PROT_WRITE) pg[(q - MM) / PG] |= P_W; else pg[(q - MM) / PG] &= ~P_W;
	}
	return 0;
}
void *sim_mremap(void *, size_t, size_t, int, ...) { errno = ENOMEM; return MAP_FAILED; }
long sim_sysconf(int n) { if (n == _SC_PAGESIZE) return CASE->get("nosysconf") && os_page() == 4096 ? (cover("sysconf_refused"), -1) : (long)os_page(); return sysconf(n); }
int sim_getpagesize(void) { return (int)os_page(); }
unsigned long sim_pthread_self(void) { return 0x7000000000UL + 0x1000UL * (unsigned)cur_th; }
int sim_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
void sim_abort(void) { viol("*", "abort", "the library called abort()"); _exit(3); }
void sim_exit(int rc) { viol("*", "exit", "the library called exit(%d)", rc); _exit(3); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
	const char *b = strrchr(f, '/');
	static char key[64];
	snprintf(key, sizeof key, "assert:%.50s", e);
	for (char *p = key; *p; p++) if (*p == ' ') *p = '_';
	viol("*", key, "assertion failed: %s (%s:%u %s)", e, b ? b + 1 : f, l, fn); _exit(3);
}
int sim_fprintf(FILE *, const char *, ...) { return 0; }
int sim_printf(const char *, ...) { return 0; }
int sim_fputs(const char *, FILE *) { return 0; }
size_t sim_fwrite(const void *, size_t, size_t n, FILE *) { return n; }
int sim_sched_yield(void) { yield_point(); return 0; }
int sim_usleep(unsigned) { yield_point(); return 0; }
int sim_nanosleep(const void *, void *) { yield_point(); return 0; }

/* locks: should the library ever use one it is scheduled like everything else */
static std::unordered_map<up, int> *locks;
static int lock_any(void *m) {
	if (!locks) locks = new std::unordered_map<up, int>;
	point(1);
	while ((*locks)[(up)m] != 0) {
		if (solo_th == cur_th)
			viol("C05", "blocked-by-stalled-thread", "the operation waits for a lock held by a stalled thread");
		wait_until([m] { return (*locks)[(up)m] == 0; });
	}
	(*locks)[(up)m] = cur_th + 1;
	return 0;
}
static int unlock_any(void *m) { (*locks)[(up)m] = 0; point(1); return 0; }
int sim_pthread_mutex_init(void *, const void *) { return 0; }
int sim_pthread_mutex_destroy(void *) { return 0; }
int sim_pthread_mutex_lock(void *m) { return lock_any(m); }
int sim_pthread_mutex_unlock(void *m) { return unlock_any(m); }
int sim_pthread_mutex_trylock(void *m) { point(1); if (locks && (*locks)[(up)m]) return EBUSY; return lock_any(m); }
int sim_pthread_spin_init(void *, int) { return 0; }
int sim_pthread_spin_destroy(void *) { return 0; }
int sim_pthread_spin_lock(void *m) { return lock_any(m); }
int sim_pthread_spin_unlock(void *m) { return unlock_any(m); }
int sim_pthread_rwlock_init(void *, const void *) { return 0; }
int sim_pthread_rwlock_destroy(void *) { return 0; }
int sim_pthread_rwlock_rdlock(void *m) { return lock_any(m); }	/* exclusive: a legal, if slow, implementation */
int sim_pthread_rwlock_wrlock(void *m) { return lock_any(m); }
int sim_pthread_rwlock_unlock(void *m) { return unlock_any(m); }
int sim_mtx_init(void *, int) { return 0; }
void sim_mtx_destroy(void *) { }
int sim_mtx_lock(void *m) { return lock_any(m); }
int sim_mtx_unlock(void *m) { return unlock_any(m); }
int sim_pthread_once(int *ctl, void (*fn)(void)) {
	point(1);
	if (*ctl == 0) { *ctl = 1; fn(); *ctl = 2; point(1); }
	while (*ctl != 2) {
		if (solo_th == cur_th)
			viol("C05", "blocked-by-stalled-thread", "the operation waits for an initialisation by a stalled thread");
		wait_until([ctl] { return *ctl == 2; });
	}
	return 0;
}
void sim_call_once(int *ctl, void (*fn)(void)) { sim_pthread_once(ctl, fn); }
}

/* ------------------------------------------------------------------ */
/* driver                                                               */

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void gen_case(Case &c, const std::string &prop, const char *variant, uint64_t seed) {
	c = Case(); c.prop = prop; c.scenario = scenario_name; c.variant = variant; c.seed = seed;
	Rng r(mix(seed, 7));
	c.set("salt", (long)(r.next() >> 2));
	c.set("mm_mode", r.p(0.12) ? 5 : r.u(5)); c.set("mm_off", r.u(1024));
	if (r.p(0.05)) c.set("nosysconf", 1);	/* the default page size is right, but has to be guessed */
	if (strcmp(variant, "asan") && r.p(0.25)) c.set("reuse", 1);
	CASE = &c;
	Scenario *s = make_scenario(); s->c = &c; s->gen(r); delete s;
}
static void write_file(const std::string &p, const std::string &s) {
	FILE *f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); _exit(2); }
	fwrite(s.data(), 1, s.size(), f); fclose(f);
}
static std::string jesc(const std::string &s) {
	std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c >= 32) o += c; } return o;
}

static int do_runs(const std::string &prop, const char *variant, uint64_t base, long start, long stride, long runs, double tmax, const std::string &out, long gate) {
	double t0 = wall(); long n = 0, nontriv = 0, gated = 0; uint64_t F[F_MAX] = {0}, swi = 0;
	std::vector<uint64_t> hashes; std::string samples;
	Case c; bool truncated = false; uint64_t longest = 0;
	on_viol = [&]() {
		write_file(out + ".case", case_text(*CASE));
		fprintf(stderr, "violation %s: %s\n", CASE->key.c_str(), CASE->msg.c_str());
	};
	for (long i = 0; i < runs; i++) {
		if ((i & 15) == 0 && wall() - t0 > tmax) { truncated = true; break; }
		gen_case(c, prop, variant, mix(base, start + i * stride));
		Outcome o = run_case(c, true);
		n++; swi += o.sw_inside; longest = std::max(longest, o.steps);
		for (int k = 0; k < F_MAX; k++) F[k] += o.faults[k];
		if (o.nontrivial) { nontriv++; hashes.push_back(o.hash); }
		if (i < 2) {
			char b[512]; std::string d;
			snprintf(b, sizeof b, "seed=%llu threads=%ld ops=%zu switches=%zu (inside operations: %llu) faults=%zu points=%llu",
				 (unsigned long long)c.seed, c.get("threads", 1), c.ops.size(), c.sw.size(), (unsigned long long)o.sw_inside, c.ft.size(), (unsigned long long)o.steps);
			samples += std::string(samples.empty() ? "" : ",") + "\"" + jesc(b) + "\"";
		}
		if (gate && i % gate == 0) {
			auto cov = COV; uint64_t ts = tot_steps;
			Outcome p = run_case(c, false);
			COV = cov; tot_steps = ts; gated++;
			if (p.hash != o.hash) {
				write_file(out + ".nondet", case_text(c));
				fprintf(stderr, "NONDETERMINISM seed %llu: replay of the recorded decisions differs\n", (unsigned long long)c.seed);
				return 2;
			}
		}
	}
	std::string j = "{"; char b[256];
	snprintf(b, sizeof b, "\"runs\":%ld,\"nontrivial\":%ld,\"gated\":%ld,\"truncated\":%s,\"points\":%llu,\"switches_inside\":%llu,\"longest\":%llu,\"wall\":%.3f,\"faults\":{",
		 n, nontriv, gated, truncated ? "true" : "false", (unsigned long long)tot_steps, (unsigned long long)swi, (unsigned long long)longest, wall() - t0);
	j += b;
	for (int k = 0; k < F_MAX; k++) { snprintf(b, sizeof b, "%s\"%s\":%llu", k ? "," : "", fault_name[k], (unsigned long long)F[k]); j += b; }
	j += "},\"cover\":{"; bool first = true;
	for (auto &k : COV) { snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); j += b; first = false; }
	j += "},\"samples\":[" + samples + "]}";
	write_file(out + ".json", j);
	FILE *f = fopen((out + ".hash").c_str(), "wb"); fwrite(hashes.data(), 8, hashes.size(), f); fclose(f);
	return 0;
}

struct Shared { int violated; char key[64]; char msg[4096]; uint64_t hash; };
static Shared *SH;
static bool try_case(const Case &c0, std::string *key = nullptr, uint64_t *hash = nullptr, std::string *msg = nullptr) {
	SH->violated = 0;
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		Case c = c0; c.key.clear();
		on_viol = [&]() {
			SH->violated = 1; snprintf(SH->key, sizeof SH->key, "%s", CASE->key.c_str());
			snprintf(SH->msg, sizeof SH->msg, "%s", CASE->msg.c_str()); SH->hash = CASE->hash;
		};
		run_case(c, false);
		_exit(0);
	}
	int st; waitpid(p, &st, 0);
	if (!SH->violated) return false;
	if (key) *key = SH->key;
	if (hash) *hash = SH->hash;
	if (msg) *msg = SH->msg;
	return true;
}
template <class V> static void ddmin(Case &c, V Case::*field, const std::string &key, double deadline) {
	size_t chunk = std::max<size_t>(1, (c.*field).size() / 2);
	for (;;) {
		bool any = false;
		for (size_t i = 0; i < (c.*field).size() && wall() < deadline;) {
			Case t = c; auto &v = t.*field;
			size_t n = std::min(chunk, v.size() - i);
			v.erase(v.begin() + i, v.begin() + i + n);
			std::string k;
			if (try_case(t, &k) && k == key) { c = t; any = true; }
			else i += n;
		}
		if (wall() >= deadline) return;
		if (chunk == 1) { if (!any) return; }
		else chunk /= 2;
	}
}
static int do_minimize(const char *in, const char *out, double secs) {
	Case c; if (!case_load(in, c)) return 2;
	ACTIVE = c.prop;
	SH = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::string key = c.key, k, msg; uint64_t h;
	if (!try_case(c, &k, &h, &msg) || k != key || h != c.hash) {
		fprintf(stderr, "NONDETERMINISM: recorded violation %s does not replay (got %s)\n", key.c_str(), k.c_str());
		return 2;
	}
	size_t o0 = c.ops.size(), s0 = c.sw.size(), f0 = c.ft.size();
	double dl = wall() + secs;
	for (int round = 0; round < 3 && wall() < dl; round++) {
		size_t before = c.ops.size() + c.sw.size() + c.ft.size();
		ddmin(c, &Case::ops, key, dl);
		ddmin(c, &Case::ft, key, dl);
		ddmin(c, &Case::sw, key, dl);
		if (c.ops.size() + c.sw.size() + c.ft.size() == before) break;
	}
	for (size_t i = 0; i < c.ops.size() && wall() < dl; i++)
		for (int f = 0; f < 3; f++) {
			Case t = c; long &v = f == 0 ? t.ops[i].a : f == 1 ? t.ops[i].b : t.ops[i].c;
			if (v == 0) continue;
			v = 0;
			if (try_case(t, &k) && k == key) c = t;
		}
	/* final outcome, twice */
	uint64_t h2;
	if (!try_case(c, &k, &h, &msg) || k != key || !try_case(c, &k, &h2) || h2 != h) return 2;
	c.key = key; c.hash = h; c.msg = msg;
	SC = make_scenario(); SC->c = &c;
	write_file(out, case_text(c));
	printf("minimised: ops %zu -> %zu, switches %zu -> %zu, faults %zu -> %zu\n", o0, c.ops.size(), s0, c.sw.size(), f0, c.ft.size());
	return 0;
}

static int do_replay(const char *in, bool v) {
	Case c; if (!case_load(in, c)) return 2;
	ACTIVE = c.prop; verbose = v;
	std::string key = c.key; uint64_t h = c.hash;
	on_viol = [&]() {
		printf("REPLAY violation key=%s hash=%016llx\n%s\n", CASE->key.c_str(), (unsigned long long)CASE->hash, CASE->msg.c_str());
		bool same = key.empty() || (key == CASE->key && (h == 0 || h == CASE->hash));
		printf("%s\n", same ? "REPLAY matches the recorded outcome" : "REPLAY differs from the recorded outcome");
		fflush(stdout);
		_exit(same ? 1 : 4);
	};
	Outcome o = run_case(c, false);
	printf("REPLAY no violation hash=%016llx\n", (unsigned long long)o.hash);
	return 0;
}

int main(int argc, char **argv) {
	std::map<std::string, std::string> o; std::string mode;
	std::vector<std::string> pos;
	for (int i = 1; i < argc; i++) {
		std::string s = argv[i];
		if (s.rfind("--", 0) == 0) {
			size_t e = s.find('=');
			if (e == std::string::npos) o[s.substr(2)] = "1"; else o[s.substr(2, e - 2)] = s.substr(e + 1);
		} else pos.push_back(s);
	}
	auto L = [&](const char *n, long d) { return o.count(n) ? atol(o[n].c_str()) : d; };
	setvbuf(stdout, NULL, _IOLBF, 0);
	mem_init(); lib_snapshot();
	static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, NULL);
	if (!pos.empty() && pos[0] == "replay") return do_replay(pos[1].c_str(), L("v", 0));
	if (!pos.empty() && pos[0] == "minimize") return do_minimize(pos[1].c_str(), pos[2].c_str(), L("secs", 20));
	if (!pos.empty() && pos[0] == "gen") {	/* record one seed, print the case */
		ACTIVE = o["prop"]; Case c; gen_case(c, ACTIVE, o["variant"].c_str(), strtoull(o["seed"].c_str(), 0, 0));
		on_viol = [&]() { fputs(case_text(*CASE).c_str(), stdout); fflush(stdout); };
		verbose = L("v", 0);
		run_case(c, true); SC = make_scenario(); SC->c = &c; fputs(case_text(c).c_str(), stdout); return 0;
	}
	ACTIVE = o["prop"];
	return do_runs(o["prop"], o["variant"].c_str(), strtoull(o.count("seed") ? o["seed"].c_str() : "1", 0, 0), L("start", 0), L("stride", 1),
		       L("runs", 1000), L("time", 60), o["out"], L("gate", 50));
}
