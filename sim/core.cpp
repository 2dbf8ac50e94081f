// Core of the simulator: baton-passing threads, decisions, vector-clock race detection on the compiler's
// ThreadSanitizer instrumentation, and a checking heap.
#include "core.hpp"

#include <cerrno>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <new>
#include <typeinfo>

#include <cxxabi.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(std::size_t);
void __libc_free(void *);
void *__libc_calloc(std::size_t, std::size_t);
void *__libc_realloc(void *, std::size_t);
void *__libc_memalign(std::size_t, std::size_t);
}

extern "C" long __real_syscall(long, ...);

namespace sim {

const char *const fault_names[F_NFAULTS] = {
	"preempt", "worker_stall", "task_steal", "nested_reenter", "late_worker", "callback_throw", "alloc_fail",
	"stream_eof", "stream_io_error", "stream_throw", "stream_short_io", "disk_full", "stream_corrupt_byte",
	"stream_delay", "source_destroyed"};

namespace {

// ------------------------------------------------------------------ layout of the simulated address space
constexpr std::uintptr_t ARENA = 0x200000000000ULL;
constexpr std::size_t ARENA_SIZE = 512ULL << 20;
constexpr std::uintptr_t SHADOW = 0x210000000000ULL; // one byte per arena byte
constexpr std::uintptr_t STACKS = 0x300000000000ULL;
constexpr std::size_t STACK_SIZE = 1024 * 1024;
constexpr std::uint8_t SH_NONE = 0, SH_OK = 1, SH_FREED = 2; // 0: never allocated or redzone

constexpr std::size_t REDZONE = 64;

enum State { ST_NONE, ST_RUN, ST_BLOCKED, ST_DONE };

using Clk = std::uint32_t;

struct Dtor {
	void (*fn)(void *);
	void *obj;
};

struct Thr {
	int id;
	State st;
	volatile int word;
	bool (*pred)(void *);
	void *parg;
	void (*fn)(void *);
	void *arg;
	pthread_t pt;
	Clk vc[MAXT];
	std::int64_t prio;
	bool background;
	Dtor dtors[32];
	int ndtors;
	ThreadLocalSlot slot;
};

struct Block {
	std::uintptr_t p;
	std::size_t size;
	std::uint64_t serial;
	std::uint8_t live;
	int tid;
};

constexpr std::size_t MAX_BLOCKS = 1 << 20;
constexpr std::size_t MAX_EVENTS = 1 << 22;

struct RaceEnt {
	std::uint32_t clk;
	std::uint16_t tid;
	std::uint8_t mask;
	std::uint8_t fl; // 1 write, 2 atomic
};
constexpr int NENT = 6;
struct RaceCell {
	std::uintptr_t g; // granule + 1 (0 = empty)
	RaceEnt e[NENT];
	std::uint32_t n;
	std::uint32_t ovf; // overflow list index + 1
};
constexpr std::size_t RACE_CELLS = 1 << 20;
struct RaceOvf {
	RaceEnt e[24];
	std::uint32_t n;
};
constexpr std::size_t MAX_OVF = 1 << 16;

struct SyncCell {
	std::uintptr_t a;
	std::uint32_t vc; // index + 1
};
constexpr std::size_t SYNC_CELLS = 1 << 19;
constexpr std::size_t MAX_SYNC_VC = 1 << 18;

struct MutexCell {
	std::uintptr_t a;
	int owner; // -1 free
	int depth;
};
constexpr std::size_t MAX_MUTEX = 4096;

struct RwCell {
	std::uintptr_t a;
	int writer, readers;
};
constexpr std::size_t MAX_RW = 256;

struct CondWait { // lives on the stack of the waiting thread
	void *c;
	CondWait *next;
	bool woken;
};

struct G {
	// hot
	bool active;
	std::int64_t countdown;
	Thr *cur;
	std::uint64_t steps;

	int paused;
	bool in_run;
	bool stop;
	RunResult *res;
	// decisions
	std::uint64_t rs[4];
	bool replaying;
	std::uint32_t *rq[K_NKINDS]; // replay queues
	std::size_t rn[K_NKINDS], ri[K_NKINDS];
	// swarm
	std::uint32_t sw_gap, sw_policy, sw_wsync, sw_victim;
	bool gap_is_preempt;
	// threads
	Thr *thr;
	int nthr;
	int team;
	volatile int done_word;
	// arena
	std::uintptr_t brk;
	Block *blk;
	std::size_t nblk;
	std::size_t nlive;
	std::uint64_t serial;
	std::uint32_t af_next, af_gap, af_left, af_fired;
	// race
	RaceCell *cells;
	RaceOvf *ovf;
	std::size_t novf;
	SyncCell *sync;
	Clk (*svc)[MAXT];
	std::size_t nsvc;
	MutexCell *mtx;
	RwCell *rw;
	std::size_t nrw;
	CondWait *conds;
	std::size_t nmtx;
	Event *ev;
	std::size_t nev;
	scenario_fn fn;
	std::size_t race_lost;
};
G g;

Scenario scen_tab[4096];
int scen_n = 0;
void (*run_start_hooks[8])();
int n_run_start = 0;
void (*scen_end_hooks[8])();
int n_scen_end = 0;
Options opts;

void *map(std::size_t size, std::uintptr_t at = 0) {
	void *p = mmap(reinterpret_cast<void *>(at), size, PROT_READ | PROT_WRITE,
	               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
	if (p == MAP_FAILED) {
		std::fprintf(stderr, "sim: mmap failed: %s\n", std::strerror(errno));
		_exit(3);
	}
	return p;
}

void futex_wait(volatile int *w, int val) {
	__real_syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, val, nullptr, nullptr, 0);
}

void futex_wake(volatile int *w) { __real_syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void park(volatile int *w) {
	while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
		futex_wait(w, 0);
	__atomic_store_n(w, 0, __ATOMIC_RELAXED);
}

void unpark(volatile int *w) {
	__atomic_store_n(w, 1, __ATOMIC_RELEASE);
	futex_wake(w);
}

inline void hmix(std::uint64_t v) {
	std::uint64_t h = g.res->hash;
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL;
	g.res->hash = h ^ (h >> 29);
}

inline void imix(std::uint64_t v) {
	std::uint64_t h = g.res->ihash;
	h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdULL;
	g.res->ihash = h ^ (h >> 31);
}

// ------------------------------------------------------------------ rng (xoshiro256**)
std::uint64_t splitmix(std::uint64_t &x) {
	std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

inline std::uint64_t rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

std::uint64_t rng() {
	std::uint64_t *s = g.rs;
	const std::uint64_t r = rotl(s[1] * 5, 7) * 9;
	const std::uint64_t t = s[1] << 17;
	s[2] ^= s[0];
	s[3] ^= s[1];
	s[1] ^= s[2];
	s[0] ^= s[3];
	s[2] ^= t;
	s[3] = rotl(s[3], 45);
	return r;
}

double rng_unit() { return static_cast<double>(rng() >> 11) * 0x1.0p-53; }

} // namespace

std::uint64_t rnd() { return rng(); }

std::uint32_t decide_as(Kind k, std::uint32_t n, std::uint32_t proposal) {
	std::uint32_t v;
	if (n == 0)
		n = 1;
	if (g.replaying) {
		v = g.ri[k] < g.rn[k] ? g.rq[k][g.ri[k]++] % n : 0;
	} else {
		v = proposal % n;
	}
	RunResult *r = g.res;
	if (r->ntrace < MAX_TRACE)
		r->trace[r->ntrace++] = TraceEnt{k, n, v};
	else
		r->trace_overflow = 1;
	hmix((std::uint64_t(k) << 56) ^ (std::uint64_t(n) << 28) ^ v);
	return v;
}

std::uint32_t decide(Kind k, std::uint32_t n) {
	const std::uint32_t p = g.replaying ? 0 : static_cast<std::uint32_t>(rng() >> 33);
	return decide_as(k, n, p);
}

std::uint32_t length(std::uint32_t typical, std::uint32_t big) {
	std::uint32_t p = 0;
	if (!g.replaying) {
		const std::uint32_t r = rng() % 64;
		if (r < 3)
			p = 0;
		else if (r < 8)
			p = 1;
		else if (r < 58 || big <= typical)
			p = 1 + rng() % (typical ? typical : 1);
		else
			p = typical + rng() % (big - typical + 1);
	}
	return decide_as(K_PARAM, (big > typical ? big : typical) + 1, p);
}

void fault_fired(Fault f) {
	g.res->faults[f]++;
}

void probe(const char *name) {
	RunResult *r = g.res;
	for (std::uint32_t i = 0; i < r->nprobes; i++)
		if (!std::strcmp(r->probes[i].name, name)) {
			r->probes[i].hits++;
			return;
		}
	if (r->nprobes < MAX_PROBES) {
		std::snprintf(r->probes[r->nprobes].name, sizeof r->probes[0].name, "%s", name);
		r->probes[r->nprobes++].hits = 1;
	}
}

void done() {
	g.active = false;
	RunResult *r = g.res;
	r->steps = g.steps;
	r->nthreads = g.nthr;
	r->nevents = g.nev;
	hmix(g.steps);
	r->status = 1;
	_exit(0);
}

void fail(const char *cls, const char *fmt, ...) {
	g.active = false;
	RunResult *r = g.res;
	r->status = 2;
	std::snprintf(r->cls, sizeof r->cls, "%s", cls);
	va_list ap;
	va_start(ap, fmt);
	std::vsnprintf(r->msg, sizeof r->msg, fmt, ap);
	va_end(ap);
	r->steps = g.steps;
	r->nthreads = g.nthr;
	r->nevents = g.nev;
	_exit(77);
}

void note(const char *fmt, ...) {
	RunResult *r = g.res;
	const std::size_t l = std::strlen(r->note);
	va_list ap;
	va_start(ap, fmt);
	std::vsnprintf(r->note + l, sizeof r->note - l, fmt, ap);
	va_end(ap);
}

void pause_begin() {
	g.paused++;
	g.active = false;
}

void pause_end() {
	if (--g.paused == 0)
		g.active = g.in_run;
}

int self() { return g.cur ? g.cur->id : -1; }
int team() { return g.team; }
void set_team(int n) { g.team = n < 1 ? 1 : n; }
ThreadLocalSlot &tls_of_self() { return g.cur->slot; }
bool stopping() { return g.stop; }
bool running() { return g.active; }
Options &options() { return opts; }
void mark_background() { g.cur->background = true; }

void at_run_start(void (*fn)()) { run_start_hooks[n_run_start++] = fn; }
void at_scenario_end(void (*fn)()) { scen_end_hooks[n_scen_end++] = fn; }

Reg::Reg(const char *name, scenario_fn fn, std::uint32_t weight) {
	if (scen_n < 4096)
		scen_tab[scen_n++] = Scenario{name, fn, weight};
}

int scenario_count() { return scen_n; }
const Scenario &scenario(int i) { return scen_tab[i]; }

void sort_scenarios() {
	for (int i = 1; i < scen_n; i++)
		for (int j = i; j > 0 && std::strcmp(scen_tab[j - 1].name, scen_tab[j].name) > 0; j--) {
			const Scenario t = scen_tab[j];
			scen_tab[j] = scen_tab[j - 1];
			scen_tab[j - 1] = t;
		}
}

// ------------------------------------------------------------------ scheduling
namespace {

void draw_gap() {
	std::uint32_t p = 0;
	if (!g.replaying && g.sw_gap) {
		static const double means[] = {0, 4, 16, 64, 256, 1024, 4096};
		double u = rng_unit();
		if (u < 1e-12)
			u = 1e-12;
		double x = -std::log(u) * means[g.sw_gap] + 1;
		p = x > 60000 ? 60000 : static_cast<std::uint32_t>(x);
	}
	const std::uint32_t v = decide_as(K_GAP, 1 << 16, p);
	g.gap_is_preempt = v != 0;
	g.countdown = v ? v : (1 << 16);
}

bool runnable(Thr &t) {
	if (t.st == ST_RUN)
		return true;
	return t.st == ST_BLOCKED && t.pred(t.parg);
}

void describe_threads(char *buf, std::size_t n) {
	std::size_t l = 0;
	buf[0] = 0;
	for (int i = 0; i < g.nthr && l + 24 < n; i++)
		if (g.thr[i].st != ST_DONE)
			l += std::snprintf(buf + l, n - l, "%sT%d:%s", l ? "," : "", i, g.thr[i].st == ST_BLOCKED ? "blocked" : "run");
}

void switch_to(Thr *t) {
	Thr *me = g.cur;
	if (t == me)
		return;
	g.res->switches++;
	hmix(0x5117C4ULL + (std::uint64_t(t->id) << 32) + g.steps);
	imix((std::uint64_t(t->id) << 40) + g.steps);
	g.cur = t;
	unpark(&t->word);
	if (me->st != ST_DONE)
		park(&me->word);
}

// the current thread gives up the processor; exclude_self: prefer another one
void reschedule(bool exclude_self) {
	if (g.steps > opts.max_steps)
		fail("livelock", "step budget of %llu exceeded", (unsigned long long)opts.max_steps);
	Thr *me = g.cur;
	int list[MAXT];
	int n = 0;
	bool victim_skipped = false;
	for (int i = 0; i < g.nthr; i++) {
		Thr &t = g.thr[i];
		if (&t == me && exclude_self)
			continue;
		if (runnable(t))
			list[n++] = i;
	}
	if (n == 0) {
		if (exclude_self && runnable(*me)) {
			draw_gap();
			return;
		}
		char buf[600];
		describe_threads(buf, sizeof buf);
		bool any = false;
		for (int i = 0; i < g.nthr; i++)
			any |= g.thr[i].st != ST_DONE;
		if (!any) { // everything finished
			unpark(&g.done_word);
			return;
		}
		fail("deadlock", "no runnable thread: %s", buf);
	}
	std::uint32_t p = 0;
	if (!g.replaying && n > 1) {
		switch (g.sw_policy) {
		case 0: p = rng() % n; break;
		case 1: { // priorities
			int best = 0;
			for (int i = 1; i < n; i++)
				if (g.thr[list[i]].prio > g.thr[list[best]].prio)
					best = i;
			p = best;
			if (rng() % 4 == 0)
				g.thr[list[best]].prio -= 1000 + static_cast<std::int64_t>(rng() % 1000);
			break;
		}
		case 2: { // starve one victim
			p = rng() % n;
			for (int k = 0; k < 8 && static_cast<std::uint32_t>(list[p]) == g.sw_victim; k++) {
				p = rng() % n;
				victim_skipped = true;
			}
			break;
		}
		default: { // round robin
			p = 0;
			while (p < static_cast<std::uint32_t>(n) && list[p] <= me->id)
				p++;
			p %= n;
		}
		}
	}
	const std::uint32_t w = decide_as(K_WHO, n, p);
	if (victim_skipped)
		fault_fired(F_STALL);
	Thr *t = &g.thr[list[w]];
	t->st = ST_RUN;
	draw_gap();
	if (t != me)
		switch_to(t);
}

void slow_preempt() {
	if (g.steps > opts.max_steps)
		fail("livelock", "step budget of %llu exceeded", (unsigned long long)opts.max_steps);
	g.active = false;
	if (g.gap_is_preempt) {
		fault_fired(F_PREEMPT);
		reschedule(true);
	} else {
		reschedule(true);
	}
	g.active = true;
}

inline void tick(std::int64_t w) {
	g.steps += w;
	g.countdown -= w;
	if (__builtin_expect(g.countdown <= 0, 0))
		slow_preempt();
}

} // namespace

void sync_point() {
	if (g.active)
		tick(g.sw_wsync);
}

void step(std::uint32_t w) {
	if (g.active)
		tick(w);
}

void yield() {
	if (!g.in_run)
		return;
	const bool a = g.active;
	g.active = false;
	g.steps += 1;
	reschedule(true);
	g.active = a;
}

void wait_until(bool (*pred)(void *), void *arg) {
	const bool a = g.active;
	g.active = false;
	g.steps += 1;
	if (!pred(arg)) {
		Thr *me = g.cur;
		me->pred = pred;
		me->parg = arg;
		me->st = ST_BLOCKED;
		reschedule(false);
		me->st = ST_RUN;
	}
	g.active = a;
}

// ------------------------------------------------------------------ happens-before
namespace {

Clk *sync_vc(std::uintptr_t a, bool create) {
	std::size_t i = ((a >> 3) ^ (a >> 20)) & (SYNC_CELLS - 1);
	for (;;) {
		SyncCell &c = g.sync[i];
		if (c.a == a)
			return g.svc[c.vc - 1];
		if (c.a == 0) {
			if (!create)
				return nullptr;
			if (g.nsvc >= MAX_SYNC_VC - 1)
				fail("limit", "too many synchronisation objects");
			c.a = a;
			c.vc = static_cast<std::uint32_t>(++g.nsvc);
			return g.svc[c.vc - 1];
		}
		i = (i + 1) & (SYNC_CELLS - 1);
	}
}

inline void vc_join(Clk *a, const Clk *b) {
	for (int i = 0; i < g.nthr; i++)
		if (b[i] > a[i])
			a[i] = b[i];
}

} // namespace

void hb_release(const void *p) {
	Thr *t = g.cur;
	vc_join(sync_vc(reinterpret_cast<std::uintptr_t>(p), true), t->vc);
	t->vc[t->id]++;
}

void hb_acquire(const void *p) {
	if (Clk *c = sync_vc(reinterpret_cast<std::uintptr_t>(p), false))
		vc_join(g.cur->vc, c);
}

// ------------------------------------------------------------------ access checking
namespace {

const Block *find_block(std::uintptr_t a) {
	// blocks are in increasing address order
	std::size_t lo = 0, hi = g.nblk;
	while (lo < hi) {
		const std::size_t m = (lo + hi) / 2;
		if (g.blk[m].p <= a)
			lo = m + 1;
		else
			hi = m;
	}
	return lo ? &g.blk[lo - 1] : nullptr;
}

void describe_addr(std::uintptr_t a, char *buf, std::size_t n) {
	if (a >= ARENA && a < ARENA + ARENA_SIZE) {
		const Block *b = find_block(a);
		if (b)
			std::snprintf(buf, n, "heap block #%llu (size %zu, %s) offset %lld", (unsigned long long)b->serial, b->size,
			              b->live ? "live" : "freed", (long long)(a - b->p));
		else
			std::snprintf(buf, n, "heap before the first block");
	} else if (a >= STACKS && a < STACKS + STACK_SIZE * MAXT) {
		std::snprintf(buf, n, "stack of thread %d", int((a - STACKS) / STACK_SIZE));
	} else {
		std::snprintf(buf, n, "static data");
	}
}

[[noreturn]] void report_race(std::uintptr_t a, unsigned size, bool w, const RaceEnt &e) {
	g.active = false;
	char d[160];
	describe_addr(a, d, sizeof d);
	fail("data_race", "unsynchronised %s of %u bytes by thread %d conflicts with an earlier %s by thread %d at %s",
	     w ? "write" : "read", size, g.cur->id, (e.fl & 1) ? "write" : "read", e.tid, d);
}

[[noreturn]] void report_bad_access(std::uintptr_t a, std::size_t size, bool w) {
	g.active = false;
	char d[160];
	describe_addr(a, d, sizeof d);
	const Block *b = find_block(a);
	const bool freed = b && !b->live && a < b->p + b->size;
	fail(freed ? "use_after_free" : "out_of_bounds", "%s of %zu bytes by thread %d at %s", w ? "write" : "read", size,
	     g.cur->id, d);
}

inline void race_granule(std::uintptr_t gr, std::uint8_t mask, std::uint8_t fl, std::uintptr_t a, unsigned size) {
	// (gr) preserves locality so that neighbouring granules share pages of the table
	std::size_t i = (gr ^ (gr >> 22)) & (RACE_CELLS - 1);
	RaceCell *c;
	for (int probes = 0;; probes++) {
		c = &g.cells[i];
		if (c->g == gr + 1)
			break;
		if (c->g == 0) {
			c->g = gr + 1;
			break;
		}
		if (probes > 64) {
			g.race_lost++;
			return;
		}
		i = (i + 1) & (RACE_CELLS - 1);
	}
	Thr *t = g.cur;
	const std::uint16_t tid = static_cast<std::uint16_t>(t->id);
	const bool w = fl & 1;
	if (c->n == 1 && !c->ovf && c->e[0].tid == tid && c->e[0].mask == mask && c->e[0].fl == fl) {
		c->e[0].clk = t->vc[tid]; // the overwhelmingly common case: private data
		return;
	}
	RaceOvf *o = c->ovf ? &g.ovf[c->ovf - 1] : nullptr;
	const std::uint32_t total = c->n + (o ? o->n : 0);
	auto at = [&](std::uint32_t k) -> RaceEnt & { return k < c->n ? c->e[k] : o->e[k - c->n]; };
	for (std::uint32_t k = 0; k < total; k++) {
		const RaceEnt &e = at(k);
		if (e.tid == tid || !(e.mask & mask) || !((e.fl | fl) & 1) || (e.fl & fl & 2))
			continue;
		if (e.clk > t->vc[e.tid])
			report_race(a, size, w, e);
	}
	// drop what this access supersedes
	bool removed = false;
	for (std::uint32_t k = 0; k < total; k++) {
		RaceEnt &e = at(k);
		if (e.tid == tid) {
			if (w || !(e.fl & 1))
				if (!((fl & 2) && !(e.fl & 2))) // an atomic access does not supersede a plain one of the same thread
					e.mask &= ~mask;
		} else if (w && e.clk <= t->vc[e.tid]) {
			e.mask &= ~mask;
		}
		removed |= e.mask == 0;
	}
	if (removed) {
		std::uint32_t out = 0;
		for (std::uint32_t k = 0; k < total; k++)
			if (at(k).mask) {
				const RaceEnt e = at(k);
				if (out < static_cast<std::uint32_t>(NENT))
					c->e[out] = e;
				else
					o->e[out - NENT] = e;
				out++;
				// c->n must not change while iterating: positions < k only are overwritten
			}
		// entries are packed: first NENT inline
		// (when c->n < NENT there is no overflow list in use)
		c->n = out < static_cast<std::uint32_t>(NENT) ? out : NENT;
		if (o)
			o->n = out > static_cast<std::uint32_t>(NENT) ? out - NENT : 0;
	}
	const RaceEnt ne{t->vc[tid], tid, mask, fl};
	if (c->n < static_cast<std::uint32_t>(NENT)) {
		c->e[c->n++] = ne;
		return;
	}
	if (!o) {
		if (g.novf >= MAX_OVF - 1) {
			g.race_lost++;
			return;
		}
		c->ovf = static_cast<std::uint32_t>(++g.novf);
		o = &g.ovf[c->ovf - 1];
	}
	if (o->n < 24)
		o->e[o->n++] = ne;
	else
		g.race_lost++;
}

inline void check_shadow(std::uintptr_t a, std::size_t size, bool w) {
	if (a - ARENA < ARENA_SIZE) {
		const std::uint8_t *s = reinterpret_cast<const std::uint8_t *>(SHADOW + (a - ARENA));
		for (std::size_t i = 0; i < size; i++)
			if (s[i] != SH_OK)
				report_bad_access(a + i, size, w);
	}
}

inline void touch(std::uintptr_t a, std::size_t size, std::uint8_t fl) {
	check_shadow(a, size, fl & 1);
	std::uintptr_t x = a;
	const std::uintptr_t end = a + size;
	while (x < end) {
		const std::uintptr_t gr = x >> 3;
		const std::uintptr_t ge = (gr + 1) << 3;
		const std::uintptr_t e = end < ge ? end : ge;
		const unsigned lo = x & 7, hi = static_cast<unsigned>(e - (gr << 3));
		const std::uint8_t mask = static_cast<std::uint8_t>(((1u << hi) - 1u) & ~((1u << lo) - 1u));
		race_granule(gr, mask, fl, a, static_cast<unsigned>(size));
		x = e;
	}
}

inline void access(const void *p, std::size_t size, std::uint8_t fl) {
	if (__builtin_expect(!g.active, 0))
		return;
	// preempt first, then check: nothing happens between the check and the access itself
	tick(1);
	touch(reinterpret_cast<std::uintptr_t>(p), size, fl);
}

inline void atomic_access(const void *p, std::size_t size, bool write) {
	if (__builtin_expect(!g.active, 0))
		return;
	tick(g.sw_wsync);
	touch(reinterpret_cast<std::uintptr_t>(p), size, write ? 3 : 2);
	// conservative: every atomic operation both acquires and releases
	hb_acquire(p);
	hb_release(p);
}

} // namespace

// ------------------------------------------------------------------ heap
namespace {

void *arena_raw(std::size_t size, std::size_t align) {
	if (align < 16)
		align = 16;
	std::uintptr_t p = g.brk + REDZONE;
	p = (p + align - 1) / align * align;
	const std::uintptr_t end = p + size + REDZONE;
	if (size > ARENA_SIZE || end > ARENA + ARENA_SIZE || g.nblk >= MAX_BLOCKS - 1)
		return nullptr;
	// canaries around the block
	std::memset(reinterpret_cast<void *>(p - REDZONE), 0xC5, REDZONE);
	std::memset(reinterpret_cast<void *>(p), 0xBE, size);
	std::memset(reinterpret_cast<void *>(p + size), 0xC5, REDZONE);
	std::memset(reinterpret_cast<void *>(SHADOW + (p - ARENA)), SH_OK, size);
	g.brk = (end + 15) / 16 * 16;
	g.blk[g.nblk++] = Block{p, size, g.serial++, 1, g.cur ? g.cur->id : -1};
	g.nlive++;
	return reinterpret_cast<void *>(p);
}

void check_canary(const Block &b) {
	const unsigned char *lo = reinterpret_cast<const unsigned char *>(b.p - REDZONE);
	const unsigned char *hi = reinterpret_cast<const unsigned char *>(b.p + b.size);
	for (std::size_t i = 0; i < REDZONE; i++)
		if (lo[i] != 0xC5 || hi[i] != 0xC5)
			fail("out_of_bounds", "bytes around heap block #%llu (size %zu) were overwritten",
			     (unsigned long long)b.serial, b.size);
}

bool alloc_fault() {
	if (!g.af_left || !g.af_next)
		return false;
	if (--g.af_next)
		return false;
	g.af_next = g.af_gap ? g.af_gap : 1;
	g.af_left--;
	g.af_fired++;
	fault_fired(F_ALLOC);
	return true;
}

} // namespace

void *arena_alloc(std::size_t size, std::size_t align, bool may_fail) {
	if (may_fail && g.active) {
		tick(g.sw_wsync);
		if (alloc_fault())
			return nullptr;
	}
	return arena_raw(size, align);
}

void arena_free(void *p) {
	if (!p)
		return;
	if (g.active)
		tick(g.sw_wsync);
	const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
	Block *b = const_cast<Block *>(find_block(a));
	if (!b || b->p != a) {
		if (!g.res || !g.in_run)
			return;
		char d[160];
		describe_addr(a, d, sizeof d);
		fail("invalid_free", "free of an address that is not the start of a block: %s", d);
	}
	if (!b->live)
		fail("double_free", "block #%llu (size %zu) freed twice", (unsigned long long)b->serial, b->size);
	if (g.active && b->size)
		touch(a, b->size, 1);
	check_canary(*b);
	b->live = 0;
	g.nlive--;
	std::memset(reinterpret_cast<void *>(SHADOW + (b->p - ARENA)), SH_FREED, b->size);
	std::memset(p, 0xDD, b->size);
}

std::size_t live_blocks() { return g.nlive; }
std::uint64_t alloc_mark() { return g.serial; }

std::size_t live_blocks_since(std::uint64_t mark) {
	std::size_t n = 0;
	for (std::size_t i = g.nblk; i-- > 0 && g.blk[i].serial >= mark;)
		n += g.blk[i].live;
	return n;
}

void alloc_fault_plan(std::uint32_t first, std::uint32_t gap, std::uint32_t count) {
	g.af_next = first;
	g.af_gap = gap;
	g.af_left = first ? count : 0;
}

void alloc_fault_off() { g.af_left = 0; }
std::uint32_t alloc_faults_fired() { return g.af_fired; }

bool addr_live(const void *p, std::size_t n) {
	const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
	const Block *b = find_block(a);
	return b && b->live && a + n <= b->p + b->size;
}

void *buffer(std::size_t size, unsigned char fill) {
	void *p = arena_raw(size, 64);
	if (!p)
		fail("limit", "simulated heap exhausted");
	std::memset(p, fill, size);
	return p;
}

void buffer_free(void *p) {
	Pause pz;
	arena_free(p);
}

std::size_t buffer_capacity(void *p) {
	const Block *b = find_block(reinterpret_cast<std::uintptr_t>(p));
	return b ? b->size : 0;
}

// ------------------------------------------------------------------ history
void rec(std::uint32_t op, std::int64_t a, std::int64_t b, std::int64_t c, std::int64_t d, std::int64_t e,
         std::int64_t f) {
	if (g.nev >= MAX_EVENTS)
		fail("runaway", "more than %zu recorded events: the operation does not stop", (std::size_t)MAX_EVENTS);
	Event &x = g.ev[g.nev];
	x.seq = static_cast<std::uint32_t>(g.nev++);
	x.op = op;
	x.tid = self();
	x.v[0] = a, x.v[1] = b, x.v[2] = c, x.v[3] = d, x.v[4] = e, x.v[5] = f;
	hmix((std::uint64_t(op) << 48) ^ (std::uint64_t(x.tid) << 40) ^ std::uint64_t(a * 1000003 + b * 10007 + c * 101 + d * 11 + e * 3 + f));
	imix((std::uint64_t(x.tid) << 32) ^ std::uint64_t(a * 31 + b * 7 + c));
}

std::size_t events() { return g.nev; }
const Event &event(std::size_t i) { return g.ev[i]; }
void mix(std::uint64_t v) { hmix(v); }

// ------------------------------------------------------------------ thread life
namespace {

void run_tls_dtors(Thr *t) {
	while (t->ndtors > 0) {
		const Dtor d = t->dtors[--t->ndtors];
		d.fn(d.obj);
	}
}

void *thread_main(void *p) {
	Thr *t = static_cast<Thr *>(p);
	park(&t->word);
	g.active = g.in_run && g.paused == 0;
	t->fn(t->arg);
	run_tls_dtors(t);
	g.active = false;
	// everything this thread did happens before whoever joins it
	hb_release(t);
	t->st = ST_DONE;
	reschedule(false);
	return nullptr;
}

struct JoinArg {
	Thr *t;
};

bool join_pred(void *p) { return static_cast<Thr *>(p)->st == ST_DONE; }

bool all_done_pred(void *) {
	for (int i = 1; i < g.nthr; i++)
		if (g.thr[i].st != ST_DONE)
			return false;
	return true;
}

bool foreground_done_pred(void *) {
	for (int i = 1; i < g.nthr; i++)
		if (g.thr[i].st != ST_DONE && !g.thr[i].background)
			return false;
	return true;
}

Thr *new_thread(void (*fn)(void *), void *arg) {
	if (g.nthr >= MAXT)
		fail("limit", "too many simulated threads");
	Thr *t = &g.thr[g.nthr];
	t->id = g.nthr;
	t->st = ST_RUN;
	t->fn = fn;
	t->arg = arg;
	t->prio = g.replaying ? 0 : static_cast<std::int64_t>(rng() % 1000);
	g.nthr++;
	t->vc[t->id] = 1;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstack(&at, reinterpret_cast<void *>(STACKS + STACK_SIZE * t->id + 8192), STACK_SIZE - 8192);
	if (pthread_create(&t->pt, &at, thread_main, t)) {
		std::fprintf(stderr, "sim: pthread_create failed\n");
		_exit(3);
	}
	pthread_attr_destroy(&at);
	return t;
}

void main_thread(void *) {
	g.active = false;
	for (int i = 0; i < n_run_start; i++)
		run_start_hooks[i]();
	g.active = true;
	g.fn();
	// the same workload again with other parameters: whatever the first one left behind must not matter
	for (int rep = 0; rep < 2 && g.nthr < 40; rep++) {
		if (!decide_as(K_PARAM, 2, g.replaying ? 0 : rng() % 5 == 0))
			break;
		probe("repeated_workload");
		g.fn();
	}
	g.active = false;
	wait_until(foreground_done_pred, nullptr);
	for (int i = 0; i < n_scen_end; i++)
		scen_end_hooks[i]();
	g.stop = true;
	wait_until(all_done_pred, nullptr);
	run_tls_dtors(g.cur);
	for (std::size_t i = 0; i < g.nblk; i++)
		if (g.blk[i].live)
			check_canary(g.blk[i]);
	if (opts.leak_is_violation && g.nlive) {
		for (std::size_t i = 0; i < g.nblk; i++)
			if (g.blk[i].live)
				fail("leak", "heap block #%llu (size %zu, allocated by thread %d) still live at the end; %zu in total",
				     (unsigned long long)g.blk[i].serial, g.blk[i].size, g.blk[i].tid, g.nlive);
	}
}

void on_terminate() {
	g.active = false;
	char what[300] = "no active exception";
	if (const std::type_info *ti = abi::__cxa_current_exception_type()) {
		std::snprintf(what, sizeof what, "uncaught %s", ti->name());
		try {
			throw;
		} catch (const std::exception &e) {
			std::snprintf(what, sizeof what, "uncaught %s: %s", ti->name(), e.what());
		} catch (...) {
		}
	}
	fail("terminate", "std::terminate called (%s)", what);
}

} // namespace

int spawn(void (*fn)(void *), void *arg) {
	const bool a = g.active;
	g.active = false;
	Thr *me = g.cur;
	Thr *t = new_thread(fn, arg);
	vc_join(t->vc, me->vc);
	me->vc[me->id]++;
	const int id = t->id;
	g.active = a;
	sync_point();
	return id;
}

void join(int tid) {
	Thr *t = &g.thr[tid];
	wait_until(join_pred, t);
	hb_acquire(t);
}

void execute_run(RunResult *res, std::uint64_t seed, const TraceEnt *replay, std::size_t nreplay, int only_scen) {
	std::memset(static_cast<void *>(&g), 0, sizeof g);
	g.res = res;
	res->hash = 0x1234567;
	res->ihash = 0x7654321;
	std::uint64_t x = seed;
	for (auto &s : g.rs)
		s = splitmix(x);
	g.thr = static_cast<Thr *>(map(sizeof(Thr) * MAXT));
	for (int i = 0; i < MAXT; i++)
		new (&g.thr[i]) Thr{};
	map(ARENA_SIZE, ARENA);
	map(ARENA_SIZE, SHADOW);
	map(STACK_SIZE * MAXT, STACKS);
	g.blk = static_cast<Block *>(map(sizeof(Block) * MAX_BLOCKS));
	g.cells = static_cast<RaceCell *>(map(sizeof(RaceCell) * RACE_CELLS));
	g.ovf = static_cast<RaceOvf *>(map(sizeof(RaceOvf) * MAX_OVF));
	g.sync = static_cast<SyncCell *>(map(sizeof(SyncCell) * SYNC_CELLS));
	g.svc = static_cast<Clk(*)[MAXT]>(map(sizeof(Clk) * MAXT * MAX_SYNC_VC));
	g.mtx = static_cast<MutexCell *>(map(sizeof(MutexCell) * MAX_MUTEX));
	g.rw = static_cast<RwCell *>(map(sizeof(RwCell) * MAX_RW));
	g.ev = static_cast<Event *>(map(sizeof(Event) * MAX_EVENTS));
	g.brk = ARENA + 4096;
	g.serial = 1;
	if (replay) {
		g.replaying = true;
		for (std::uint32_t k = 0; k < K_NKINDS; k++)
			g.rq[k] = static_cast<std::uint32_t *>(map(sizeof(std::uint32_t) * (nreplay + 1)));
		for (std::size_t i = 0; i < nreplay; i++)
			if (replay[i].kind < K_NKINDS)
				g.rq[replay[i].kind][g.rn[replay[i].kind]++] = replay[i].v;
	}
	std::set_terminate(on_terminate);

	// scenario
	std::uint32_t total = 0;
	for (int i = 0; i < scen_n; i++)
		total += scen_tab[i].weight;
	std::uint32_t pick = 0;
	if (!g.replaying) {
		std::uint32_t r = static_cast<std::uint32_t>(rng() % total);
		while (r >= scen_tab[pick].weight)
			r -= scen_tab[pick++].weight;
		if (only_scen >= 0)
			pick = only_scen;
	}
	const std::uint32_t sc = decide_as(K_SCEN, scen_n, pick);
	res->scen = sc;
	g.fn = scen_tab[sc].fn;
	// swarm knobs; 0 is the plainest value of each
	auto sw = [](std::uint32_t n) { return decide(K_SWARM, n); };
	g.team = 1 + static_cast<int>(sw(8));
	g.sw_gap = sw(7);
	g.sw_policy = sw(4);
	static const std::uint32_t ws[] = {1, 4, 16, 64};
	g.sw_wsync = ws[sw(4)];
	g.sw_victim = sw(8);

	g.in_run = true;
	Thr *t0 = new_thread(main_thread, nullptr);
	g.cur = t0;
	draw_gap();
	unpark(&t0->word);
	park(&g.done_word);
	g.in_run = false;
	g.active = false;
	for (int i = 0; i < g.nthr; i++)
		pthread_join(g.thr[i].pt, nullptr);
	res->steps = g.steps;
	res->nthreads = g.nthr;
	res->nevents = g.nev;
	if (g.race_lost)
		probe("race_detector_capacity_exceeded");
	hmix(g.steps);
	res->status = 1;
}

} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ malloc family (for the whole process)
static inline bool in_arena(const void *p) { return reinterpret_cast<std::uintptr_t>(p) - ARENA < ARENA_SIZE; }

extern "C" {

void *malloc(std::size_t n) {
	if (!g.active)
		return __libc_malloc(n);
	void *p = arena_alloc(n, 16, true);
	if (!p)
		errno = ENOMEM;
	return p;
}

void free(void *p) {
	if (in_arena(p))
		arena_free(p);
	else
		__libc_free(p);
}

void *calloc(std::size_t a, std::size_t b) {
	if (!g.active)
		return __libc_calloc(a, b);
	if (b && a > SIZE_MAX / b)
		return nullptr;
	void *p = malloc(a * b);
	if (p)
		std::memset(p, 0, a * b);
	return p;
}

void *realloc(void *p, std::size_t n) {
	if (!in_arena(p)) {
		if (!g.active || p)
			return __libc_realloc(p, n);
		return malloc(n);
	}
	void *q = malloc(n);
	if (!q)
		return nullptr;
	const std::size_t old = buffer_capacity(p);
	std::memcpy(q, p, old < n ? old : n);
	free(p);
	return q;
}

void *memalign(std::size_t al, std::size_t n) {
	if (!g.active)
		return __libc_memalign(al, n);
	void *p = arena_alloc(n, al, true);
	if (!p)
		errno = ENOMEM;
	return p;
}

void *aligned_alloc(std::size_t al, std::size_t n) { return memalign(al, n); }

int posix_memalign(void **out, std::size_t al, std::size_t n) {
	void *p = memalign(al, n);
	if (!p)
		return ENOMEM;
	*out = p;
	return 0;
}

std::size_t malloc_usable_size(void *p) {
	if (in_arena(p))
		return buffer_capacity(p);
	return 0;
}

// ------------------------------------------------------------------ compiler instrumentation
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, sizeof *p, 1); }
void __tsan_vptr_read(void **p) { access(p, sizeof *p, 0); }
void __tsan_read_range(void *p, std::size_t n) {
	if (n)
		access(p, n, 0);
}
void __tsan_write_range(void *p, std::size_t n) {
	if (n)
		access(p, n, 1);
}

#define RW(N)                                                                                                        \
	void __tsan_read##N(void *p) { access(p, N, 0); }                                                                \
	void __tsan_write##N(void *p) { access(p, N, 1); }                                                               \
	void __tsan_unaligned_read##N(void *p) { access(p, N, 0); }                                                      \
	void __tsan_unaligned_write##N(void *p) { access(p, N, 1); }                                                     \
	void __tsan_volatile_read##N(void *p) { access(p, N, 0); }                                                       \
	void __tsan_volatile_write##N(void *p) { access(p, N, 1); }                                                      \
	void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, 0); }                                             \
	void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, 1); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
#undef RW

#define AT(N, T)                                                                                                     \
	T __tsan_atomic##N##_load(const volatile T *p, int) {                                                            \
		atomic_access((const void *)p, sizeof(T), false);                                                            \
		return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                 \
	}                                                                                                                \
	void __tsan_atomic##N##_store(volatile T *p, T v, int) {                                                         \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		__atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                    \
	}                                                                                                                \
	T __tsan_atomic##N##_exchange(volatile T *p, T v, int) {                                                         \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                          \
	}                                                                                                                \
	T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) {                                                        \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                           \
	}                                                                                                                \
	T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) {                                                        \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                           \
	}                                                                                                                \
	T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) {                                                        \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                           \
	}                                                                                                                \
	T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) {                                                         \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                            \
	}                                                                                                                \
	T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) {                                                        \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                           \
	}                                                                                                                \
	T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) {                                                       \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                          \
	}                                                                                                                \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                             \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
	}                                                                                                                \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) {                               \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                      \
	}                                                                                                                \
	T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) {                                   \
		atomic_access((const void *)p, sizeof(T), true);                                                             \
		__atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
		return e;                                                                                                    \
	}
AT(8, std::uint8_t)
AT(16, std::uint16_t)
AT(32, std::uint32_t)
AT(64, std::uint64_t)
#undef AT
static char fence_obj;
void __tsan_atomic_thread_fence(int) {
	if (g.active) {
		tick(g.sw_wsync);
		hb_acquire(&fence_obj);
		hb_release(&fence_obj);
	}
	__atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ wrapped libc/libstdc++ entry points
// (-Wl,--wrap applies to the harness objects only)
void *__real_memcpy(void *, const void *, std::size_t);
void *__real_memmove(void *, const void *, std::size_t);
void *__real_memset(void *, int, std::size_t);

void *__wrap_memcpy(void *d, const void *s, std::size_t n) {
	if (n) {
		access(s, n, 0);
		access(d, n, 1);
	}
	return __real_memcpy(d, s, n);
}

void *__wrap_memmove(void *d, const void *s, std::size_t n) {
	if (n) {
		access(s, n, 0);
		access(d, n, 1);
	}
	return __real_memmove(d, s, n);
}

void *__wrap_memset(void *d, int c, std::size_t n) {
	if (n)
		access(d, n, 1);
	return __real_memset(d, c, n);
}

int __real_sched_yield();

int __wrap_sched_yield() {
	if (g.active) {
		sim::yield();
		return 0;
	}
	return __real_sched_yield();
}

int __real_nanosleep(const struct timespec *, struct timespec *);

int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
	if (g.active) {
		sim::yield();
		return 0;
	}
	return __real_nanosleep(a, b);
}

static MutexCell *mutex_of(const void *m) {
	const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(m);
	for (std::size_t i = 0; i < g.nmtx; i++)
		if (g.mtx[i].a == a)
			return &g.mtx[i];
	if (g.nmtx >= MAX_MUTEX)
		fail("limit", "too many mutexes");
	g.mtx[g.nmtx] = MutexCell{a, -1, 0};
	return &g.mtx[g.nmtx++];
}

static bool mutex_free(void *p) {
	const MutexCell *c = static_cast<MutexCell *>(p);
	return c->owner == -1;
}

static void sim_lock(void *m, bool recursive = true) {
	sync_point();
	MutexCell *c = mutex_of(m);
	if (c->owner == g.cur->id && recursive) {
		c->depth++;
		return;
	}
	// a plain mutex locked again by its owner waits for ever, as in reality
	wait_until(mutex_free, c);
	c->owner = g.cur->id;
	c->depth = 1;
	hb_acquire(m);
}

static void sim_unlock(void *m) {
	MutexCell *c = mutex_of(m);
	if (--c->depth == 0) {
		hb_release(m);
		c->owner = -1;
	}
	sync_point();
}

static bool is_recursive(const pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
	if (!g.active)
		return g.in_run ? 0 : __real_pthread_mutex_lock(m);
	sim_lock(m, is_recursive(m));
	return 0;
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!g.active)
		return g.in_run ? 0 : __real_pthread_mutex_unlock(m);
	sim_unlock(m);
	return 0;
}

int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!g.active)
		return g.in_run ? 0 : __real_pthread_mutex_trylock(m);
	sync_point();
	MutexCell *c = mutex_of(m);
	if (c->owner != -1 && !(c->owner == g.cur->id && is_recursive(m)))
		return EBUSY;
	sim_lock(m);
	return 0;
}

// ---- condition variables (no spurious wake-ups are lost: a waiter is released by any later signal)
static bool cond_pred(void *p) {
	const CondWait *w = static_cast<CondWait *>(p);
	return w->woken;
}

static void cond_wait(void *c, void *m) {
	CondWait w{c, g.conds, false};
	g.conds = &w;
	sim_unlock(m);
	wait_until(cond_pred, &w);
	for (CondWait **q = &g.conds; *q; q = &(*q)->next)
		if (*q == &w) {
			*q = w.next;
			break;
		}
	hb_acquire(c);
	sim_lock(m, false);
}

static void cond_wake(void *c, bool all) {
	hb_release(c);
	CondWait *list[MAXT];
	std::uint32_t n = 0;
	for (CondWait *q = g.conds; q; q = q->next)
		if (q->c == c && !q->woken)
			list[n++] = q;
	if (n && all)
		for (std::uint32_t i = 0; i < n; i++)
			list[i]->woken = true;
	else if (n)
		list[n > 1 ? decide(K_TASK, n) : 0]->woken = true;
	sync_point();
}

int __real_pthread_cond_wait(void *, void *);
int __real_pthread_cond_signal(void *);
int __real_pthread_cond_broadcast(void *);
int __wrap_pthread_cond_wait(void *c, void *m) {
	if (!g.active)
		return g.in_run ? 0 : __real_pthread_cond_wait(c, m);
	return cond_wait(c, m), 0;
}
int __wrap_pthread_cond_signal(void *c) {
	if (!g.active)
		return g.in_run ? 0 : __real_pthread_cond_signal(c);
	return cond_wake(c, false), 0;
}
int __wrap_pthread_cond_broadcast(void *c) {
	if (!g.active)
		return g.in_run ? 0 : __real_pthread_cond_broadcast(c);
	return cond_wake(c, true), 0;
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *, void *);
void __real__ZNSt18condition_variable10notify_oneEv(void *);
void __real__ZNSt18condition_variable10notify_allEv(void *);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void *c, void **lk) {
	if (!g.active)
		return g.in_run ? void() : __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, lk);
	cond_wait(c, *lk);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void *c) {
	if (!g.active)
		return g.in_run ? void() : __real__ZNSt18condition_variable10notify_oneEv(c);
	cond_wake(c, false);
}
void __wrap__ZNSt18condition_variable10notify_allEv(void *c) {
	if (!g.active)
		return g.in_run ? void() : __real__ZNSt18condition_variable10notify_allEv(c);
	cond_wake(c, true);
}

// ---- read-write locks
static RwCell *rw_of(const void *m) {
	const std::uintptr_t a = reinterpret_cast<std::uintptr_t>(m);
	for (std::size_t i = 0; i < g.nrw; i++)
		if (g.rw[i].a == a)
			return &g.rw[i];
	if (g.nrw >= MAX_RW)
		fail("limit", "too many read-write locks");
	g.rw[g.nrw] = RwCell{a, -1, 0};
	return &g.rw[g.nrw++];
}
static bool rw_rd_free(void *p) { return static_cast<RwCell *>(p)->writer == -1; }
static bool rw_wr_free(void *p) { return static_cast<RwCell *>(p)->writer == -1 && !static_cast<RwCell *>(p)->readers; }

#define RW(NAME, BODY)                                                                                                \
	int __real_pthread_rwlock_##NAME(void *);                                                                        \
	int __wrap_pthread_rwlock_##NAME(void *m) {                                                                      \
		if (!g.active)                                                                                               \
			return g.in_run ? 0 : __real_pthread_rwlock_##NAME(m);                                                   \
		sync_point();                                                                                                \
		RwCell *c = rw_of(m);                                                                                        \
		BODY return 0;                                                                                               \
	}
RW(rdlock, { wait_until(rw_rd_free, c); c->readers++; hb_acquire(m); })
RW(wrlock, { wait_until(rw_wr_free, c); c->writer = g.cur->id; hb_acquire(m); })
RW(tryrdlock, { if (!rw_rd_free(c)) return EBUSY; c->readers++; hb_acquire(m); })
RW(trywrlock, { if (!rw_wr_free(c)) return EBUSY; c->writer = g.cur->id; hb_acquire(m); })
RW(unlock, { hb_release(m); if (c->writer == g.cur->id) c->writer = -1; else c->readers--; })
#undef RW

// ---- once
int __real_pthread_once(int *, void (*)());
int __wrap_pthread_once(int *o, void (*fn)()) {
	if (!g.active)
		return __real_pthread_once(o, fn);
	sim_lock(o, false);
	struct Unlock {
		int *o;
		~Unlock() { sim_unlock(o); }
	} u{o};
	volatile int *state = o;
	if (*state != 2) { // PTHREAD_ONCE_DONE of glibc
		fn();
		*state = 2;
	}
	return 0;
}

// ---- futex (std::atomic::wait, std::latch, std::barrier, std::semaphore)
struct FutexArg {
	const volatile int *a;
	int v;
};
static bool futex_pred(void *p) {
	const FutexArg *f = static_cast<FutexArg *>(p);
	return *f->a != f->v;
}
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
	if (n == 202 /* SYS_futex */ && g.active) {
		const int op = static_cast<int>(b) & 127;
		if (op == 0 || op == 9) { // wait
			FutexArg fa{reinterpret_cast<const volatile int *>(a), static_cast<int>(c)};
			wait_until(futex_pred, &fa);
			return 0;
		}
		sync_point();
		return 1;
	}
	return __real_syscall(n, a, b, c, d, e, f);
}

int __real___cxa_guard_acquire(std::uint64_t *);
void __real___cxa_guard_release(std::uint64_t *);
void __real___cxa_guard_abort(std::uint64_t *);

int __wrap___cxa_guard_acquire(std::uint64_t *gd) {
	if (!g.active)
		return __real___cxa_guard_acquire(gd);
	sim_lock(gd);
	if (*reinterpret_cast<volatile char *>(gd)) {
		sim_unlock(gd);
		hb_acquire(gd);
		return 0;
	}
	return 1;
}

void __wrap___cxa_guard_release(std::uint64_t *gd) {
	if (!g.active)
		return __real___cxa_guard_release(gd);
	*reinterpret_cast<volatile char *>(gd) = 1;
	sim_unlock(gd);
}

void __wrap___cxa_guard_abort(std::uint64_t *gd) {
	if (!g.active)
		return __real___cxa_guard_abort(gd);
	sim_unlock(gd);
}

int __real___cxa_thread_atexit(void (*)(void *), void *, void *);

int __wrap___cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) {
	if (!g.in_run || !g.cur)
		return __real___cxa_thread_atexit(fn, obj, dso);
	Thr *t = g.cur;
	if (t->ndtors >= 32)
		fail("limit", "too many thread_local destructors");
	t->dtors[t->ndtors++] = Dtor{fn, obj};
	return 0;
}

} // extern "C"
