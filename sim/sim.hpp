// Public interface of the deterministic simulator used by the harnesses.
//
// One OS process simulates a set of threads.  Exactly one simulated thread runs at any time (a baton is passed
// explicitly); every decision - who runs next, after how many memory accesses the running thread is preempted, which
// task a worker takes, which allocation fails, where a stream is cut, and every workload parameter - is drawn through
// sim::decide(), which is either seeded or replayed from a trace.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP

#include <cstddef>
#include <cstdint>

namespace sim {

// Decision kinds. Each kind has its own stream in a trace, so that editing one stream (minimisation) does not shift
// another one.
enum Kind : std::uint32_t {
	K_SCEN,   // which scenario
	K_SWARM,  // per-run knobs of the scheduler
	K_PARAM,  // workload parameters (lengths, sizes, team size, variants)
	K_DATA,   // workload data (values, operations)
	K_GAP,    // number of weighted steps until the running thread is preempted (0 = not at all)
	K_WHO,    // index (in the list of runnable threads) of the thread to run next
	K_TASK,   // choices of the task scheduler stub (steal victim, deque end, chunk sizes)
	K_FAULT,  // fault plan: positions and kinds of faults
	K_CHUNK,  // transport chunk sizes and delays
	K_NKINDS
};

// Fault kinds, counted when they actually fire.
enum Fault : std::uint32_t {
	F_PREEMPT,       // involuntary preemption of a simulated thread
	F_STALL,         // a runnable worker starved while others make progress (low-priority victim)
	F_STEAL,         // a task taken by another worker than the one that spawned it
	F_REENTER,       // a waiting worker picks up an unrelated task (nested dispatch)
	F_LATE_WORKER,   // a worker that joins only after part of the work is done
	F_THROW,         // user callback throws
	F_ALLOC,         // allocation failure
	F_STREAM_EOF,    // end of stream at an arbitrary byte
	F_STREAM_ERR,    // I/O error (failed underflow/overflow)
	F_STREAM_THROW,  // stream buffer throws
	F_STREAM_SHORT,  // short read/short write (chunking)
	F_STREAM_FULL,   // full disk
	F_STREAM_CORRUPT,// corrupted byte
	F_STREAM_DELAY,  // reader had to wait for the writer or vice versa
	F_SRC_DESTROYED, // source object destroyed and its memory poisoned before use of a derived object
	F_NFAULTS
};
extern const char *const fault_names[F_NFAULTS];

// ---- decisions ----
// value in [0, n); biased towards nothing: uniform in seeded mode
std::uint32_t decide(Kind k, std::uint32_t n);
// value in [0, n) where the seeded generator proposes `proposal` (already drawn from rnd())
std::uint32_t decide_as(Kind k, std::uint32_t n, std::uint32_t proposal);
std::uint64_t rnd(); // raw draw of the seeded generator; use only to build proposals for decide_as
inline std::uint32_t param(std::uint32_t n) { return decide(K_PARAM, n); }
inline std::uint32_t range(std::uint32_t lo, std::uint32_t hi) { return lo + decide(K_PARAM, hi - lo + 1); }
// dimension length: mostly small, sometimes 0/1, rarely large (up to big)
std::uint32_t length(std::uint32_t typical, std::uint32_t big);

void fault_fired(Fault f);
void probe(const char *name); // "rare condition reached" counter

// ---- threads ----
int self();       // id of the running simulated thread
int team();       // number of workers of the simulated runtimes (TBB/OpenMP/PSTL) in this run, >= 1
void set_team(int n);
int spawn(void (*fn)(void *), void *arg); // start a simulated thread
void join(int tid);
void yield();     // explicit preemption point
void step(std::uint32_t weight = 1); // account `weight` steps (may preempt)
// block until pred(arg); pred must be side-effect free
void wait_until(bool (*pred)(void *), void *arg);
// happens-before edges on an address
void hb_release(const void *p);
void hb_acquire(const void *p);

// ---- verdicts ----
[[noreturn]] void done(); // everything to be observed has been observed: the run ends here, with no violation
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

// ---- pausing: inside a Pause nothing is instrumented, preempted or fault-injected, and memory comes from libc ----
void pause_begin();
void pause_end();
struct Pause {
	Pause() { pause_begin(); }
	~Pause() { pause_end(); }
	Pause(const Pause &) = delete;
	Pause &operator=(const Pause &) = delete;
};

// ---- history ----
struct Event {
	std::uint32_t seq, op;
	int tid;
	std::int64_t v[6];
};
// record an event; never preempts
void rec(std::uint32_t op, std::int64_t a = 0, std::int64_t b = 0, std::int64_t c = 0, std::int64_t d = 0,
         std::int64_t e = 0, std::int64_t f = 0);
std::size_t events();
const Event &event(std::size_t i);
void mix(std::uint64_t v); // add to the determinism hash

// ---- heap ----
std::size_t live_blocks();            // live simulated-heap blocks (all of them)
std::size_t live_blocks_since(std::uint64_t mark);
std::uint64_t alloc_mark();           // serial number of the next allocation
// fail the n-th, (n+gap)-th... allocation from now on (0 = never); returns nothing. Only allocations made by
// instrumented threads outside Pause count.
void alloc_fault_plan(std::uint32_t first, std::uint32_t gap, std::uint32_t count);
void alloc_fault_off();
std::uint32_t alloc_faults_fired();
bool addr_live(const void *p, std::size_t n); // whole range inside one live block

// exact-size simulated heap buffer with redzones (uninitialised bytes are filled with `fill`)
void *buffer(std::size_t size, unsigned char fill);
void buffer_free(void *p);
std::size_t buffer_capacity(void *p);

// ---- scenario registry ----
using scenario_fn = void (*)();
struct Reg {
	Reg(const char *name, scenario_fn fn, std::uint32_t weight = 1);
};
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // describe this run (kept for reports)

// options of the check binary, set by the harness at static-init time
struct Options {
	bool leak_is_violation = false; // blocks still live at the end of a run
	std::uint64_t max_steps = 40'000'000;
};
Options &options();

} // namespace sim

#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)

#endif
