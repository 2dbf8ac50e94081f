// Internal interface between the parts of the simulator runtime (not for harnesses).
#ifndef VERIF_SIM_CORE_HPP
#define VERIF_SIM_CORE_HPP

#include "sim.hpp"

#include <cstddef>
#include <cstdint>

namespace sim {

constexpr int MAXT = 320;
constexpr std::size_t MAX_TRACE = 1 << 18;
constexpr std::size_t MAX_PROBES = 96;

struct TraceEnt {
	std::uint32_t kind, n, v;
};

struct Probe {
	char name[56];
	std::uint64_t hits;
};

// filled by the process that executes one run; lives in shared memory so that it survives a crash
struct RunResult {
	std::uint32_t status; // 0 not finished, 1 ok, 2 violation
	char cls[40];
	char msg[1200];
	char note[1600];
	std::uint64_t hash;   // everything that happened
	std::uint64_t ihash;  // interleaving only
	std::uint64_t steps, switches, nevents;
	std::uint32_t nthreads, scen;
	std::uint64_t faults[F_NFAULTS];
	std::uint32_t nprobes;
	Probe probes[MAX_PROBES];
	std::uint32_t ntrace;
	std::uint32_t trace_overflow;
	TraceEnt trace[MAX_TRACE];
};

struct Scenario {
	const char *name;
	scenario_fn fn;
	std::uint32_t weight;
};
int scenario_count();
const Scenario &scenario(int i);
void sort_scenarios();

// Execute one run in this process. replay == nullptr: seeded. Never returns to the caller's process normally with
// threads alive: returns after all simulated threads are done.
void execute_run(RunResult *res, std::uint64_t seed, const TraceEnt *replay, std::size_t nreplay, int only_scen);

// arena allocation that is exempt from faults
void *arena_alloc(std::size_t size, std::size_t align, bool may_fail);
void arena_free(void *p);

// hooks of the task-runtime stubs
struct ThreadLocalSlot { // per simulated thread data of the stubs
	void *tbb = nullptr;
	void *omp = nullptr;
	unsigned thread_idx[3] = {0, 0, 0}, block_idx[3] = {0, 0, 0}, block_dim[3] = {1, 1, 1}, grid_dim[3] = {1, 1, 1};
};
ThreadLocalSlot &tls_of_self();
void at_run_start(void (*fn)());
void at_scenario_end(void (*fn)()); // called on the main simulated thread, still simulated
bool stopping();
bool running(); // a run is active and not paused
void mark_background(); // the current thread is a pool worker: it is told to stop at the end of the scenario
void sync_point();

} // namespace sim
#endif
