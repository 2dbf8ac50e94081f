// Runner: executes seeded runs (one process per run), replays and minimises traces.
#include "core.hpp"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>

#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>

using namespace sim;

namespace {

constexpr int MAXW = 64;
constexpr std::size_t MAX_RUNS = 1 << 23;

struct Stats {
	std::uint64_t runs, steps, switches, events, threads, det_checked, nontrivial;
	std::uint64_t faults[F_NFAULTS];
	std::uint64_t runs_with_fault[F_NFAULTS];
	std::uint32_t nprobes;
	Probe probes[MAX_PROBES];
	std::uint64_t scen[4096];
};

struct Worker {
	RunResult res;
	Stats st;
	std::uint32_t outcome; // 0 none, 2 violation, 3 internal error
	std::uint64_t idx;
	char err[256];
};

struct Shared {
	std::uint64_t next;
	std::uint32_t stop;
	Worker w[MAXW];
	std::uint64_t ihash[MAX_RUNS];
};

Shared *sh;
double cpu_limit = 90;
int wall_limit = 240;

double now() {
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

void reset(RunResult *r) {
	// everything but the trace array
	std::memset(static_cast<void *>(r), 0, offsetof(RunResult, trace));
}

const char *signame(int s) {
	switch (s) {
	case SIGSEGV: return "crash_SIGSEGV";
	case SIGBUS: return "crash_SIGBUS";
	case SIGABRT: return "crash_SIGABRT";
	case SIGFPE: return "crash_SIGFPE";
	case SIGILL: return "crash_SIGILL";
	case SIGTRAP: return "crash_SIGTRAP";
	case SIGXCPU:
	case SIGALRM: return "hang";
	default: return nullptr;
	}
}

// returns 1 ok, 2 violation, 3 internal error
int run_once(RunResult *res, std::uint64_t seed, const TraceEnt *rep, std::size_t nrep, int only, std::string &err) {
	reset(res);
	const pid_t pid = fork();
	if (pid < 0) {
		err = "fork failed";
		return 3;
	}
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		rlimit rl;
		rl.rlim_cur = static_cast<rlim_t>(cpu_limit);
		rl.rlim_max = rl.rlim_cur + 5;
		setrlimit(RLIMIT_CPU, &rl);
		rl.rlim_cur = rl.rlim_max = 0;
		setrlimit(RLIMIT_CORE, &rl);
		alarm(static_cast<unsigned>(wall_limit));
		execute_run(res, seed, rep, nrep, only);
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
	}
	if (WIFEXITED(st)) {
		const int c = WEXITSTATUS(st);
		if (c == 0 && res->status == 1)
			return 1;
		if (c == 77 && res->status == 2) {
			if (!std::strcmp(res->cls, "internal")) {
				err = std::string("internal: ") + res->msg;
				return 3;
			}
			if (!std::strcmp(res->cls, "limit")) { // the run outgrew the simulator's tables: abandoned, no verdict
				Probe &p = res->probes[res->nprobes < MAX_PROBES ? res->nprobes++ : MAX_PROBES - 1];
				std::snprintf(p.name, sizeof p.name, "abandoned_runs");
				p.hits = 1;
				return 1;
			}
			return 2;
		}
		if (res->status == 0) { // the code under test called exit()
			res->status = 2;
			std::snprintf(res->cls, sizeof res->cls, "exit");
			std::snprintf(res->msg, sizeof res->msg, "process exited with status %d in the middle of a run", c);
			if (c == 3) {
				err = "simulator could not start";
				return 3;
			}
			return 2;
		}
		err = "unexpected exit status " + std::to_string(c);
		return 3;
	}
	if (WIFSIGNALED(st)) {
		const char *n = signame(WTERMSIG(st));
		if (!n) {
			err = "killed by signal " + std::to_string(WTERMSIG(st));
			return 3;
		}
		res->status = 2;
		std::snprintf(res->cls, sizeof res->cls, "%s", n);
		std::snprintf(res->msg, sizeof res->msg, "process ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
		return 2;
	}
	err = "wait status";
	return 3;
}

std::uint64_t run_seed(std::uint64_t base, std::uint64_t idx) {
	std::uint64_t z = base * 0x9e3779b97f4a7c15ULL + idx + 0x632be59bd9b4e019ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

// Memory of ended runs is given back by the kernel some time later; a loop that forks faster than that
// would exhaust the machine. Wait (bounded) while less than half of it (after two seconds: a quarter) is available. This only delays
// the next run: no run sees it.
void wait_for_memory() {
	for (int i = 0; i < 250; i++) {
		unsigned long long total = 0, avail = 0;
		FILE *f = std::fopen("/proc/meminfo", "r");
		if (!f)
			return;
		char line[128];
		while ((!total || !avail) && std::fgets(line, sizeof line, f)) {
			std::sscanf(line, "MemTotal: %llu", &total);
			std::sscanf(line, "MemAvailable: %llu", &avail);
		}
		std::fclose(f);
		if (!total || !avail || avail * 2 > total || (i > 100 && avail * 4 > total))
			return;
		usleep(20000);
	}
}

bool add_stats(Stats &s, const RunResult &r) {
	s.runs++;
	s.steps += r.steps;
	s.switches += r.switches;
	s.events += r.nevents;
	s.threads += r.nthreads;
	s.scen[r.scen]++;
	bool nontriv = r.switches > 2;
	for (int i = 0; i < F_NFAULTS; i++) {
		s.faults[i] += r.faults[i];
		s.runs_with_fault[i] += r.faults[i] != 0;
		nontriv |= i != F_PREEMPT && r.faults[i];
	}
	s.nontrivial += nontriv;
	for (std::uint32_t i = 0; i < r.nprobes; i++) {
		std::uint32_t k = 0;
		while (k < s.nprobes && std::strcmp(s.probes[k].name, r.probes[i].name))
			k++;
		if (k == s.nprobes) {
			if (k >= MAX_PROBES)
				continue;
			std::memcpy(s.probes[k].name, r.probes[i].name, sizeof s.probes[k].name);
			s.probes[k].hits = 0;
			s.nprobes++;
		}
		s.probes[k].hits += r.probes[i].hits;
	}
	return nontriv;
}

std::string jstr(const char *s) {
	std::string o = "\"";
	for (; *s; s++) {
		const unsigned char c = static_cast<unsigned char>(*s);
		if (c == '"' || c == '\\') {
			o += '\\';
			o += *s;
		} else if (c < 32) {
			char b[8];
			std::snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		} else
			o += *s;
	}
	return o + "\"";
}

void write_trace(const char *path, const TraceEnt *t, std::size_t n) {
	FILE *f = std::fopen(path, "w");
	for (std::size_t i = 0; i < n; i++)
		std::fprintf(f, "%u %u %u\n", t[i].kind, t[i].n, t[i].v);
	std::fclose(f);
}

std::vector<TraceEnt> read_trace(const char *path) {
	std::vector<TraceEnt> v;
	FILE *f = std::fopen(path, "r");
	if (!f)
		return v;
	TraceEnt e;
	while (std::fscanf(f, "%u %u %u", &e.kind, &e.n, &e.v) == 3)
		v.push_back(e);
	std::fclose(f);
	return v;
}

void print_result(FILE *f, const RunResult &r, int rc) {
	std::fprintf(f,
	             "{\"rc\":%d,\"class\":%s,\"msg\":%s,\"note\":%s,\"scenario\":%s,\"hash\":\"%016llx\",\"steps\":%llu,"
	             "\"switches\":%llu,\"threads\":%u,\"decisions\":%u,\"trace_overflow\":%u,\"faults\":{",
	             rc, jstr(r.cls).c_str(), jstr(r.msg).c_str(), jstr(r.note).c_str(),
	             r.scen < static_cast<std::uint32_t>(scenario_count()) ? jstr(scenario(r.scen).name).c_str() : "\"?\"",
	             (unsigned long long)r.hash, (unsigned long long)r.steps, (unsigned long long)r.switches, r.nthreads,
	             r.ntrace, r.trace_overflow);
	bool first = true;
	for (int i = 0; i < F_NFAULTS; i++)
		if (r.faults[i]) {
			std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_names[i], (unsigned long long)r.faults[i]);
			first = false;
		}
	std::fprintf(f, "}}\n");
}

void worker_loop(int w, int nw, std::uint64_t base, std::uint64_t nruns, double deadline, int only) {
	cpu_set_t cs;
	CPU_ZERO(&cs);
	const long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
	if (ncpu > 0 && nw <= ncpu) {
		// pin to the w-th allowed cpu: baton passing is much cheaper on one cpu
		cpu_set_t allowed;
		if (!sched_getaffinity(0, sizeof allowed, &allowed)) {
			int k = -1;
			for (int c = 0; c < CPU_SETSIZE; c++)
				if (CPU_ISSET(c, &allowed) && ++k == w) {
					CPU_SET(c, &cs);
					sched_setaffinity(0, sizeof cs, &cs);
					break;
				}
		}
	}
	Worker &me = sh->w[w];
	RunResult *second = static_cast<RunResult *>(
		mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::string err;
	std::uint64_t mine = 0;
	while (!__atomic_load_n(&sh->stop, __ATOMIC_RELAXED) && now() < deadline) {
		const std::uint64_t idx = __atomic_fetch_add(&sh->next, 1, __ATOMIC_RELAXED);
		if (idx >= nruns)
			break;
		if (++mine % 16 == 0)
			wait_for_memory();
		const std::uint64_t s = run_seed(base, idx);
		int rc = run_once(&me.res, s, nullptr, 0, only, err);
		if (rc == 1) {
			const bool nontriv = add_stats(me.st, me.res);
			if (idx < MAX_RUNS)
				sh->ihash[idx] = ((me.res.ihash ^ (me.res.scen * 0x9e3779b97f4a7c15ULL)) & ~std::uint64_t(3)) | 2 | (nontriv ? 1 : 0);
			if (idx % 61 == 0) { // determinism self-check
				const int rc2 = run_once(second, s, nullptr, 0, only, err);
				me.st.det_checked++;
				if (rc2 != 1 || second->hash != me.res.hash) {
					rc = 3;
					char b[200];
					std::snprintf(b, sizeof b, "run %llu is not deterministic (scenario %s: %016llx vs %016llx rc %d)", (unsigned long long)idx,
					              scenario(me.res.scen).name, (unsigned long long)me.res.hash, (unsigned long long)second->hash, rc2);
					err = b;
				}
			}
		}
		if (rc != 1) {
			me.outcome = rc;
			me.idx = idx;
			std::snprintf(me.err, sizeof me.err, "%s", err.c_str());
			__atomic_store_n(&sh->stop, 1, __ATOMIC_RELAXED);
			return;
		}
	}
}

int cmd_run(std::uint64_t seed, std::uint64_t nruns, double tlimit, int workers, const std::string &out, int only) {
	mkdir(out.c_str(), 0777);
	const double t0 = now();
	std::vector<pid_t> pids;
	for (int w = 0; w < workers; w++) {
		const pid_t p = fork();
		if (p == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			worker_loop(w, workers, seed, nruns, t0 + tlimit, only);
			_exit(0);
		}
		pids.push_back(p);
	}
	for (std::size_t i = 0; i < pids.size(); i++) {
		int st;
		while (waitpid(pids[i], &st, 0) < 0 && errno == EINTR) {
		}
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !sh->w[i].outcome) {
			sh->w[i].outcome = 3;
			std::snprintf(sh->w[i].err, sizeof sh->w[i].err, "worker process died (status %d)", st);
		}
	}
	const double wall = now() - t0;
	static Stats tot;
	int bad = -1;
	for (int w = 0; w < workers; w++) {
		const Stats &s = sh->w[w].st;
		tot.runs += s.runs;
		tot.steps += s.steps;
		tot.switches += s.switches;
		tot.events += s.events;
		tot.threads += s.threads;
		tot.det_checked += s.det_checked;
		tot.nontrivial += s.nontrivial;
		for (int i = 0; i < F_NFAULTS; i++) {
			tot.faults[i] += s.faults[i];
			tot.runs_with_fault[i] += s.runs_with_fault[i];
		}
		for (int i = 0; i < scenario_count(); i++)
			tot.scen[i] += s.scen[i];
		for (std::uint32_t i = 0; i < s.nprobes; i++) {
			std::uint32_t k = 0;
			while (k < tot.nprobes && std::strcmp(tot.probes[k].name, s.probes[i].name))
				k++;
			if (k == tot.nprobes) {
				if (k >= MAX_PROBES)
					continue;
				tot.probes[k] = s.probes[i];
				tot.nprobes++;
			} else
				tot.probes[k].hits += s.probes[i].hits;
		}
		if (sh->w[w].outcome && (bad < 0 || (sh->w[w].outcome == 2 && sh->w[bad].outcome == 3) ||
		                         (sh->w[w].outcome == sh->w[bad].outcome && sh->w[w].idx < sh->w[bad].idx)))
			bad = w;
	}
	// distinct interleavings
	std::uint64_t upto = sh->next < nruns ? sh->next : nruns;
	if (upto > MAX_RUNS)
		upto = MAX_RUNS;
	std::vector<std::uint64_t> hs;
	hs.reserve(upto);
	for (std::uint64_t i = 0; i < upto; i++)
		if (sh->ihash[i])
			hs.push_back(sh->ihash[i]);
	std::qsort(hs.data(), hs.size(), 8, [](const void *a, const void *b) {
		const std::uint64_t x = *static_cast<const std::uint64_t *>(a), y = *static_cast<const std::uint64_t *>(b);
		return x < y ? -1 : x > y;
	});
	std::uint64_t distinct = 0, distinct_nontrivial = 0;
	for (std::size_t i = 0; i < hs.size(); i++) {
		distinct += i == 0 || hs[i] != hs[i - 1];
		distinct_nontrivial += (hs[i] & 1) && (i == 0 || hs[i] != hs[i - 1]);
	}
	FILE *f = std::fopen((out + "/summary.json").c_str(), "w");
	std::fprintf(f,
	             "{\"runs\":%llu,\"wall_s\":%.3f,\"steps\":%llu,\"switches\":%llu,\"events\":%llu,\"threads\":%llu,"
	             "\"distinct_interleavings\":%llu,\"nontrivial_runs\":%llu,\"distinct_nontrivial\":%llu,\"determinism_checked\":%llu,\"workers\":%d,\"faults\":{",
	             (unsigned long long)tot.runs, wall, (unsigned long long)tot.steps, (unsigned long long)tot.switches,
	             (unsigned long long)tot.events, (unsigned long long)tot.threads, (unsigned long long)distinct,
	             (unsigned long long)tot.nontrivial, (unsigned long long)distinct_nontrivial, (unsigned long long)tot.det_checked, workers);
	for (int i = 0; i < F_NFAULTS; i++)
		std::fprintf(f, "%s\"%s\":{\"fired\":%llu,\"runs\":%llu}", i ? "," : "", fault_names[i],
		             (unsigned long long)tot.faults[i], (unsigned long long)tot.runs_with_fault[i]);
	std::fprintf(f, "},\"probes\":{");
	for (std::uint32_t i = 0; i < tot.nprobes; i++)
		std::fprintf(f, "%s%s:%llu", i ? "," : "", jstr(tot.probes[i].name).c_str(), (unsigned long long)tot.probes[i].hits);
	std::fprintf(f, "},\"scenarios\":{");
	for (int i = 0; i < scenario_count(); i++)
		std::fprintf(f, "%s%s:%llu", i ? "," : "", jstr(scenario(i).name).c_str(), (unsigned long long)tot.scen[i]);
	std::fprintf(f, "},\"samples\":[");
	bool first = true;
	for (int w = 0; w < workers && w < 4; w++)
		if (sh->w[w].res.note[0]) {
			std::fprintf(f, "%s%s", first ? "" : ",",
			             jstr((std::string(scenario(sh->w[w].res.scen).name) + ": " + sh->w[w].res.note).c_str()).c_str());
			first = false;
		}
	std::fprintf(f, "],\"outcome\":%d", bad < 0 ? 1 : static_cast<int>(sh->w[bad].outcome));
	if (bad >= 0)
		std::fprintf(f, ",\"run_index\":%llu,\"run_seed\":%llu,\"error\":%s", (unsigned long long)sh->w[bad].idx,
		             (unsigned long long)run_seed(seed, sh->w[bad].idx), jstr(sh->w[bad].err).c_str());
	std::fprintf(f, "}\n");
	std::fclose(f);
	if (bad >= 0 && sh->w[bad].outcome == 2) {
		write_trace((out + "/viol.trace").c_str(), sh->w[bad].res.trace, sh->w[bad].res.ntrace);
		f = std::fopen((out + "/viol.json").c_str(), "w");
		print_result(f, sh->w[bad].res, 2);
		std::fclose(f);
		return 1;
	}
	return bad < 0 ? 0 : 3;
}

int cmd_replay(const char *path) {
	const auto t = read_trace(path);
	std::string err;
	RunResult *r = &sh->w[0].res;
	const int rc = run_once(r, 0, t.data(), t.size(), -1, err);
	print_result(stdout, *r, rc);
	if (rc == 3)
		std::fprintf(stderr, "%s\n", err.c_str());
	return rc == 1 ? 0 : rc == 2 ? 1 : 3;
}

int cmd_one(std::uint64_t runseed, int only, const char *trace_out) {
	std::string err;
	RunResult *r = &sh->w[0].res;
	const int rc = run_once(r, runseed, nullptr, 0, only, err);
	print_result(stdout, *r, rc);
	if (rc == 3)
		std::fprintf(stderr, "%s\n", err.c_str());
	if (trace_out)
		write_trace(trace_out, r->trace, r->ntrace);
	return rc == 1 ? 0 : rc == 2 ? 1 : 3;
}

int cmd_minimise(const char *in, const char *outp, const char *cls, double tlimit) {
	std::vector<TraceEnt> cur = read_trace(in);
	const double dl = now() + tlimit;
	RunResult *r = &sh->w[0].res;
	std::string err;
	int tests = 0;
	auto bad = [&](const std::vector<TraceEnt> &t) {
		if (now() > dl)
			return false;
		tests++;
		return run_once(r, 0, t.data(), t.size(), -1, err) == 2 && !std::strcmp(r->cls, cls);
	};
	if (!bad(cur))
		return 4;
	const Kind order[] = {K_GAP, K_WHO, K_TASK, K_CHUNK, K_FAULT, K_DATA, K_SWARM, K_PARAM};
	bool progress = true;
	for (int round = 0; round < 3 && progress && now() < dl; round++) {
		progress = false;
		for (const Kind k : order) {
			std::vector<std::size_t> pos;
			for (std::size_t i = 0; i < cur.size(); i++)
				if (cur[i].kind == k && cur[i].v)
					pos.push_back(i);
			for (std::size_t chunk = pos.size(); chunk >= 1; chunk /= 2) {
				for (std::size_t b = 0; b < pos.size() && now() < dl;) {
					const std::size_t e = b + chunk < pos.size() ? b + chunk : pos.size();
					std::vector<TraceEnt> t = cur;
					for (std::size_t i = b; i < e; i++)
						t[pos[i]].v = 0;
					if (bad(t)) {
						cur = t;
						pos.erase(pos.begin() + static_cast<std::ptrdiff_t>(b), pos.begin() + static_cast<std::ptrdiff_t>(e));
						progress = true;
					} else
						b = e;
				}
			}
			if (k == K_PARAM || k == K_DATA || k == K_FAULT || k == K_SWARM || k == K_CHUNK)
				for (const std::size_t p : pos)
					for (;;) {
						if (now() > dl || cur[p].v == 0)
							break;
						std::vector<TraceEnt> t = cur;
						t[p].v = cur[p].v / 2;
						if (bad(t)) {
							cur = t;
							progress = true;
							continue;
						}
						t[p].v = cur[p].v - 1;
						if (bad(t)) {
							cur = t;
							progress = true;
							continue;
						}
						break;
					}
		}
	}
	// canonical form: the decisions of a replay of the result, without trailing zeros of each kind
	if (run_once(r, 0, cur.data(), cur.size(), -1, err) == 2 && !std::strcmp(r->cls, cls)) {
		std::vector<TraceEnt> t(r->trace, r->trace + r->ntrace);
		std::size_t last[K_NKINDS] = {};
		for (std::size_t i = 0; i < t.size(); i++)
			if (t[i].v)
				last[t[i].kind] = i + 1;
		std::vector<TraceEnt> o;
		for (std::size_t i = 0; i < t.size(); i++)
			if (i < last[t[i].kind])
				o.push_back(t[i]);
		if (run_once(r, 0, o.data(), o.size(), -1, err) == 2 && !std::strcmp(r->cls, cls))
			cur = o;
	}
	write_trace(outp, cur.data(), cur.size());
	std::printf("{\"tests\":%d,\"entries\":%zu}\n", tests, cur.size());
	return 0;
}

} // namespace

int main(int argc, char **argv) {
	// address-space randomisation off, so that addresses of libraries and of the main stack are the same in every run
	if (!std::getenv("SIM_NOASLR")) {
		setenv("SIM_NOASLR", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1)
			execv("/proc/self/exe", argv);
	}
	std::string cmd = argc > 1 ? argv[1] : "";
	std::uint64_t seed = 1, runs = 1000;
	double tl = 10;
	int workers = 8, only = -1;
	std::string out = ".", file, file2, cls;
	sort_scenarios();
	for (int i = 2; i < argc; i++) {
		const std::string a = argv[i];
		auto next = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--seed")
			seed = std::strtoull(next(), nullptr, 10);
		else if (a == "--runs")
			runs = std::strtoull(next(), nullptr, 10);
		else if (a == "--time")
			tl = std::atof(next());
		else if (a == "--workers")
			workers = std::atoi(next());
		else if (a == "--out")
			out = next();
		else if (a == "--scenario") {
			const std::string n = next();
			for (int s = 0; s < scenario_count(); s++)
				if (n == scenario(s).name)
					only = s;
			if (only < 0)
				return 5;
		} else if (a == "--class")
			cls = next();
		else if (a == "--cpu")
			cpu_limit = std::atof(next());
		else if (file.empty())
			file = a;
		else
			file2 = a;
	}
	if (workers > MAXW)
		workers = MAXW;
	sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
	                                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (sh == MAP_FAILED)
		return 3;
	if (cmd == "run")
		return cmd_run(seed, runs, tl, workers, out, only);
	if (cmd == "replay")
		return cmd_replay(file.c_str());
	if (cmd == "one")
		return cmd_one(seed, only, file.empty() ? nullptr : file.c_str());
	if (cmd == "minimise")
		return cmd_minimise(file.c_str(), file2.c_str(), cls.c_str(), tl);
	if (cmd == "list") {
		for (int i = 0; i < scenario_count(); i++)
			std::printf("%s\n", scenario(i).name);
		return 0;
	}
	return 5;
}
