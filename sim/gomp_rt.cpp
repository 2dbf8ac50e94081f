// Stub of the GNU OpenMP runtime (libgomp): teams, work-sharing loops and sections, barriers, critical sections, locks,
// single, explicit (deferred) tasks, taskgroups and taskloops.
#include "core.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace {

constexpr int MAX_TEAMS = 1024, MAX_LOOPS = 64, MAX_POOL = sim::MAXT;

struct Loop {
	bool active, ull;
	int entered, left;
	long next, end, incr, chunk;
	int kind; // 0 dynamic, 1 guided
};

struct Group {
	Group *outer;
	int pending;
};

struct OTask {
	void (*fn)(void *);
	void *arg;
	OTask *parent;
	Group *group;
	int children;
	bool queued;
};
constexpr int MAX_TASKS = 1 << 15, MAXQ = 256;

struct Team {
	int n;
	int level;
	Team *parent;
	int parent_id;
	void (*fn)(void *);
	void *data;
	int done;
	int bar_count;
	int bar_gen;
	int singles;
	void *copy; // single copyprivate
	int copy_seq;
	OTask *q[MAXQ];
	int nq, outstanding;
	Loop loops[MAX_LOOPS];
	int loop_seq[sim::MAXT];
	int single_seq[sim::MAXT];
};

struct Ths {
	Team *team;
	int id;
	int cur_loop;
	OTask *task;  // the task being executed (implicit or explicit)
	Group *group; // the innermost open taskgroup
};

struct PoolThr {
	int tid;
	bool busy;
	Team *team;
	int id;
};

Ths ths[sim::MAXT];
Team *teams;
int nteams;
PoolThr pool[MAX_POOL];
int npool;
int want_threads;
OTask *tasks;
int ntasks;

struct Crit {
	void *key;
	int owner, depth;
};
Crit crits[256];
int ncrits;
void *default_crit;

OTask *new_task() {
	if (ntasks >= MAX_TASKS)
		sim::fail("limit", "too many OpenMP tasks");
	tasks[ntasks] = OTask{};
	return &tasks[ntasks++];
}

void barrier();

struct Init {
	static void start() {
		teams = static_cast<Team *>(std::calloc(MAX_TEAMS, sizeof(Team)));
		tasks = static_cast<OTask *>(std::calloc(MAX_TASKS, sizeof(OTask)));
		nteams = npool = want_threads = ntasks = ncrits = 0;
		std::memset(static_cast<void *>(ths), 0, sizeof ths);
		std::memset(static_cast<void *>(pool), 0, sizeof pool);
	}
	Init() { sim::at_run_start(start); }
} init_;

Ths &me() { return ths[sim::self()]; }

bool pool_pred(void *p) { return static_cast<PoolThr *>(p)->busy || sim::stopping(); }

void pool_main(void *p) {
	PoolThr *w = static_cast<PoolThr *>(p);
	sim::mark_background();
	for (;;) {
		sim::wait_until(pool_pred, w);
		if (!w->busy)
			return;
		Team *t = w->team;
		sim::hb_acquire(t);
		me() = Ths{t, w->id, 0, new_task(), nullptr};
		t->fn(t->data);
		barrier();
		me() = Ths{};
		sim::hb_release(&t->done);
		t->done++;
		w->busy = false;
		sim::sync_point();
	}
}

bool team_done(void *p) {
	const Team *t = static_cast<Team *>(p);
	return t->done == t->n - 1;
}

void run_team(Team *t) {
	sim::hb_release(t);
	int k = 0;
	for (int id = 1; id < t->n; id++) {
		while (k < npool && pool[k].busy)
			k++;
		if (k == npool) {
			if (npool >= MAX_POOL)
				sim::fail("limit", "too many OpenMP threads");
			npool++;
			pool[k] = PoolThr{0, true, t, id};
			pool[k].tid = sim::spawn(pool_main, &pool[k]);
		} else {
			pool[k].team = t;
			pool[k].id = id;
			pool[k].busy = true;
		}
	}
	const int self = sim::self();
	const Ths saved = ths[self];
	ths[self] = Ths{t, 0, 0, new_task(), nullptr};
	sim::sync_point();
	t->fn(t->data);
	barrier();
	ths[self] = saved;
	sim::wait_until(team_done, t);
	sim::hb_acquire(&t->done);
}

Team *make_team(void (*fn)(void *), void *data, unsigned nt) {
	int n;
	const int level = me().team ? me().team->level : 0;
	if (level >= 1) {
		// nested parallelism: usually serialised, sometimes a small team
		n = sim::decide(sim::K_TASK, 4) == 3 ? 2 : 1;
	} else {
		n = nt ? static_cast<int>(nt) : want_threads ? want_threads : sim::team();
		// the runtime may deliver fewer threads than asked for
		std::uint32_t p = static_cast<std::uint32_t>(n - 1);
		if (sim::rnd() % 8 == 0)
			p = static_cast<std::uint32_t>(sim::rnd() % n);
		n = 1 + static_cast<int>(sim::decide_as(sim::K_TASK, n, p));
	}
	if (nteams >= MAX_TEAMS)
		sim::fail("limit", "too many OpenMP teams");
	Team *t = &teams[nteams++];
	std::memset(static_cast<void *>(t), 0, sizeof *t);
	t->n = n;
	t->level = level + 1;
	t->parent = me().team;
	t->parent_id = me().id;
	t->fn = fn;
	t->data = data;
	return t;
}

// ---- work sharing
bool take_chunk(Loop &l, int n, long *istart, long *iend) {
	sim::sync_point();
	const bool up = l.incr > 0;
	if (up ? l.next >= l.end : l.next <= l.end)
		return false;
	const long total = up ? (l.end - l.next + l.incr - 1) / l.incr : (l.end - l.next + l.incr + 1) / l.incr;
	long c = l.chunk > 0 ? l.chunk : 1;
	if (l.kind == 1) {
		const long g = (total + n - 1) / n;
		if (g > c)
			c = g;
	}
	if (c > total)
		c = total;
	*istart = l.next;
	l.next += c * l.incr;
	*iend = l.next;
	if (up ? *iend > l.end : *iend < l.end)
		*iend = l.end;
	return true;
}

Team *cur_team() {
	static Team serial;
	if (Team *t = me().team)
		return t;
	serial.n = 1;
	return &serial;
}

bool loop_next(long *istart, long *iend) {
	Team *t = cur_team();
	return take_chunk(t->loops[me().cur_loop], t->n, istart, iend);
}

void loop_setup(Loop &l, long start, long end, long incr, long chunk, int kind) {
	l.active = true;
	l.next = start;
	l.end = (incr > 0 ? start > end : start < end) ? start : end;
	l.incr = incr;
	l.chunk = chunk;
	l.kind = kind;
}

bool loop_start(long start, long end, long incr, long chunk, int kind, long *istart, long *iend) {
	Team *t = cur_team();
	Ths &m = me();
	const int seq = t->loop_seq[m.id]++ % MAX_LOOPS;
	m.cur_loop = seq;
	Loop &l = t->loops[seq];
	if (!l.active || l.entered == 0) {
		l = Loop{};
		loop_setup(l, start, end, incr, chunk, kind);
	}
	l.entered++;
	if (l.entered == t->n)
		l.entered = 0; // everybody is in: the cell may be reused after wrap-around
	return loop_next(istart, iend);
}

// ---- explicit tasks
void run_task(OTask *k) {
	Ths &m = me();
	OTask *const saved = m.task;
	Group *const saved_group = m.group;
	Team *const t = cur_team();
	m.task = k;
	m.group = k->group;
	sim::hb_acquire(k);
	k->fn(k->arg);
	Ths &m2 = me();
	m2.task = saved;
	m2.group = saved_group;
	if (k->parent) {
		sim::hb_release(&k->parent->children);
		k->parent->children--;
	}
	for (Group *g = k->group; g; g = g->outer) {
		sim::hb_release(&g->pending);
		g->pending--;
	}
	sim::hb_release(&t->bar_count);
	if (k->queued) {
		t->outstanding--;
		sim::arena_free(k->arg);
	}
	sim::sync_point();
}

bool in_group(const OTask *k, const Group *g) {
	for (const Group *x = k->group; x; x = x->outer)
		if (x == g)
			return true;
	return false;
}

// a queued task that the current thread may start: any, a child of `parent`, or a member of `group`
bool take_task(Team *t, const OTask *parent, const Group *group, OTask **out) {
	int idx[MAXQ], n = 0;
	for (int i = 0; i < t->nq; i++)
		if ((!parent || t->q[i]->parent == parent) && (!group || in_group(t->q[i], group)))
			idx[n++] = i;
	if (!n)
		return false;
	const int i = idx[n > 1 ? sim::decide(sim::K_TASK, n) : 0];
	*out = t->q[i];
	t->q[i] = t->q[--t->nq];
	return true;
}

struct TaskWait {
	Team *t;
	OTask *parent;
	Group *group;
};

bool task_wait_pred(void *p) {
	const TaskWait *w = static_cast<TaskWait *>(p);
	if (w->parent ? w->parent->children == 0 : w->group->pending == 0)
		return true;
	for (int i = 0; i < w->t->nq; i++)
		if ((!w->parent || w->t->q[i]->parent == w->parent) && (!w->group || in_group(w->t->q[i], w->group)))
			return true;
	return false;
}

void task_wait(OTask *parent, Group *group) {
	Team *t = cur_team();
	TaskWait w{t, parent, group};
	while (parent ? parent->children : group->pending) {
		OTask *k;
		if (take_task(t, parent, group, &k))
			run_task(k);
		else
			sim::wait_until(task_wait_pred, &w);
	}
	sim::hb_acquire(parent ? &parent->children : &group->pending);
}

OTask *current_task() {
	Ths &m = me();
	if (!m.task)
		m.task = new_task();
	return m.task;
}

void make_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, bool defer,
               bool range, long start, long end) {
	Team *t = cur_team();
	OTask *k = new_task();
	k->fn = fn;
	k->parent = current_task();
	k->group = me().group;
	k->parent->children++;
	for (Group *g = k->group; g; g = g->outer)
		g->pending++;
	defer = defer && t->n > 1 && t->nq < MAXQ && sim::decide(sim::K_TASK, 5) != 0;
	if (arg_align < 16)
		arg_align = 16;
	const auto fill = [&](char *arg) {
		if (cpyfn)
			cpyfn(arg, data);
		else
			std::memcpy(arg, data, arg_size);
		if (range) {
			reinterpret_cast<long *>(arg)[0] = start;
			reinterpret_cast<long *>(arg)[1] = end;
		}
	};
	if (!defer) {
		if (!cpyfn && !range)
			k->arg = data;
		else {
			char *buf = static_cast<char *>(__builtin_alloca(arg_size + arg_align));
			k->arg = reinterpret_cast<char *>((reinterpret_cast<unsigned long>(buf) + arg_align - 1) / arg_align * arg_align);
			fill(static_cast<char *>(k->arg));
		}
		sim::hb_release(k);
		run_task(k);
		return;
	}
	k->arg = sim::arena_alloc(arg_size, arg_align, false);
	fill(static_cast<char *>(k->arg));
	k->queued = true;
	sim::hb_release(k);
	t->q[t->nq++] = k;
	t->outstanding++;
	sim::sync_point();
}

void group_start() {
	Ths &m = me();
	Group *g = static_cast<Group *>(sim::arena_alloc(sizeof(Group), 16, false));
	*g = Group{m.group, 0};
	m.group = g;
}

void group_end() {
	Group *g = me().group;
	if (!g)
		return;
	task_wait(nullptr, g);
	me().group = g->outer;
	sim::arena_free(g);
}

// ---- barriers: every task of the team is done before anybody leaves
struct BarArg {
	Team *t;
	int gen;
};

bool bar_pred(void *p) {
	const BarArg *a = static_cast<BarArg *>(p);
	const Team *t = a->t;
	return t->bar_gen != a->gen || t->nq > 0 || (t->bar_count == t->n && t->outstanding == 0);
}

void barrier() {
	Team *t = cur_team();
	if (t->n == 1)
		return;
	sim::hb_release(&t->bar_count);
	BarArg a{t, t->bar_gen};
	t->bar_count++;
	for (;;) {
		if (t->bar_gen != a.gen)
			break;
		if (t->bar_count == t->n && t->outstanding == 0) {
			t->bar_count = 0;
			t->bar_gen++;
			sim::sync_point();
			break;
		}
		OTask *k;
		if (t->nq && take_task(t, nullptr, nullptr, &k))
			run_task(k);
		else
			sim::wait_until(bar_pred, &a);
	}
	sim::hb_acquire(&t->bar_count);
}

bool crit_pred(void *p) { return static_cast<Crit *>(p)->owner < 0; }

Crit *crit_of(void *k) {
	for (int i = 0; i < ncrits; i++)
		if (crits[i].key == k)
			return &crits[i];
	if (ncrits >= 256)
		sim::fail("limit", "too many critical sections");
	crits[ncrits] = Crit{k, -1, 0};
	return &crits[ncrits++];
}

void crit_enter(void *k) {
	sim::sync_point();
	Crit *c = crit_of(k);
	sim::wait_until(crit_pred, c);
	c->owner = sim::self();
	sim::hb_acquire(c);
}

void crit_leave(void *k) {
	Crit *c = crit_of(k);
	sim::hb_release(c);
	c->owner = -1;
	sim::sync_point();
}

int runtime_kind() { return static_cast<int>(sim::decide(sim::K_TASK, 2)); }

} // namespace

extern "C" {

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { run_team(make_team(fn, data, nt)); }

#define PLOOP(NAME, KIND)                                                                                             \
	void NAME(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned) {               \
		Team *t = make_team(fn, data, nt);                                                                           \
		for (auto &q : t->loop_seq)                                                                                  \
			q = 1;                                                                                                   \
		loop_setup(t->loops[0], s, e, i, c, KIND);                                                                   \
		run_team(t);                                                                                                 \
	}
PLOOP(GOMP_parallel_loop_dynamic, 0)
PLOOP(GOMP_parallel_loop_guided, 1)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic, 0)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided, 1)
#undef PLOOP
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned) {
	Team *t = make_team(fn, data, nt);
	for (auto &q : t->loop_seq)
		q = 1;
	loop_setup(t->loops[0], s, e, i, 1 + static_cast<long>(sim::decide(sim::K_TASK, 4)), runtime_kind());
	run_team(t);
}
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned f) {
	GOMP_parallel_loop_runtime(fn, data, nt, s, e, i, f);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned f) {
	GOMP_parallel_loop_runtime(fn, data, nt, s, e, i, f);
}

#define LOOP(NAME, KIND)                                                                                              \
	bool NAME##_start(long s, long e, long i, long c, long *is, long *ie) {                                          \
		return loop_start(s, e, i, c, KIND, is, ie);                                                                 \
	}                                                                                                                \
	bool NAME##_next(long *is, long *ie) { return loop_next(is, ie); }
LOOP(GOMP_loop_dynamic, 0)
LOOP(GOMP_loop_guided, 1)
LOOP(GOMP_loop_nonmonotonic_dynamic, 0)
LOOP(GOMP_loop_nonmonotonic_guided, 1)
#undef LOOP
#define LOOPR(NAME)                                                                                                   \
	bool NAME##_start(long s, long e, long i, long *is, long *ie) {                                                  \
		return loop_start(s, e, i, 1, 0, is, ie);                                                                    \
	}                                                                                                                \
	bool NAME##_next(long *is, long *ie) { return loop_next(is, ie); }
LOOPR(GOMP_loop_runtime)
LOOPR(GOMP_loop_nonmonotonic_runtime)
LOOPR(GOMP_loop_maybe_nonmonotonic_runtime)
#undef LOOPR
bool GOMP_loop_static_start(long s, long e, long i, long c, long *is, long *ie) {
	return loop_start(s, e, i, c, 1, is, ie);
}
bool GOMP_loop_static_next(long *is, long *ie) { return loop_next(is, ie); }

typedef unsigned long long ull;
#define LOOPU(NAME, KIND)                                                                                             \
	bool NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) {                                       \
		(void)up;                                                                                                    \
		return loop_start((long)s, (long)e, (long)i, (long)c, KIND, (long *)is, (long *)ie);                         \
	}                                                                                                                \
	bool NAME##_next(ull *is, ull *ie) { return loop_next((long *)is, (long *)ie); }
LOOPU(GOMP_loop_ull_dynamic, 0)
LOOPU(GOMP_loop_ull_guided, 1)
LOOPU(GOMP_loop_ull_nonmonotonic_dynamic, 0)
LOOPU(GOMP_loop_ull_nonmonotonic_guided, 1)
#undef LOOPU
#define LOOPUR(NAME)                                                                                                  \
	bool NAME##_start(bool, ull s, ull e, ull i, ull *is, ull *ie) {                                                 \
		return loop_start((long)s, (long)e, (long)i, 1, 0, (long *)is, (long *)ie);                                  \
	}                                                                                                                \
	bool NAME##_next(ull *is, ull *ie) { return loop_next((long *)is, (long *)ie); }
LOOPUR(GOMP_loop_ull_runtime)
LOOPUR(GOMP_loop_ull_nonmonotonic_runtime)
LOOPUR(GOMP_loop_ull_maybe_nonmonotonic_runtime)
#undef LOOPUR

void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { crit_enter(&default_crit); }
void GOMP_critical_end() { crit_leave(&default_crit); }
void GOMP_critical_name_start(void **k) { crit_enter(k); }
void GOMP_critical_name_end(void **k) { crit_leave(k); }
void GOMP_atomic_start() { crit_enter(&default_crit); }
void GOMP_atomic_end() { crit_leave(&default_crit); }
bool GOMP_single_start() {
	Team *t = cur_team();
	const int s = t->single_seq[me().id]++;
	sim::sync_point();
	if (s == t->singles) {
		t->singles++;
		return true;
	}
	return false;
}

void *GOMP_single_copy_start() {
	Team *t = cur_team();
	if (GOMP_single_start())
		return nullptr;
	barrier();
	void *const p = t->copy;
	return p;
}
void GOMP_single_copy_end(void *p) {
	cur_team()->copy = p;
	barrier();
}

// ---- sections: a dynamic loop over section numbers
unsigned GOMP_sections_next() {
	long s, e;
	return loop_next(&s, &e) ? static_cast<unsigned>(s) : 0;
}
unsigned GOMP_sections_start(unsigned count) {
	long s, e;
	return loop_start(1, static_cast<long>(count) + 1, 1, 1, 0, &s, &e) ? static_cast<unsigned>(s) : 0;
}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned count, unsigned) {
	Team *t = make_team(fn, data, nt);
	for (auto &q : t->loop_seq)
		q = 1;
	loop_setup(t->loops[0], 1, static_cast<long>(count) + 1, 1, 1, 0);
	run_team(t);
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_sections_end_cancel() {
	barrier();
	return false;
}
bool GOMP_loop_end_cancel() {
	barrier();
	return false;
}
bool GOMP_barrier_cancel() {
	barrier();
	return false;
}
bool GOMP_cancel(int, bool) { return false; } // cancellation is off by default (OMP_CANCELLATION)
bool GOMP_cancellation_point(int) { return false; }

// ---- tasks
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, bool if_clause,
               unsigned flags, void **, int, void *) {
	if (flags & 8) // dependences: after all the sibling tasks
		task_wait(current_task(), nullptr);
	make_task(fn, data, cpyfn, arg_size, arg_align, if_clause && !(flags & (2 | 8)), false, 0, 0);
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align,
                   unsigned flags, unsigned long num_tasks, int, long start, long end, long step) {
	const long n = step > 0 ? (end - start + step - 1) / step : (end - start + step + 1) / step;
	if (n <= 0)
		return;
	long per;
	if (flags & 64)
		per = static_cast<long>(num_tasks);
	else if (num_tasks)
		per = (n + static_cast<long>(num_tasks) - 1) / static_cast<long>(num_tasks);
	else
		per = 1 + static_cast<long>(sim::decide(sim::K_TASK, n > 64 ? 64 : static_cast<std::uint32_t>(n)));
	if (per < 1)
		per = 1;
	if (!(flags & 256))
		group_start();
	for (long i = 0; i < n; i += per) {
		const long j = i + per < n ? i + per : n;
		make_task(fn, data, cpyfn, arg_size, arg_align, (flags & 128) && !(flags & 2), true, start + i * step,
		          j == n ? end : start + j * step);
	}
	if (!(flags & 256))
		group_end();
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align,
                       unsigned flags, unsigned long num_tasks, int prio, ull start, ull end, ull step) {
	GOMP_taskloop(fn, data, cpyfn, arg_size, arg_align, flags, num_tasks, prio, static_cast<long>(start),
	              static_cast<long>(end), static_cast<long>(step));
}
void GOMP_taskwait() { task_wait(current_task(), nullptr); }
void GOMP_taskwait_depend(void **) { task_wait(current_task(), nullptr); }
void GOMP_taskyield() { sim::yield(); }
void GOMP_taskgroup_start() { group_start(); }
void GOMP_taskgroup_end() { group_end(); }
void GOMP_teams_reg(void (*fn)(void *), void *data, unsigned, unsigned, unsigned) { fn(data); }

// ---- locks
void omp_init_lock(void *k) { crit_of(k)->owner = -1; }
void omp_init_lock_with_hint(void *k, int) { crit_of(k)->owner = -1; }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *k) { crit_enter(k); }
void omp_unset_lock(void *k) { crit_leave(k); }
int omp_test_lock(void *k) {
	sim::sync_point();
	if (crit_of(k)->owner >= 0)
		return 0;
	crit_enter(k);
	return 1;
}
void omp_init_nest_lock(void *k) {
	crit_of(k)->owner = -1;
	crit_of(k)->depth = 0;
}
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *k) {
	if (crit_of(k)->owner != sim::self())
		crit_enter(k);
	crit_of(k)->depth++;
}
void omp_unset_nest_lock(void *k) {
	if (--crit_of(k)->depth == 0)
		crit_leave(k);
}

int omp_get_num_threads() { return cur_team()->n; }
int omp_get_thread_num() { return me().id; }
int omp_get_max_threads() { return want_threads ? want_threads : sim::team(); }
int omp_get_num_procs() { return sim::team(); }
int omp_in_parallel() { return me().team && me().team->n > 1; }
void omp_set_num_threads(int n) { want_threads = n; }
int omp_get_level() { return me().team ? me().team->level : 0; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
double omp_get_wtime() { return 0; }
double omp_get_wtick() { return 1e-9; }
int omp_get_thread_limit() { return sim::MAXT; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_ancestor_thread_num(int l) { return l == omp_get_level() ? me().id : 0; }
int omp_get_team_size(int l) { return l == omp_get_level() ? cur_team()->n : 1; }
int omp_in_final() { return 0; }
int omp_get_cancellation() { return 0; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *c) {
	*k = 2;
	*c = 1;
}
int omp_get_num_teams() { return 1; }
int omp_get_team_num() { return 0; }
int omp_get_initial_device() { return 0; }
int omp_is_initial_device() { return 1; }

} // extern "C"
