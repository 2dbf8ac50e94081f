// Stub of the oneTBB runtime library (libtbb): the r1:: entry points that the real oneTBB headers call.
// Headers (parallel_for, partitioners, combinable, PSTL back end ...) are the real ones; only worker threads, deques,
// stealing, waiting, cancellation and exception transport are simulated here.
#include "core.hpp"

#include <cstdio>
#include <cstring>
#include <exception>
#include <new>

#define TBB_PREVIEW_WAITING_FOR_WORKERS 1
#include <tbb/tbb.h>

namespace tbb::detail::r1 {

class task_dispatcher {
public:
	static bool pending(const d1::wait_context &w) {
		// layout-independent: the member is private but befriended
		return w.m_ref_count.load(std::memory_order_seq_cst) != 0;
	}
	static const void *sync_addr(const d1::wait_context &w) { return &w.m_ref_count; }
};

struct task_group_context_impl {
	static bool bound(const d1::task_group_context &c) { return c.my_traits.bound; }
};

} // namespace tbb::detail::r1

namespace {

using namespace tbb::detail;
using sim::K_TASK;

struct Entry {
	d1::task *t;
	d1::task_group_context *ctx;
	std::intptr_t iso;
	d1::slot_id spawner, affinity;
};

constexpr int MAX_SLOTS = sim::MAXT;
constexpr int DEQ = 4096;

struct Slot {
	Entry q[DEQ];
	int b, e; // [b, e)
	int tid;
	std::uint64_t executed;
};

struct Ctx {
	d1::task_group_context *addr, *parent;
	bool bound, cancelled, used;
	std::exception_ptr exc;
};
constexpr int MAX_CTX = 1024;

struct Frame { // dispatch state of a simulated thread
	d1::task_group_context *ctx;
	std::intptr_t iso;
	int depth;
	int slot;
};

struct RT {
	Slot *slots;
	int nslots;
	Ctx *ctx;
	int nctx;
	bool workers_started;
	Frame frames[sim::MAXT];
	std::uint64_t executed;
	std::intptr_t iso_serial;
};
RT *rt;

struct Init {
	static void start();
	Init() { sim::at_run_start(start); }
} init_;

alignas(RT) unsigned char rt_mem[sizeof(RT)];

// constructed per run process; memory comes from libc (the run is not yet active)
void Init::start() {
	rt = new (rt_mem) RT{};
	rt->slots = static_cast<Slot *>(std::calloc(MAX_SLOTS, sizeof(Slot)));
	rt->ctx = static_cast<Ctx *>(std::calloc(MAX_CTX, sizeof(Ctx)));
	for (auto &f : rt->frames)
		f.slot = -1;
}

Frame &frame() { return rt->frames[sim::self()]; }

int my_slot() {
	Frame &f = frame();
	if (f.slot < 0) {
		if (rt->nslots >= MAX_SLOTS)
			sim::fail("limit", "too many arena slots");
		f.slot = rt->nslots++;
		rt->slots[f.slot].tid = sim::self();
	}
	return f.slot;
}

Ctx *find_ctx(d1::task_group_context *a) {
	for (int i = 0; i < rt->nctx; i++)
		if (rt->ctx[i].used && rt->ctx[i].addr == a)
			return &rt->ctx[i];
	return nullptr;
}

bool ctx_cancelled(d1::task_group_context *a) {
	for (int guard = 0; a && guard < 64; guard++) {
		Ctx *c = find_ctx(a);
		if (!c)
			return false;
		if (c->cancelled)
			return true;
		a = c->parent;
	}
	return false;
}

bool acceptable(const Entry &e, std::intptr_t iso) { return iso == 0 || e.iso == iso; }

bool any_available(std::intptr_t iso) {
	for (int s = 0; s < rt->nslots; s++)
		for (int i = rt->slots[s].b; i < rt->slots[s].e; i++)
			if (acceptable(rt->slots[s].q[i], iso))
				return true;
	return false;
}

void remove_at(Slot &s, int i) {
	for (int k = i; k + 1 < s.e; k++)
		s.q[k] = s.q[k + 1];
	s.e--;
	if (s.b == s.e)
		s.b = s.e = 0;
}

void push(int slot, const Entry &e) {
	Slot &s = rt->slots[slot];
	if (s.e >= DEQ) {
		if (s.b == 0)
			sim::fail("limit", "task deque overflow");
		std::memmove(s.q, s.q + s.b, sizeof(Entry) * (s.e - s.b));
		s.e -= s.b;
		s.b = 0;
	}
	s.q[s.e++] = e;
}

bool take(Entry &out, std::intptr_t iso, bool &stolen) {
	const int me = my_slot();
	Slot &mine = rt->slots[me];
	for (int i = mine.e - 1; i >= mine.b; i--)
		if (acceptable(mine.q[i], iso)) {
			out = mine.q[i];
			remove_at(mine, i);
			stolen = false;
			return true;
		}
	int victims[MAX_SLOTS], pos[MAX_SLOTS], n = 0;
	for (int s = 0; s < rt->nslots; s++)
		if (s != me)
			for (int i = rt->slots[s].b; i < rt->slots[s].e; i++)
				if (acceptable(rt->slots[s].q[i], iso)) {
					victims[n] = s;
					pos[n++] = i;
					break;
				}
	if (!n)
		return false;
	const int v = static_cast<int>(sim::decide(K_TASK, n));
	out = rt->slots[victims[v]].q[pos[v]];
	remove_at(rt->slots[victims[v]], pos[v]);
	stolen = true;
	return true;
}

void run_entry(const Entry &e) {
	Frame &f = frame();
	const Frame saved = f;
	f.ctx = e.ctx;
	f.iso = e.iso;
	f.depth++;
	sim::hb_acquire(e.t);
	d1::execution_data ed;
	ed.context = e.ctx;
	ed.original_slot = e.spawner;
	ed.affinity_slot = e.affinity;
	rt->executed++;
	rt->slots[my_slot()].executed++;
	sim::step(2);
	d1::task *t = e.t;
	while (t) {
		try {
			t = ctx_cancelled(e.ctx) ? t->cancel(ed) : t->execute(ed);
		} catch (...) {
			Ctx *c = find_ctx(e.ctx);
			if (!c)
				sim::fail("internal", "exception in a task without context");
			if (!c->cancelled) {
				c->cancelled = true;
				c->exc = std::current_exception();
			}
		}
	}
	const int slot = f.slot;
	f = saved;
	f.slot = slot;
}

struct WaitArg {
	const d1::wait_context *w;
	std::intptr_t iso;
};

bool wait_pred(void *p) {
	const WaitArg *a = static_cast<WaitArg *>(p);
	return !r1::task_dispatcher::pending(*a->w) || any_available(a->iso);
}

bool idle_pred(void *) { return sim::stopping() || any_available(0); }

void worker_main(void *) {
	sim::mark_background();
	my_slot();
	bool first = true;
	for (;;) {
		sim::wait_until(idle_pred, nullptr);
		Entry e;
		bool stolen = false;
		if (take(e, 0, stolen)) {
			if (stolen)
				sim::fault_fired(sim::F_STEAL);
			if (first && rt->executed > 2)
				sim::fault_fired(sim::F_LATE_WORKER);
			first = false;
			run_entry(e);
		} else if (sim::stopping())
			return;
	}
}

void start_workers() {
	if (rt->workers_started)
		return;
	rt->workers_started = true;
	for (int i = 1; i < sim::team(); i++)
		sim::spawn(worker_main, nullptr);
}

void bind(d1::task_group_context &c) {
	Ctx *x = find_ctx(&c);
	if (x && x->bound && !x->parent && frame().ctx && frame().ctx != &c)
		x->parent = frame().ctx;
}

void wait_loop(d1::wait_context &w, d1::task_group_context &ctx) {
	const std::intptr_t iso = frame().iso;
	while (r1::task_dispatcher::pending(w)) {
		Entry e;
		bool stolen = false;
		if (take(e, iso, stolen)) {
			if (stolen)
				sim::fault_fired(sim::F_STEAL);
			if (e.ctx != &ctx)
				sim::fault_fired(sim::F_REENTER);
			run_entry(e);
		} else {
			WaitArg a{&w, iso};
			sim::wait_until(wait_pred, &a);
		}
	}
	sim::hb_acquire(r1::task_dispatcher::sync_addr(w));
}

void rethrow(d1::task_group_context &ctx) {
	if (Ctx *c = find_ctx(&ctx))
		if (c->exc) {
			const std::exception_ptr e = c->exc;
			c->exc = nullptr;
			std::rethrow_exception(e);
		}
}

} // namespace

namespace tbb::detail::r1 {

void spawn(d1::task &t, d1::task_group_context &ctx) {
	start_workers();
	sim::hb_release(&t);
	push(my_slot(), Entry{&t, &ctx, frame().iso, static_cast<d1::slot_id>(my_slot()), d1::no_slot});
	sim::sync_point();
}

void spawn(d1::task &t, d1::task_group_context &ctx, d1::slot_id id) {
	start_workers();
	sim::hb_release(&t);
	const int me = my_slot();
	int where = me;
	if (id != d1::no_slot && id < rt->nslots && sim::decide(K_TASK, 2))
		where = id;
	push(where, Entry{&t, &ctx, frame().iso, static_cast<d1::slot_id>(me), id});
	sim::sync_point();
}

void execute_and_wait(d1::task &t, d1::task_group_context &t_ctx, d1::wait_context &w, d1::task_group_context &w_ctx) {
	start_workers();
	bind(t_ctx);
	const int me = my_slot();
	run_entry(Entry{&t, &t_ctx, frame().iso, static_cast<d1::slot_id>(me), d1::no_slot});
	wait_loop(w, w_ctx);
	rethrow(w_ctx);
}

void wait(d1::wait_context &w, d1::task_group_context &ctx) {
	start_workers();
	bind(ctx);
	wait_loop(w, ctx);
	rethrow(ctx);
}

d1::slot_id execution_slot(const d1::execution_data *) { return static_cast<d1::slot_id>(my_slot()); }

d1::task_group_context *current_context() { return frame().ctx; }

void notify_waiters(std::uintptr_t) { sim::sync_point(); }

static int dummy_pool;

void *allocate(d1::small_object_pool *&pool, std::size_t n, const d1::execution_data &) {
	pool = reinterpret_cast<d1::small_object_pool *>(&dummy_pool);
	return sim::arena_alloc(n, 64, false);
}

void *allocate(d1::small_object_pool *&pool, std::size_t n) {
	pool = reinterpret_cast<d1::small_object_pool *>(&dummy_pool);
	return sim::arena_alloc(n, 64, false);
}

void deallocate(d1::small_object_pool &, void *p, std::size_t, const d1::execution_data &) { sim::arena_free(p); }

void deallocate(d1::small_object_pool &, void *p, std::size_t) { sim::arena_free(p); }

void initialize(d1::task_group_context &c) {
	int i = 0;
	while (i < rt->nctx && rt->ctx[i].used)
		i++;
	if (i == rt->nctx) {
		if (i >= MAX_CTX)
			sim::fail("limit", "too many task_group_contexts");
		rt->nctx++;
	}
	rt->ctx[i] = Ctx{&c, nullptr, task_group_context_impl::bound(c), false, true, nullptr};
}

void destroy(d1::task_group_context &c) {
	if (Ctx *x = find_ctx(&c)) {
		x->exc = nullptr;
		x->used = false;
	}
}

void reset(d1::task_group_context &c) {
	if (Ctx *x = find_ctx(&c)) {
		x->exc = nullptr;
		x->cancelled = false;
	}
}

bool cancel_group_execution(d1::task_group_context &c) {
	if (Ctx *x = find_ctx(&c)) {
		if (x->cancelled)
			return false;
		x->cancelled = true;
		return true;
	}
	return false;
}

bool is_group_execution_cancelled(d1::task_group_context &c) {
	sim::sync_point();
	return ctx_cancelled(&c);
}

void capture_fp_settings(d1::task_group_context &) {}

void isolate_within_arena(d1::delegate_base &d, std::intptr_t iso) {
	const std::intptr_t prev = frame().iso;
	const int id = sim::self();
	rt->frames[id].iso = iso ? iso : ++rt->iso_serial;
	struct Restore {
		int id;
		std::intptr_t v;
		~Restore() { rt->frames[id].iso = v; }
	} r{id, prev};
	d();
}

int max_concurrency(const d1::task_arena_base *) { return sim::team(); }

void execute(d1::task_arena_base &, d1::delegate_base &d) { d(); }
void initialize(d1::task_arena_base &) {}
void terminate(d1::task_arena_base &) {}
bool attach(d1::task_arena_base &) { return true; }
void wait(d1::task_arena_base &) {}

// ---- fire-and-forget tasks: put into the submitter's deque (no isolation), any worker may take them
void enqueue(d1::task &t, d1::task_group_context &ctx, d1::task_arena_base *) {
	start_workers();
	sim::hb_release(&t);
	push(my_slot(), Entry{&t, &ctx, 0, static_cast<d1::slot_id>(my_slot()), d1::no_slot});
	sim::sync_point();
}
static d1::task_group_context *default_ctx() {
	static d1::task_group_context *c = new d1::task_group_context(d1::task_group_context::isolated);
	if (!find_ctx(c))
		initialize(*c);
	return c;
}
void enqueue(d1::task &t, d1::task_arena_base *a) { enqueue(t, *default_ctx(), a); }
void submit(d1::task &t, d1::task_group_context &ctx, arena *, std::uintptr_t) {
	start_workers();
	sim::hb_release(&t);
	push(my_slot(), Entry{&t, &ctx, frame().iso, static_cast<d1::slot_id>(my_slot()), d1::no_slot});
	sim::sync_point();
}

// ---- address-based waiting (tbb::mutex, bounded queues ...)
namespace {
struct AddrWait {
	void *a;
	std::uintptr_t ctx;
	AddrWait *next;
	d1::delegate_base *pred;
	bool woken;
};
AddrWait *addr_waiters;
bool addr_pred(void *p) { return static_cast<AddrWait *>(p)->woken; }
} // namespace

void wait_on_address(void *addr, d1::delegate_base &predicate, std::uintptr_t context) {
	while (predicate()) {
		AddrWait w{addr, context, addr_waiters, &predicate, false};
		addr_waiters = &w;
		sim::wait_until(addr_pred, &w);
		for (AddrWait **q = &addr_waiters; *q; q = &(*q)->next)
			if (*q == &w) {
				*q = w.next;
				break;
			}
	}
	sim::hb_acquire(addr);
}
static void wake_addr(void *addr, bool any_ctx, std::uintptr_t ctx, bool all) {
	sim::hb_release(addr);
	for (AddrWait *q = addr_waiters; q; q = q->next)
		if (q->a == addr && (any_ctx || q->ctx == ctx) && !q->woken) {
			q->woken = true;
			if (!all)
				break;
		}
	sim::sync_point();
}
void notify_by_address(void *addr, std::uintptr_t ctx) { wake_addr(addr, false, ctx, true); }
void notify_by_address_one(void *addr) { wake_addr(addr, true, 0, false); }
void notify_by_address_all(void *addr) { wake_addr(addr, true, 0, true); }

// ---- global_control, observers, topology
void create(d1::global_control &) {}
void destroy(d1::global_control &) {}
std::size_t global_control_active_value(int) { return static_cast<std::size_t>(sim::team()); }
void observe(d1::task_scheduler_observer &, bool) {}
unsigned numa_node_count() { return 1; }
void fill_numa_indices(int *p) { *p = -1; }
int numa_default_concurrency(int) { return sim::team(); }
unsigned core_type_count(std::intptr_t) { return 1; }
void fill_core_type_indices(int *p, std::intptr_t) { *p = -1; }
int constraints_default_concurrency(const d1::constraints &, std::intptr_t) { return sim::team(); }
int constraints_threads_per_core(const d1::constraints &, std::intptr_t) { return 1; }
bool is_tbbmalloc_used() { return false; }

void *cache_aligned_allocate(std::size_t n) {
	void *p = sim::arena_alloc(n, 128, false);
	if (!p)
		throw std::bad_alloc();
	return p;
}

void cache_aligned_deallocate(void *p) { sim::arena_free(p); }
std::size_t cache_line_size() { return 64; }

void *allocate_memory(std::size_t n) {
	void *p = sim::arena_alloc(n, 16, false);
	if (!p)
		throw std::bad_alloc();
	return p;
}

void deallocate_memory(void *p) { sim::arena_free(p); }

void assertion_failure(const char *loc, int line, const char *ex, const char *) {
	sim::fail("tbb_assertion", "%s:%d: %s", loc, line, ex);
}

void throw_exception(d0::exception_id) { throw std::bad_alloc(); }

void call_itt_notify(int, void *) {}
void create_itt_sync(void *, const tchar *, const tchar *) {}
void itt_set_sync_name(void *, const tchar *) {}

} // namespace tbb::detail::r1
