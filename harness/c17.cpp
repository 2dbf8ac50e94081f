// C17: nested and concurrent parallel operations stay exact and terminate
#include "reduce.hpp"

#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/omp.hpp>
#include <noarr/structures/interop/planner_iter.hpp>
#include <noarr/structures/interop/std_para.hpp>
#include <noarr/structures/interop/tbb.hpp>

namespace nest {

// everything that any operation may start from inside its callbacks
using OpFn = void (*)(int depth);
struct Named {
	const char *name;
	OpFn fn;
};
inline std::vector<Named> &table() {
	static std::vector<Named> t;
	return t;
}

struct World { // of one run
	int budget;     // operations that may still be started from callbacks
	int nesting;    // how often a callback starts one (1 of n)
	int max_depth;
	int running[8]; // operations in progress, by depth
	int started;
};
inline World world;

// decided outside of the code under test: operations may be started from any callback
inline int pick(int depth) {
	const sim::Pause p;
	if (depth >= world.max_depth || world.budget <= 0)
		return -1;
	if (sim::decide(sim::K_DATA, static_cast<std::uint32_t>(world.nesting)) != 0)
		return -1;
	world.budget--;
	world.started++;
	return static_cast<int>(sim::decide(sim::K_DATA, static_cast<std::uint32_t>(table().size())));
}

// one operation in progress: its own index set and its own record
struct Tracker {
	int depth;
	std::vector<Ent> want;
	hist::Cells *cells;
	std::vector<Key> got;
	int open = 0;
	bool returned = false;
	void (*again)(void *, int) = nullptr; // run another operation over the same traverser
	void *again_arg = nullptr;

	Tracker(int d, const Space &m) : depth(d), want(m.all()), cells(new hist::Cells(want)) {}
	~Tracker() { delete cells; }
	void begin(const Key &k) {
		const sim::Pause p;
		if (returned)
			sim::fail("returned_early", "callback of an operation at depth %d after its return", depth);
		got.push_back(k);
		open++;
		sim::rec(hist::BEGIN, depth, k.v[0], k.v[1], k.v[2], k.v[3]);
	}
	void end() {
		const sim::Pause p;
		open--;
		sim::rec(hist::END, depth);
	}
	void start_nested() {
		const int op = pick(depth);
		if (op < 0)
			return;
		if (again && op % 3 == 0) {
			sim::probe("nested_on_the_same_traverser");
			again(again_arg, depth + 1);
			return;
		}
		if (depth)
			sim::probe("nested_twice_or_more");
		table()[static_cast<std::size_t>(op)].fn(depth + 1);
	}
	void visit(const Key &k) {
		begin(k);
		if (int *c = cells->cell(k))
			*c = *c + 1;
		start_nested();
		sim::step(1);
		end();
	}
	void finish(const char *what) {
		cells->sum(); // instrumented: must happen after every visit
		const sim::Pause p;
		returned = true;
		if (open)
			sim::fail("returned_early", "%s (depth %d) returned while %d callbacks were running", what, depth, open);
		hist::compare(got, hist::keys(want), what);
	}
};

struct Visit {
	Tracker *x;
	void operator()(const auto &st) const { x->visit(key_of(st)); }
};
struct VisitSection {
	Tracker *x;
	void operator()(const auto &sec) const { sec.for_each(Visit{x}); }
};
struct ReduceHook {
	Tracker *x;
	void neut() const { x->start_nested(); }
	void acc(const Key &k) const { x->visit(k); }
	void join() const { x->start_nested(); }
};
// between reading and writing the cell: the accumulate itself waits
struct AccWait {
	Tracker *x;
	void neut() const {}
	void acc(const Key &) const {}
	void join() const {}
};

#define KIND(name_, ...)                                                                                               \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		static constexpr bool reduces = false;                                                                         \
		template<class T_, class S_>                                                                                   \
		static void run(const T_ &t, [[maybe_unused]] const S_ &s, Tracker *x) {                                       \
			__VA_ARGS__;                                                                                               \
		}                                                                                                              \
	};
KIND(k_tbb_for_each, noarr::tbb_for_each(t, Visit{x}))
KIND(k_omp_for_each, noarr::omp_for_each(t, Visit{x}))
KIND(k_std_for_each, noarr::std_for_each(t, Visit{x}))
KIND(k_tbb_sections, noarr::tbb_for_sections(t, VisitSection{x}))
KIND(k_omp_sections, noarr::omp_for_sections(t, VisitSection{x}))
KIND(k_std_sections, noarr::std_for_sections(t, VisitSection{x}))
KIND(k_planner_tbb, (noarr::planner(noarr::make_bag(s, static_cast<const void *>(nullptr))) ^ t.get_order()).for_each(Visit{x}) |
                        noarr::planner_tbb_execute())
KIND(k_planner_omp, (noarr::planner(noarr::make_bag(s, static_cast<const void *>(nullptr))) ^ t.get_order()).for_each(Visit{x}) |
                        noarr::planner_omp_execute())
KIND(k_planner_std, (noarr::planner(noarr::make_bag(s, static_cast<const void *>(nullptr))) ^ t.get_order()).for_each(Visit{x}) |
                        noarr::planner_std_execute())
KIND(k_sequential, t.for_each(Visit{x}))

// the accumulate callback reads the cell, runs other operations, and only then writes it
template<class Out>
struct k_reduce {
	static constexpr const char *name = Out::name;
	template<class T_, class S_>
	static void run(const T_ &t, const S_ &, Tracker *x) {
		red::Job<Out> *job;
		{
			const sim::Pause p;
			job = new red::Job<Out>(x->want);
		}
		const auto os = Out::make(job->ext);
		const int op = job->op;
		noarr::tbb_reduce(
			t,
			[op, x](auto st, auto &o) {
				o[st] = red::neutral(op);
				x->start_nested();
			},
			[op, x](auto st, auto &o) {
				const Key k = key_of(st);
				red::V &c = Out::ref(o, st, k);
				const red::V old = c;
				x->visit(k); // may wait for other tasks
				c = red::apply(op, old, red::weight(k));
			},
			[op, x](auto st, auto &l, const auto &r) {
				const red::V old = l[st];
				x->start_nested();
				l[st] = red::apply(op, old, r[st]);
			},
			noarr::make_bag(os, static_cast<void *>(job->buf)));
		{
			const sim::Pause p;
			job->expect_one();
		}
		job->check(Out::name);
		const sim::Pause p;
		delete job;
	}
};
using k_reduce_i = k_reduce<red::out_i>;
using k_reduce_scalar = k_reduce<red::out_scalar>;
using k_reduce_hist = k_reduce<red::out_hist>;

template<class Case, class Kind>
struct Op {
	template<class T, class S>
	struct Again {
		const T *t;
		const S *s;
		const Space *m;
		static void run(void *p, int depth) {
			const auto &a = *static_cast<Again *>(p);
			perform<Again>(a, depth);
		}
	};
	template<class Ag>
	[[gnu::noinline]] static void perform(const Ag &a, int depth) {
		Tracker *x;
		{
			const sim::Pause p;
			x = new Tracker(depth, *a.m);
			x->again = &Ag::run;
			x->again_arg = const_cast<Ag *>(&a);
		}
		Kind::run(*a.t, *a.s, x);
		x->finish(Kind::name);
		const sim::Pause p;
		delete x;
	}
	static void run(int depth) {
		Case::with([depth](const auto &t, const auto &s, const Space &m) {
			using Ag = Again<std::remove_cvref_t<decltype(t)>, std::remove_cvref_t<decltype(s)>>;
			const Ag a{&t, &s, &m};
			{
				const sim::Pause p;
				sim::note("%s%s %s space=%s", std::string(static_cast<std::size_t>(depth), '>').c_str(), Case::name, Kind::name, m.text().c_str());
			}
			if (depth == 0 && sim::param(3) == 0) { // several threads over the same traverser
				struct Arg {
					const Ag *a;
				} arg{&a};
				const auto fn = [](void *p) { perform<Ag>(*static_cast<Arg *>(p)->a, 0); };
				const int n = static_cast<int>(sim::range(1, 2));
				int tids[2];
				for (int i = 0; i < n; i++)
					tids[i] = sim::spawn(fn, &arg);
				fn(&arg);
				for (int i = 0; i < n; i++)
					sim::join(tids[i]);
				sim::probe("several_threads_one_traverser");
			} else
				perform<Ag>(a, depth);
		});
	}
};

inline void other_thread(void *) {
	int op;
	{
		const sim::Pause p;
		op = static_cast<int>(sim::decide(sim::K_DATA, static_cast<std::uint32_t>(table().size())));
		sim::probe("operation_of_another_thread");
	}
	table()[static_cast<std::size_t>(op)].fn(0);
}

template<class Case, class Kind>
struct Scen {
	static void run() {
		world = World{};
		world.budget = static_cast<int>(sim::range(0, 10));
		world.nesting = 1 << sim::range(0, 4);
		world.max_depth = static_cast<int>(sim::range(1, 3));
		const int others = static_cast<int>(sim::param(3));
		int tids[2];
		{
			const sim::Pause p;
			sim::note("%s/%s team=%d, up to %d nested operations, %d other threads; ", Case::name, Kind::name, sim::team(), world.budget, others);
		}
		for (int i = 0; i < others; i++)
			tids[i] = sim::spawn(other_thread, nullptr);
		Op<Case, Kind>::run(0);
		for (int i = 0; i < others; i++)
			sim::join(tids[i]);
		const sim::Pause p;
		if (world.started > 4)
			sim::probe("many_nested_operations");
	}
};

template<class... Cs, class... Ks>
void add_ops(cases::List<Cs...>, cases::List<Ks...>) {
	[&]<std::size_t... I>(std::index_sequence<I...>) {
		(([&] {
			 constexpr std::size_t ne = sizeof...(Ks);
			 if constexpr ((I / ne * 5 + I % ne * 3) % NPARTS == PART) {
				 using C_ = std::tuple_element_t<I / ne, std::tuple<Cs...>>;
				 using K_ = std::tuple_element_t<I % ne, std::tuple<Ks...>>;
				 table().push_back({K_::name, &Op<C_, K_>::run});
			 }
		 }()),
		 ...);
	}(std::make_index_sequence<sizeof...(Cs) * sizeof...(Ks)>());
}

const bool registered = [] {
	using namespace cases;
	scale().typical = 3;
	scale().big = 12;
	using Shapes = List<v1, v1_dyn, v2, v2_hoist, v2_tiles, v2_merge>;
	using Kinds = List<k_tbb_for_each, k_omp_for_each, k_std_for_each, k_tbb_sections, k_omp_sections, k_std_sections, k_planner_tbb,
	                   k_planner_omp, k_planner_std, k_sequential, k_reduce_i, k_reduce_scalar, k_reduce_hist>;
	add_ops(Shapes(), Kinds());
	register_grid<Scen>(Shapes(), Kinds(), 2);
	return true;
}();

} // namespace nest
