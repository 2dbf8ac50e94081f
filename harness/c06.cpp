// C06: exceptions thrown by callbacks cancel a TBB operation cleanly
#include "reduce.hpp"

#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/planner_iter.hpp>

#include <stdexcept>

namespace {

enum : std::uint32_t { THREW = 32 };

struct Boom : std::runtime_error {
	int id;
	explicit Boom(int id) : std::runtime_error("injected"), id(id) {}
};

// when callbacks throw: at chosen positions of the (nondeterministic) sequence of callback calls, at chosen indices, or
// both; after `delay` more steps, so that several may be on their way at the same time
struct Plan {
	bool armed = false;
	int mode = 0;
	int at[3] = {0, 0, 0}; // 1-based call numbers
	std::uint32_t modulus = 0, residue = 0;
	int calls = 0;
	int thrown = 0;
	int late = 0; // yields between deciding to throw and throwing

	void draw(std::size_t expected_calls) {
		const auto n = static_cast<std::uint32_t>(std::min<std::size_t>(expected_calls, 400) + 1);
		mode = static_cast<int>(sim::decide(sim::K_FAULT, 4));
		for (int &x : at)
			x = static_cast<int>(1 + sim::decide(sim::K_FAULT, n));
		modulus = 1 + sim::decide(sim::K_FAULT, 7);
		residue = sim::decide(sim::K_FAULT, modulus);
		late = static_cast<int>(sim::decide(sim::K_FAULT, 3));
	}
	bool hits(const Key &k, int call) const {
		switch (mode) {
		case 0: return call == at[0];
		case 1: return call == at[0] || call == at[1] || call == at[2];
		case 2: return call >= at[0]; // everything from then on
		default: return static_cast<std::uint32_t>(red::weight(k)) % modulus == residue;
		}
	}
	[[gnu::noinline]] void maybe(const Key &k) {
		bool hit;
		{
			const sim::Pause p;
			hit = armed && hits(k, ++calls);
			if (hit)
				thrown++;
		}
		if (!hit)
			return;
		for (int i = 0; i < late; i++)
			sim::yield();
		int id;
		{
			const sim::Pause p;
			sim::fault_fired(sim::F_THROW);
			id = static_cast<int>(sim::events()) + 1;
			sim::rec(THREW, id);
		}
		throw Boom(id);
	}
};

// number of callbacks entered and not left (by any means)
struct Depth {
	int *n;
	explicit Depth(int *n) : n(n) {
		const sim::Pause p;
		++*n;
	}
	~Depth() {
		const sim::Pause p;
		--*n;
	}
};

struct Ctx {
	Plan plan;
	int running = 0;
	const hist::Cells *cells = nullptr;
};

struct Visit {
	Ctx *x;
	template<class St>
	[[gnu::noinline]] void operator()(const St &st) const {
		const Depth d(&x->running);
		const Key k = key_of(st);
		hist::rec_key(hist::BEGIN, k);
		if (int *c = x->cells->cell(k))
			*c = *c + 1;
		sim::step(1);
		x->plan.maybe(k);
	}
};

struct op_for_each {
	static constexpr const char *name = "tbb_for_each";
	static std::size_t calls(const Space &, std::size_t n) { return n; }
	static void run(const auto &t, const auto &, Ctx *x) { noarr::tbb_for_each(t, Visit{x}); }
};
struct op_for_sections {
	static constexpr const char *name = "tbb_for_sections";
	static std::size_t calls(const Space &m, std::size_t n) { return n + m.top_len() * 2; }
	static void run(const auto &t, const auto &, Ctx *x) {
		noarr::tbb_for_sections(t, [x](auto inner) {
			const Depth d(&x->running);
			hist::rec_key(hist::SEC, Key{});
			Key k{};
			k.v[5] = 1;
			x->plan.maybe(k);
			inner.for_each(Visit{x});
			k.v[5] = 2;
			x->plan.maybe(k);
		});
	}
};
struct op_planner {
	static constexpr const char *name = "planner_tbb_execute";
	static std::size_t calls(const Space &, std::size_t n) { return n; }
	static void run(const auto &t, const auto &s, Ctx *x) {
		(noarr::planner(noarr::make_bag(s, static_cast<void *>(nullptr))) ^ t.get_order()).for_each(Visit{x}) | noarr::planner_tbb_execute();
	}
};

template<class Fn>
int caught_by(Fn &&fn) { // id of the exception, 0 = none
	try {
		fn();
	} catch (const Boom &b) {
		return b.id;
	}
	return 0;
}

void judge_throw(int id, std::size_t from, std::size_t at_return, int thrown, const char *what) {
	if ((id != 0) != (thrown != 0))
		sim::fail(id ? "spurious_exception" : "exception_lost", "%s: %d callbacks threw, the caller %s", what, thrown,
		          id ? "got an exception" : "got none");
	if (id) {
		bool ours = false;
		for (std::size_t i = from; i < at_return; i++)
			ours |= sim::event(i).op == THREW && sim::event(i).v[0] == id;
		if (!ours)
			sim::fail("foreign_exception", "%s: the caller got an exception nobody threw", what);
	}
}

template<class Case, class Exec>
struct Scen {
	static void run() {
		Case::with([](const auto &t, const auto &s, const Space &m) {
			std::vector<Ent> *want;
			hist::Cells *cells;
			Ctx *x;
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				cells = new hist::Cells(*want);
				x = new Ctx();
				x->cells = cells;
				x->plan.draw(Exec::calls(m, want->size()));
				x->plan.armed = true;
				sim::note("%s %s team=%d space=%s throw mode=%d at=%d,%d,%d mod=%u/%u", Case::name, Exec::name, sim::team(),
				          m.text().c_str(), x->plan.mode, x->plan.at[0], x->plan.at[1], x->plan.at[2], x->plan.residue,
				          x->plan.modulus);
			}
			const auto from = sim::events();
			const auto mark = sim::alloc_mark();
			const int id = caught_by([&] { Exec::run(t, s, x); });
			const auto at_return = sim::events();
			if (x->running)
				sim::fail("returned_early", "%s: returned while %d callbacks were running", Exec::name, x->running);
			cells->sum();
			{
				const sim::Pause p;
				judge_throw(id, from, at_return, x->plan.thrown, Exec::name);
				std::vector<Key> got, exp = hist::keys(*want);
				for (std::size_t i = from; i < at_return; i++)
					if (sim::event(i).op == hist::BEGIN)
						got.push_back(hist::ev_key(sim::event(i)));
				if (!id)
					hist::compare(got, exp, Exec::name);
				std::sort(got.begin(), got.end());
				std::sort(exp.begin(), exp.end());
				for (std::size_t i = 0; i < got.size(); i++) {
					if (i && got[i - 1] == got[i])
						sim::fail("visited_twice", "%s: index %s visited twice", Exec::name, model::show(got[i]).c_str());
					if (!std::binary_search(exp.begin(), exp.end(), got[i]))
						sim::fail("visited_foreign", "%s: index %s is not in the index set", Exec::name, model::show(got[i]).c_str());
				}
				if (x->plan.thrown > 1)
					sim::probe("several_callbacks_threw");
				if (id && got.size() == exp.size())
					sim::probe("thrown_by_last");
				if (id && got.size() == 1)
					sim::probe("thrown_by_first");
			}
			hist::drain();
			if (sim::events() != at_return)
				sim::fail("returned_early", "%s: callback started after return", Exec::name);
			if (const auto n = sim::live_blocks_since(mark))
				sim::fail("leak", "%s: %zu blocks still allocated after the exception", Exec::name, n);
			// the inputs are still usable
			x->plan.armed = false;
			const auto from2 = sim::events();
			const int id2 = caught_by([&] { Exec::run(t, s, x); });
			if (id2)
				sim::fail("spurious_exception", "%s: exception in the repeated run", Exec::name);
			const sim::Pause p;
			std::vector<Key> got;
			for (std::size_t i = from2; i < sim::events(); i++)
				if (sim::event(i).op == hist::BEGIN)
					got.push_back(hist::ev_key(sim::event(i)));
			hist::compare(got, hist::keys(*want), "repeated run");
			delete x;
			delete cells;
			delete want;
		});
	}
};

// ---- tbb_reduce ----
struct Hook {
	Ctx *x;
	bool in_neut, in_acc, in_join;
	void neut() const {
		const Depth d(&x->running);
		sim::step(1);
		if (in_neut)
			x->plan.maybe(Key{{7, 7, 7, 7, 7, 7}});
	}
	void acc(const Key &k) const {
		const Depth d(&x->running);
		hist::rec_key(hist::BEGIN, k);
		sim::step(1);
		if (in_acc)
			x->plan.maybe(k);
	}
	void join() const {
		const Depth d(&x->running);
		sim::step(1);
		if (in_join)
			x->plan.maybe(Key{{8, 8, 8, 8, 8, 8}});
	}
};

template<class Out, bool Bag>
struct red_op {
	static constexpr bool bag = Bag;
	using type = Out;
	static constexpr const char *name = Bag ? Out::name : Out::ptr_name;
};

template<class Case, class O>
struct RedScen {
	static void run() {
		Case::with([](const auto &t, const auto &, const Space &m) {
			using Out = typename O::type;
			std::vector<Ent> *want;
			red::Job<Out> *job;
			Ctx *x;
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				job = new red::Job<Out>(*want);
				x = new Ctx();
			}
			const int where = static_cast<int>(sim::decide(sim::K_FAULT, 4)); // 0 neut, 1 acc, 2 join, 3 neut and acc
			const Hook h{x, where == 0 || where == 3, where == 1 || where == 3, where == 2};
			const std::size_t cells = static_cast<std::size_t>(job->n);
			{
				const sim::Pause p;
				x->plan.draw(where == 1 ? want->size() : where == 3 ? want->size() + 2 * cells : cells * std::min(sim::team(), 3));
				x->plan.armed = true;
				sim::note("%s tbb_reduce %s team=%d space=%s throw in=%d mode=%d at=%d,%d,%d mod=%u/%u", Case::name, O::name,
				          sim::team(), m.text().c_str(), where, x->plan.mode, x->plan.at[0], x->plan.at[1], x->plan.at[2],
				          x->plan.residue, x->plan.modulus);
			}
			const auto from = sim::events();
			const auto mark = sim::alloc_mark();
			const int id = caught_by([&] { red::reduce<Out, O::bag>(t, job->ext, job->op, job->buf, h); });
			const auto at_return = sim::events();
			if (x->running)
				sim::fail("returned_early", "tbb_reduce: returned while %d callbacks were running", x->running);
			{
				const sim::Pause p;
				judge_throw(id, from, at_return, x->plan.thrown, "tbb_reduce");
				std::vector<Key> got;
				for (std::size_t i = from; i < at_return; i++)
					if (sim::event(i).op == hist::BEGIN)
						got.push_back(hist::ev_key(sim::event(i)));
				std::sort(got.begin(), got.end());
				for (std::size_t i = 1; i < got.size(); i++)
					if (got[i - 1] == got[i])
						sim::fail("visited_twice", "tbb_reduce: index %s accumulated twice", model::show(got[i]).c_str());
				if (!id)
					job->expect_one();
				if (id && where == 2)
					sim::probe("join_threw");
				if (id && where == 0)
					sim::probe("neutral_threw");
			}
			if (id == 0 || where != 2)
				job->check(id ? "after an exception" : "no exception");
			hist::drain();
			if (sim::events() != at_return)
				sim::fail("returned_early", "tbb_reduce: callback started after return");
			if (const auto n = sim::live_blocks_since(mark))
				sim::fail("leak", "tbb_reduce: %zu blocks still allocated after the exception", n);
			x->plan.armed = false;
			{
				const sim::Pause p;
				for (i64 i = 0; i < job->n; i++)
					job->buf[i] = job->ref[i] = i - 5;
				job->expect_one();
			}
			if (caught_by([&] { red::reduce<Out, O::bag>(t, job->ext, job->op, job->buf, h); }))
				sim::fail("spurious_exception", "tbb_reduce: exception in the repeated run");
			job->check("repeated run");
			const sim::Pause p;
			delete x;
			delete job;
			delete want;
		});
	}
};

using namespace red;
using Plannable = cases::List<cases::v1, cases::v1_dyn, cases::v2, cases::v2_tiles, cases::v2_merge, cases::v3, cases::v1_blk, cases::lay_blocked>;
const bool registered = [] {
	sim::options().leak_is_violation = true;
	register_grid<Scen>(cases::Cat<cases::Core, cases::List<cases::v1_span_rev, cases::v2_bcast, cases::v3_merge_tile, cases::v2_zcurve, cases::lay_tiled>>::type(),
	                    cases::List<op_for_each, op_for_sections>(), 3);
	register_grid<Scen>(Plannable(), cases::List<op_planner>(), 3);
	register_grid<RedScen>(cases::Core(),
	                       cases::List<red_op<out_scalar, true>, red_op<out_hist, false>, red_op<out_unrelated_B, true>>(), 4);
	return true;
}();

} // namespace
