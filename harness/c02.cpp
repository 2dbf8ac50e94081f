// C02: parallel for_sections hands out whole, disjoint, complete sections
#include "endless.hpp"
#include "visit.hpp"

#include <noarr/structures/interop/omp.hpp>
#include <noarr/structures/interop/std_para.hpp>
#include <noarr/structures/interop/tbb.hpp>

namespace {

struct Call { // one call of the section callback
	bool ended = false;
	std::vector<Key> keys;
};

struct Ctx {
	std::vector<Call> calls;
	const hist::Cells *cells;
	int mode;
	bool returned = false;
};

struct OnSection {
	Ctx *x;
	std::size_t enter() const {
		const sim::Pause p;
		if (x->returned)
			sim::fail("returned_early", "section callback started after return");
		x->calls.emplace_back();
		sim::rec(hist::SEC, static_cast<i64>(x->calls.size()));
		return x->calls.size() - 1;
	}
	void elem(std::size_t id, const Key &k) const {
		{
			const sim::Pause p;
			x->calls[id].keys.push_back(k);
			hist::rec_key(hist::SEC_ELEM, k);
		}
		if (int *c = x->cells->cell(k))
			*c = *c + 1;
		sim::step(1);
	}
	template<class T>
	void operator()(const T &section) const {
		const std::size_t id = enter();
		const auto visit = [&](auto st) { elem(id, key_of(st)); };
		if (x->mode == 0) {
			section.for_each(visit);
		} else if (x->mode == 1) { // through a copy and the pipe syntax
			const auto copy = section;
			copy | noarr::for_each(visit);
		} else { // innermost sections
			section.for_sections([&](const auto &leaf) { visit(leaf.state()); });
		}
		const sim::Pause p;
		x->calls[id].ended = true;
	}
};

#define EXEC(name_, ...)                                                                                               \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		template<class T_, class F_>                                                                                   \
		static void run(const T_ &t, const F_ &f) __VA_ARGS__                                                          \
	};

EXEC(tbb_for_sections, { noarr::tbb_for_sections(t, f); })
EXEC(omp_for_sections, { noarr::omp_for_sections(t, f); })
EXEC(std_for_sections, { noarr::std_for_sections(t, f); })
EXEC(tbb_range_loop, {
	tbb::parallel_for(
		t.range(),
		[&f](const auto &r) {
			for (auto section : r)
				f(section);
		},
		tbb::simple_partitioner());
})
EXEC(tbb_range_subscript, {
	tbb::parallel_for(t.range(), [&f](const auto &r) {
		for (std::size_t x = r.size(); x-- > 0;)
			f(r[x]);
	});
})
struct omp_monotonic {
	static constexpr const char *name = "omp_monotonic";
	template<class T_, class F_>
	static void run(const T_ &t, const F_ &f) {
#pragma omp parallel for schedule(dynamic)
		for (auto section : t)
			f(section);
	}
};

using Main = cases::List<tbb_for_sections, omp_for_sections, std_for_sections>;
using User = cases::List<tbb_range_loop, tbb_range_subscript, omp_monotonic>;

template<class Case, class Exec>
struct Scen {
	static void run() {
		Case::with([](const auto &t, const auto &, const Space &m) {
			Ctx *x;
			std::vector<Ent> *want;
			hist::Cells *cells;
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				cells = new hist::Cells(*want);
				x = new Ctx();
				x->calls.reserve(4096);
				x->cells = cells;
				sim::note("%s %s team=%d space=%s", Case::name, Exec::name, sim::team(), m.text().c_str());
			}
			x->mode = sim::param(3);
			Exec::run(t, OnSection{x});
			if (cells->sum() != static_cast<i64>(want->size()))
				sim::probe("sum_mismatch");
			const auto at_return = sim::events();
			{
				const sim::Pause p;
				x->returned = true;
				std::vector<std::vector<Key>> got;
				std::vector<std::vector<Key>> exp;
				std::vector<Key> all;
				for (auto &c : x->calls) {
					if (!c.ended)
						sim::fail("returned_early", "%s: returned while a section callback was running", Exec::name);
					all.insert(all.end(), c.keys.begin(), c.keys.end());
					std::sort(c.keys.begin(), c.keys.end());
					got.push_back(c.keys);
				}
				hist::compare(all, hist::keys(*want), Exec::name);
				for (i64 s = 0; s < m.top_len(); s++) {
					exp.push_back(hist::keys(m.section(s)));
					std::sort(exp.back().begin(), exp.back().end());
				}
				std::sort(got.begin(), got.end());
				std::sort(exp.begin(), exp.end());
				if (got.size() != exp.size())
					sim::fail("section_count", "%s: %zu section callbacks for %zu sections", Exec::name, got.size(), exp.size());
				if (got != exp)
					sim::fail("section_content", "%s: sections do not consist of the elements of one outer index each", Exec::name);
				if (exp.empty())
					sim::probe("no_section");
				else if (exp.front().empty())
					sim::probe("empty_section");
			}
			hist::drain();
			if (sim::events() != at_return)
				sim::fail("returned_early", "%s: callback started after return", Exec::name);
			if (m.top_len() < sim::team())
				sim::probe("fewer_sections_than_workers");
		});
	}
};

template<class E>
struct on_endless {
	static constexpr const char *name = E::name;
	static void run(const auto &t, const auto &, const endless::Visitor &v) {
		if (sim::param(2))
			E::run(t, [v](const auto &section) { section.for_each(v); });
		else
			E::run(t, [v](auto section) { section.for_sections([&](const auto &leaf) { v.see(key_of(leaf.state())); }); });
	}
};

const bool registered = [] {
	scale().huge = 200;
	register_grid<Scen>(cases::All(), Main(), 3);
	register_grid<Scen>(cases::Huge(), Main(), 3);
	register_grid<Scen>(cases::Core(), User(), 2);
	register_grid<endless::Scen>(endless::All(), cases::List<on_endless<tbb_for_sections>, on_endless<omp_for_sections>, on_endless<std_for_sections>>(), 2);
	return true;
}();

} // namespace
