// C01: parallel for_each visits every index exactly once and then returns
#include "endless.hpp"
#include "exec_for_each.hpp"
#include "visit.hpp"

template<class Case, class Exec>
struct Scen {
	static void run() {
		Case::with([](const auto &t, const auto &, const Space &m) {
			std::vector<Ent> *want;
			hist::Cells *cells;
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				cells = new hist::Cells(*want);
				sim::note("%s %s team=%d space=%s", Case::name, Exec::name, sim::team(), m.text().c_str());
			}
			const int rounds = sim::param(4) == 0 ? 2 : 1;
			for (int r = 0; r < rounds; r++) {
				const auto from = sim::events();
				Exec::run(t, hist::Visitor{cells});
				if (cells->sum() != static_cast<i64>(want->size()) * (r + 1))
					sim::probe("sum_mismatch");
				hist::check_complete(from, *want, Exec::name);
			}
			if (want->empty())
				sim::probe("empty_space");
			if (want->size() > 300)
				sim::probe("large_space");
			if (m.top_len() < sim::team())
				sim::probe("fewer_sections_than_workers");
		});
	}
};

template<class E>
struct on_endless {
	static constexpr const char *name = E::name;
	static void run(const auto &t, const auto &, const endless::Visitor &v) { E::run(t, v); }
};
template<class L>
struct Endless;
template<class... Es>
struct Endless<cases::List<Es...>> {
	using type = cases::List<on_endless<Es>...>;
};

static const bool registered = [] {
	scale().huge = 100;
	register_grid<Scen>(cases::All(), exec::Main(), 3);
	register_grid<Scen>(cases::Huge(), exec::Main(), 3);
	register_grid<Scen>(cases::Core(), exec::User(), 2);
	register_grid<endless::Scen>(endless::All(), Endless<exec::Main>::type(), 2);
	register_grid<endless::Scen>(cases::List<endless::e_top, endless::e_inner>(), Endless<exec::User>::type(), 2);
	return true;
}();
