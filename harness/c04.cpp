// C04: tbb_reduce equals the sequential fold on every schedule
#include "reduce.hpp"

namespace cases {
// orders that give a dimension of the input another meaning
CASE(red_merge_as_minor, true) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n);
	Space m(4);
	f(traverser(s) ^ merge_blocks<'i', 'j'>(), s, m.vec('j', k).vec('i', n).seal().merge_blocks('i', 'j', 'j'));
}
CASE(red_merge_as_major, true) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n);
	Space m(4);
	f(traverser(s) ^ merge_blocks<'i', 'j', 'i'>(), s, m.vec('j', k).vec('i', n).seal().merge_blocks('i', 'j', 'i'));
}
CASE(red_blocks_as_j, true) { // blocks of i are called j, the output's j is something else
	const auto b = P(1, 4), n = b * L2();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'j', 'b'>(b), s, m.vec('i', n).seal().into_blocks('i', 'j', 'b', b));
}
CASE(red_blocks_as_i, true) { // blocks of i are called i again
	const auto b = P(1, 4), n = b * L2();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'i', 'b'>(b), s, m.vec('i', n).seal().into_blocks('i', 'X', 'b', b).rename('X', 'i'));
}
CASE(red_minor_as_i, true) { // the index within a block is called i and is outermost
	const auto b = P(1, 9), n = b * L3();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'i'>(b) ^ hoist<'i'>(), s,
	  m.vec('i', n).seal().into_blocks('i', 'B', 'X', b).rename('X', 'i').hoist('i'));
}
CASE(red_minor_as_j, true) { // the index within a block is called j and is outermost, the output's j is something else
	const auto b = P(1, 9), n = b * L3();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'j'>(b) ^ hoist<'j'>(), s, m.vec('i', n).seal().into_blocks('i', 'B', 'j', b).hoist('j'));
}
CASE(red_j_top_i_tiled, true) {
	const auto b = P(1, 3), n = b * L3(), k = L2();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ reverse<'j'>(), s,
	  m.vec('i', n).vec('j', k).seal().into_blocks('i', 'B', 'b', b).reverse('j'));
}
using Red = List<red_merge_as_minor, red_merge_as_major, red_blocks_as_j, red_blocks_as_i, red_minor_as_i, red_minor_as_j, red_j_top_i_tiled,
                 v2_swap_names>;
using RedCore = List<v1, v1_dyn, v2, v2_hoist, v2_tiles, matmul>;
} // namespace cases

namespace {

template<class Out, bool Bag>
struct out {
	static constexpr bool bag = Bag;
	using type = Out;
	static constexpr const char *name = Bag ? Out::name : Out::ptr_name;
};

template<class Case, class O>
struct Scen {
	static void run() {
		Case::with([](const auto &t, const auto &, const Space &m) {
			using Out = typename O::type;
			std::vector<Ent> *want;
			red::Job<Out> *job;
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				job = new red::Job<Out>(*want);
				sim::note("%s %s op=%d team=%d space=%s", Case::name, Out::name, job->op, sim::team(), m.text().c_str());
			}
			const int rounds = sim::param(4) == 0 ? 2 : 1;
			for (int r = 0; r < rounds; r++) {
				red::reduce<Out, O::bag>(t, job->ext, job->op, job->buf, red::NoHook());
				{
					const sim::Pause p;
					job->expect_one();
				}
				job->check(Out::name);
			}
			const sim::Pause p;
			if (want->empty())
				sim::probe("empty_input");
			if (m.top_len() > sim::team())
				sim::probe("more_sections_than_workers");
			delete job;
			delete want;
		});
	}
};

using namespace red;
const bool registered = [] {
	scale().huge = 200;
	register_grid<Scen>(cases::All(), cases::List<out<out_i, true>>(), 2);
	register_grid<Scen>(cases::TwoD(), cases::List<out<out_j, false>>(), 2);
	register_grid<Scen>(cases::RedCore(),
	                    cases::List<out<out_ij, true>, out<out_ji_rev, true>, out<out_scalar, false>, out<out_hist, true>,
	                                out<out_tuple_i, true>, out<out_blocked_i, true>, out<out_unrelated_B, true>, out<out_hetero, true>, out<out_hetero, false>, out<out_hetero2, true>>(),
	                    3);
	register_grid<Scen>(cases::Red(), cases::List<out<out_j, true>, out<out_i, false>, out<out_ij, true>>(), 3);
	return true;
}();

} // namespace
