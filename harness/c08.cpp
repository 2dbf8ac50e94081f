// C08: parallel planner execution equals sequential execution
#include "endless.hpp"
#include "owner.hpp"

#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/omp.hpp>
#include <noarr/structures/interop/planner_iter.hpp>
#include <noarr/structures/interop/std_para.hpp>
#include <noarr/structures/interop/tbb.hpp>

namespace {

#define RUNNER(name_, ...)                                                                                             \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		template<class P_>                                                                                             \
		static void run(const P_ &p) {                                                                                 \
			__VA_ARGS__;                                                                                               \
		}                                                                                                              \
	};
RUNNER(seq, p.execute())
RUNNER(tbb_exec, p | noarr::planner_tbb_execute())
RUNNER(omp_exec, p | noarr::planner_omp_execute())
RUNNER(std_exec, p | noarr::planner_std_execute())
RUNNER(tbb_user_range, tbb::parallel_for(
	range(p), [](const auto &r) {
		for (auto inner : r)
			inner();
	}, tbb::simple_partitioner()))
struct omp_user {
	static constexpr const char *name = "omp_user";
	template<class P_>
	static void run(const P_ &p) {
		const auto r = range(p);
#pragma omp parallel for schedule(dynamic, 1)
		for (auto it = r.begin(); it < r.end(); ++it)
			(*it) | noarr::planner_execute();
	}
};
using Runners = cases::List<tbb_exec, omp_exec, std_exec>;

// ---- one structure ----
template<class R>
struct on_states {
	static constexpr const char *name = R::name;
	template<class T, class S>
	static void run(const T &t, const S &s, const Space &m, const char *nm) {
		std::vector<Ent> *want;
		hist::Cells *cells;
		{
			const sim::Pause p;
			want = new std::vector<Ent>(m.all());
			cells = new hist::Cells(*want);
			sim::note("%s for_each %s team=%d space=%s", nm, R::name, sim::team(), m.text().c_str());
		}
		const auto from = sim::events();
		if (sim::param(2))
			R::run((noarr::planner(noarr::make_bag(s, static_cast<void *>(nullptr))) ^ t.get_order()).for_each(hist::Visitor{cells}));
		else
			R::run(noarr::planner(noarr::make_bag(s, static_cast<const void *>(nullptr))).for_each(hist::Visitor{cells}) ^ t.get_order());
		cells->sum();
		hist::check_complete(from, *want, R::name);
		const sim::Pause p;
		delete cells;
		delete want;
	}
};

template<class R>
struct on_elems { // owner-computes through the reference the planner passes
	static constexpr const char *name = R::name;
	template<class T, class S>
	static void run(const T &t, const S &s, const Space &m, const char *nm) {
		std::vector<Ent> *want;
		unsigned char *buf;
		const std::size_t size = s | noarr::get_size();
		const auto salt = sim::decide(sim::K_DATA, 1000);
		{
			const sim::Pause p;
			want = new std::vector<Ent>(m.all());
			buf = static_cast<unsigned char *>(sim::buffer(size, own::FILL));
			sim::note("%s for_each_elem %s team=%d space=%s", nm, R::name, sim::team(), m.text().c_str());
		}
		const auto from = sim::events();
		R::run((noarr::planner(noarr::make_bag(s, static_cast<void *>(buf))) ^ t.get_order()).for_each_elem([=](const auto &st, auto &e) {
			own::write(e, key_of(st), salt, buf);
		}));
		own::check(from, *want, m.exact, buf, size, salt, R::name);
		const sim::Pause p;
		sim::buffer_free(buf);
		delete want;
	}
};

template<class Case, class Exec>
struct Scen {
	static void run() {
		Case::with([](const auto &t, const auto &s, const Space &m) { Exec::run(t, s, m, Case::name); });
	}
};

// ---- several structures: matrix product ----
struct row { // layout of a matrix with the first dimension slowest
	static constexpr const char *name = "row";
	template<char X, char Y>
	static auto make(std::size_t x, std::size_t y) {
		return scalar<int>() ^ vectors<Y, X>(y, x);
	}
	static i64 at(i64 x, i64 y, i64, i64 ny) { return x * ny + y; }
};
struct col {
	static constexpr const char *name = "col";
	template<char X, char Y>
	static auto make(std::size_t x, std::size_t y) {
		return scalar<int>() ^ vectors<X, Y>(x, y);
	}
	static i64 at(i64 x, i64 y, i64 nx, i64) { return y * nx + x; }
};
struct tiled { // pairs of rows interleaved; an even number of rows is allocated
	static constexpr const char *name = "tiled";
	template<char X, char Y>
	static auto make(std::size_t x, std::size_t y) {
		return scalar<int>() ^ vectors<'!', Y, '?'>(std::size_t(2), y, (x + 1) / 2) ^ merge_blocks<'?', '!', X>() ^
		       slice<X>(std::size_t(0), x);
	}
	static i64 at(i64 x, i64 y, i64, i64 ny) { return (x / 2 * ny + y) * 2 + x % 2; }
};

template<class La, class Lb, class Lc>
struct Mats {
	i64 n, k, q;
	int *a, *b, *c;
	std::size_t ca, cb, cc;
	Mats() {
		n = static_cast<i64>(L3()), k = static_cast<i64>(L3()), q = static_cast<i64>(L3());
		if (scale().huge && sim::decide_as(sim::K_PARAM, 2, sim::rnd() % scale().huge == 0)) { // tall and thin
			n = (1 << (9 + sim::param(5))) + sim::param(512);
			k = sim::param(4), q = sim::param(3);
			sim::probe("length_over_512");
		}
		auto A1 = sa();
		auto B1 = sb();
		auto C1 = sc();
		ca = A1 | noarr::get_size(), cb = B1 | noarr::get_size(), cc = C1 | noarr::get_size();
		a = static_cast<int *>(sim::buffer(ca, 0));
		b = static_cast<int *>(sim::buffer(cb, 0));
		c = static_cast<int *>(sim::buffer(cc, 0));
		const sim::Pause p;
		for (std::size_t i = 0; i < ca / 4; i++)
			a[i] = static_cast<int>(i * 7 % 23) - 5;
		for (std::size_t i = 0; i < cb / 4; i++)
			b[i] = static_cast<int>(i * 5 % 19) - 4;
		for (std::size_t i = 0; i < cc / 4; i++)
			c[i] = static_cast<int>(i);
	}
	~Mats() {
		sim::buffer_free(a);
		sim::buffer_free(b);
		sim::buffer_free(c);
	}
	auto sa() const { return La::template make<'i', 'k'>(n, q); }
	auto sb() const { return Lb::template make<'k', 'j'>(q, k); }
	auto sc() const { return Lc::template make<'i', 'j'>(n, k); }
	auto plan() const {
		return noarr::planner(noarr::make_bag(sa(), static_cast<const void *>(a)), noarr::make_bag(sb(), static_cast<const void *>(b)),
		                      noarr::make_bag(sc(), static_cast<void *>(c)));
	}
	i64 ia(i64 i, i64 z) const { return La::at(i, z, n, q); }
	i64 ib(i64 z, i64 j) const { return Lb::at(z, j, q, k); }
	i64 ic(i64 i, i64 j) const { return Lc::at(i, j, n, k); }
	std::vector<Key> keys() const {
		std::vector<Key> w;
		for (i64 i = 0; i < n; i++)
			for (i64 j = 0; j < k; j++)
				for (i64 z = 0; z < q; z++)
					w.push_back(Key{{i, j, z, -1, -1, -1}});
		return w;
	}
	// c after adding the product
	void check_product() const {
		i64 t = 0;
		for (std::size_t i = 0; i < cc / 4; i++)
			t += c[i];
		sim::mix(static_cast<std::uint64_t>(t));
		const sim::Pause p;
		std::vector<int> ref(cc / 4);
		for (std::size_t i = 0; i < ref.size(); i++)
			ref[i] = static_cast<int>(i);
		for (i64 i = 0; i < n; i++)
			for (i64 j = 0; j < k; j++)
				for (i64 z = 0; z < q; z++)
					ref[ic(i, j)] += a[ia(i, z)] * b[ib(z, j)];
		for (std::size_t i = 0; i < ref.size(); i++)
			if (c[i] != ref[i])
				sim::fail("wrong_result", "element %zu of the product is %d, expected %d", i, c[i], ref[i]);
	}
};

// the references passed must be the elements at the state
template<class M>
struct Elem3 {
	const M *m;
	void operator()(const auto &st, const int &a, const int &b, int &c) const {
		const Key k = key_of(st);
		hist::rec_key(hist::BEGIN, k);
		if (&a - m->a != m->ia(k.v[0], k.v[2]) || &b - m->b != m->ib(k.v[2], k.v[1]) || &c - m->c != m->ic(k.v[0], k.v[1]))
			sim::fail("wrong_element", "at %s the planner passed elements %lld %lld %lld", model::show(k).c_str(), (long long)(&a - m->a),
			          (long long)(&b - m->b), (long long)(&c - m->c));
		sim::mix(static_cast<std::uint64_t>(a * 31 + b));
		sim::step(1);
		hist::rec_key(hist::END, k);
	}
};

enum : std::uint32_t { S_IN = 40, S_OUT = 41 };

// entering sections: every section once, every element inside a section of its own index
struct NestOracle {
	std::uint32_t level;
};

template<class P>
struct Enter {
	int level;
	P after;
	template<class Inner>
	[[gnu::noinline]] void operator()(Inner inner) const {
		const Key k = key_of(inner.state());
		sim::rec(S_IN, level, k.v[0], k.v[1], k.v[2]);
		sim::step(1);
		after(inner);
		sim::rec(S_OUT, level, k.v[0], k.v[1], k.v[2]);
	}
};
struct call_it {
	void operator()(const auto &inner) const { inner(); }
};
struct execute_it {
	void operator()(const auto &inner) const { inner | noarr::planner_execute(); }
};

// expected sections per level as (i, j) with -1 for indices not yet known
void check_nesting(std::size_t from, std::vector<std::vector<std::pair<i64, i64>>> want, const char *what) {
	const sim::Pause p;
	std::vector<std::vector<std::pair<i64, i64>>> got(want.size());
	std::map<int, std::vector<std::array<i64, 4>>> open;
	for (std::size_t x = from; x < sim::events(); x++) {
		const auto &e = sim::event(x);
		auto &st = open[e.tid];
		if (e.op == S_IN) {
			if (static_cast<std::size_t>(e.v[0]) != st.size())
				sim::fail("nesting", "%s: section of level %lld entered inside %zu sections", what, (long long)e.v[0], st.size());
			got[e.v[0]].emplace_back(e.v[1], e.v[2]);
			if (!st.empty() && ((st.back()[1] >= 0 && st.back()[1] != e.v[1]) || (st.back()[2] >= 0 && st.back()[2] != e.v[2])))
				sim::fail("nesting", "%s: section entered inside a section of another index", what);
			st.push_back({e.v[0], e.v[1], e.v[2], e.v[3]});
		} else if (e.op == S_OUT)
			st.pop_back();
		else if (e.op == hist::BEGIN) {
			if (st.size() != want.size())
				sim::fail("nesting", "%s: element outside of its %zu sections", what, want.size());
			if ((st.back()[1] >= 0 && st.back()[1] != e.v[0]) || (st.back()[2] >= 0 && st.back()[2] != e.v[1]))
				sim::fail("nesting", "%s: element inside a section of another index", what);
		}
	}
	for (std::size_t l = 0; l < want.size(); l++) {
		std::sort(got[l].begin(), got[l].end());
		std::sort(want[l].begin(), want[l].end());
		if (got[l] != want[l])
			sim::fail("sections", "%s: level %zu: %zu section calls, expected %zu%s", what, l, got[l].size(), want[l].size(),
			          got[l].size() == want[l].size() ? " others" : "");
	}
}

void check_keys(std::size_t from, const std::vector<Key> &want, const char *what) {
	const auto now = sim::events();
	{
		const sim::Pause p;
		std::vector<Key> got;
		std::size_t nb = 0, ne = 0;
		for (std::size_t i = from; i < now; i++) {
			const auto &e = sim::event(i);
			if (e.op == hist::BEGIN)
				got.push_back(hist::ev_key(e)), nb++;
			else if (e.op == hist::END)
				ne++;
		}
		if (nb != ne)
			sim::fail("returned_early", "%s: returned while callbacks were running", what);
		hist::compare(got, want, what);
	}
	hist::drain();
	if (sim::events() != now)
		sim::fail("returned_early", "%s: callback after return", what);
}

std::vector<std::pair<i64, i64>> all_i(i64 n) {
	std::vector<std::pair<i64, i64>> v;
	for (i64 i = 0; i < n; i++)
		v.emplace_back(i, -1);
	return v;
}
std::vector<std::pair<i64, i64>> all_j(i64 n) {
	std::vector<std::pair<i64, i64>> v;
	for (i64 i = 0; i < n; i++)
		v.emplace_back(-1, i);
	return v;
}
std::vector<std::pair<i64, i64>> all_ij(i64 n, i64 k) {
	std::vector<std::pair<i64, i64>> v;
	for (i64 i = 0; i < n; i++)
		for (i64 j = 0; j < k; j++)
			v.emplace_back(i, j);
	return v;
}

// workloads over three matrices: run<R>(mats) checks everything itself
#define WORK(name_)                                                                                                    \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		template<class R, class M>                                                                                     \
		static void run(const M &m);                                                                                   \
	};                                                                                                                 \
	template<class R, class M>                                                                                         \
	void name_::run(const M &m)

WORK(elems_k_top) { // any dimension may be the parallel one when elements are only read
	R::run(m.plan().for_each_elem(Elem3<M>{&m}) ^ hoist<'k'>());
}
WORK(elems_plain) { R::run(m.plan() ^ noarr::for_each_elem(Elem3<M>{&m})); }
WORK(elems_tiled) { // i in blocks of 2 or 3, the last one incomplete
	const auto b = P(1, 3);
	R::run(m.plan().for_each_elem(Elem3<M>{&m}) ^ strip_mine_dynamic<'i', 'B', 'b', 'p'>(b) ^ hoist<'j'>());
}
WORK(elems_merged) {
	R::run(m.plan().for_each_elem(Elem3<M>{&m}) ^ merge_blocks<'i', 'j', 'z'>() ^ hoist<'z'>());
}
WORK(elems_reversed) { R::run(m.plan().for_each_elem(Elem3<M>{&m}) ^ hoist<'j'>() ^ reverse<'j'>() ^ reverse<'k'>()); }

template<class M>
struct MulAdd {
	void operator()(const auto &st, const int &a, const int &b, int &c) const {
		const Key k = key_of(st);
		hist::rec_key(hist::BEGIN, k);
		c += a * b;
		sim::step(1);
		hist::rec_key(hist::END, k);
	}
};
struct MulAddPlain {
	void operator()(const int &a, const int &b, int &c) const {
		c += a * b;
		sim::step(1);
	}
};

template<class R, class M, class W>
struct MulScen;

struct mul_i {
	static constexpr const char *name = "mul_i";
	static constexpr bool records = true;
	template<class R, class M>
	static void run(const M &m) {
		R::run(m.plan().for_each_elem(MulAdd<M>()) ^ hoist<'i'>());
	}
	static std::vector<std::vector<std::pair<i64, i64>>> sections(i64, i64) { return {}; }
};
struct mul_plain_j { // callback without a state
	static constexpr const char *name = "mul_plain_j";
	static constexpr bool records = false;
	template<class R, class M>
	static void run(const M &m) {
		R::run(m.plan().for_each_elem(MulAddPlain()) ^ hoist<'j'>());
	}
	static std::vector<std::vector<std::pair<i64, i64>>> sections(i64, i64) { return {}; }
};
struct mul_for_dims {
	static constexpr const char *name = "mul_for_dims";
	static constexpr bool records = true;
	template<class R, class M>
	static void run(const M &m) {
		R::run(m.plan() ^ noarr::for_each_elem(MulAdd<M>()) ^ noarr::for_dims<'i', 'j'>(Enter<call_it>{0, {}}));
	}
	static std::vector<std::vector<std::pair<i64, i64>>> sections(i64 n, i64 k) { return {all_ij(n, k)}; }
};
struct mul_sections_i_j {
	static constexpr const char *name = "mul_sections_i_j";
	static constexpr bool records = true;
	template<class R, class M>
	static void run(const M &m) {
		R::run(m.plan()
		           .for_each_elem(MulAdd<M>())
		           .template for_sections<'i'>(Enter<execute_it>{0, {}})
		           .template for_sections<'i', 'j'>(Enter<call_it>{1, {}}) ^
		       reorder<'i', 'j', 'k'>());
	}
	static std::vector<std::vector<std::pair<i64, i64>>> sections(i64 n, i64 k) { return {all_i(n), all_ij(n, k)}; }
};
struct mul_sections_j_rev {
	static constexpr const char *name = "mul_sections_j_rev";
	static constexpr bool records = true;
	template<class R, class M>
	static void run(const M &m) {
		R::run((m.plan() ^ hoist<'j'>() ^ reverse<'j'>()).for_each_elem(MulAdd<M>()).template for_sections<'j'>(Enter<call_it>{0, {}}));
	}
	static std::vector<std::vector<std::pair<i64, i64>>> sections(i64, i64 k) { return {all_j(k)}; }
};
struct mul_sections_tiled { // a section per row although the parallel loop is over pairs of rows
	static constexpr const char *name = "mul_sections_tiled";
	static constexpr bool records = true;
	template<class R, class M>
	static void run(const M &m) {
		const auto b = P(1, 4);
		R::run(m.plan().for_each_elem(MulAdd<M>()).template for_sections<'i'>(Enter<call_it>{0, {}}) ^
		       slice<'i'>(std::size_t(0), static_cast<std::size_t>(m.n) / b * b) ^ into_blocks<'i', 'B', 'b'>(b) ^
		       hoist<'b'>() ^ hoist<'B'>());
		if (m.n % static_cast<i64>(b)) // the remaining rows
			R::run(m.plan().for_each_elem(MulAdd<M>()).template for_sections<'i'>(Enter<call_it>{0, {}}) ^ hoist<'i'>() ^
			       shift<'i'>(static_cast<std::size_t>(m.n) / b * b));
	}
	static std::vector<std::vector<std::pair<i64, i64>>> sections(i64 n, i64) { return {all_i(n)}; }
};
template<class M>
struct build_inside {
	void operator()(const auto &inner) const { (inner ^ noarr::for_each_elem(MulAdd<M>())).execute(); }
};
struct mul_built_inside {
	static constexpr const char *name = "mul_built_inside";
	static constexpr bool records = true;
	template<class R, class M>
	static void run(const M &m) {
		R::run(m.plan().template for_sections<'i', 'j'>(Enter<build_inside<M>>{0, {}}) ^ hoist<'i', 'j'>());
	}
	static std::vector<std::vector<std::pair<i64, i64>>> sections(i64 n, i64 k) { return {all_ij(n, k)}; }
};

template<class La, class Lb, class Lc>
struct lays {
	static inline const char *text() {
		static const std::string s = std::string(La::name) + "," + Lb::name + "," + Lc::name;
		return s.c_str();
	}
	using M = Mats<La, Lb, Lc>;
};
template<class Work, class R>
struct job {
	static constexpr const char *name = R::name;
};

template<class Work, class Lay, class R>
void elems_scenario() {
	typename Lay::M m;
	sim::note("%s %s %s team=%d n=%lld k=%lld q=%lld", Work::name, Lay::text(), R::name, sim::team(), (long long)m.n, (long long)m.k,
	          (long long)m.q);
	const auto from = sim::events();
	Work::template run<R>(m);
	std::vector<Key> *w;
	{
		const sim::Pause p;
		w = new std::vector<Key>(m.keys());
	}
	check_keys(from, *w, Work::name);
}
template<class Work, class Lay, class R>
void mul_scenario() {
	typename Lay::M m;
	sim::note("%s %s %s team=%d n=%lld k=%lld q=%lld", Work::name, Lay::text(), R::name, sim::team(), (long long)m.n, (long long)m.k,
	          (long long)m.q);
	const auto from = sim::events();
	Work::template run<R>(m);
	m.check_product();
	if (Work::records) {
		std::vector<Key> *w;
		{
			const sim::Pause p;
			w = new std::vector<Key>(m.keys());
		}
		check_keys(from, *w, Work::name);
		const sim::Pause p;
		const auto s = Work::sections(m.n, m.k);
		if (!s.empty())
			check_nesting(from, s, Work::name);
	}
}

template<class Work, class R>
struct ElemScen {
	static void run() {
		switch (sim::param(2)) {
		case 0: return elems_scenario<Work, lays<row, row, row>, R>();
		default: return elems_scenario<Work, lays<tiled, col, row>, R>();
		}
	}
};
template<class Work, class R>
struct MulScenario {
	static void run() {
		switch (sim::param(2)) {
		case 0: return mul_scenario<Work, lays<row, col, row>, R>();
		default: return mul_scenario<Work, lays<col, tiled, tiled>, R>();
		}
	}
};

using namespace cases;
using PlanCases = List<v1, a1, v1_slice, v1_span_rev, v1_shift_step, v1_rev_slice, v1_blk, v1_blk_minor_top, v1_dyn,
                       v1_dyn_rev_blocks, v1_two_level, v2, v2_hoist, a2, v2_tiles, v2_tiles_dyn, v2_merge,
                       v2_merge_swapped, v2_fix, v2_rename, v2_tuple, v2_rev_step_hoist, v2_mix, v3, v3_reorder, lay_blocked,
                       lay_rev_step, v2_bcast, v2_zcurve, v2_soa, lay_tiled>;
using ElemCases = List<v1, v1_dyn, v2, v2_tiles, v2_merge, v2_tuple, v2_mix, lay_blocked, lay_rev_step, v2_zcurve, v2_soa, lay_tiled>;

using MoreCases = List<u1_in, u1_soa, u1_slices, u1_blocks, v4_zcurve, v2_dyn_count, s1_blk, s2_dyn, v2_late, v3_fix_state, lay_span_fix,
                       lay_rename_tuple, v2_swap_names, v1_late_len, v2_like, v4, lay_z, v2_sym, v2_tuple_vec>;

template<class R>
struct on_endless {
	static constexpr const char *name = R::name;
	static void run(const auto &t, const auto &s, const endless::Visitor &v) {
		const auto bag = noarr::make_bag(s, static_cast<char *>(nullptr));
		if (sim::param(2))
			R::run((noarr::planner(bag) ^ t.get_order()).for_each(v));
		else
			R::run((noarr::planner(bag) ^ t.get_order()).for_each_elem([v](const auto &st, auto &) { v(st); }));
	}
};

const bool registered = [] {
	scale().huge = 200;
	register_grid<Scen>(PlanCases(), List<on_states<tbb_exec>, on_states<omp_exec>, on_states<std_exec>>(), 3);
	register_grid<Scen>(List<v1, v2_tiles, v2_merge>(), List<on_states<tbb_user_range>, on_states<omp_user>>(), 2);
	register_grid<Scen>(ElemCases(), List<on_elems<tbb_exec>, on_elems<omp_exec>, on_elems<std_exec>>(), 2);
	register_grid<ElemScen>(List<elems_k_top, elems_plain, elems_tiled, elems_merged, elems_reversed>(), Runners(), 4);
	register_grid<MulScenario>(List<mul_i, mul_plain_j, mul_for_dims, mul_sections_i_j, mul_sections_j_rev, mul_sections_tiled, mul_built_inside>(),
	                           Runners(), 5);
	register_grid<MulScenario>(List<mul_for_dims, mul_sections_i_j>(), List<seq, tbb_user_range, omp_user>(), 3);
	register_grid<Scen>(MoreCases(), List<on_states<tbb_exec>, on_elems<std_exec>>(), 2);
	register_grid<endless::Scen>(endless::All(), List<on_endless<tbb_exec>, on_endless<omp_exec>, on_endless<std_exec>>(), 2);
	return true;
}();

} // namespace
