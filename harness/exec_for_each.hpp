// The ways of running a parallel for_each over a traverser.
#ifndef VERIF_EXEC_FOR_EACH_HPP
#define VERIF_EXEC_FOR_EACH_HPP

#include "cases.hpp"

#include <noarr/structures/interop/omp.hpp>
#include <noarr/structures/interop/std_para.hpp>
#include <noarr/structures/interop/tbb.hpp>

namespace exec {

#define EXEC(name_, ...)                                                                                               \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		template<class T_, class F_>                                                                                   \
		static void run(const T_ &t, const F_ &f) __VA_ARGS__                                                          \
	};

EXEC(tbb_for_each, { noarr::tbb_for_each(t, f); })
EXEC(omp_for_each, { noarr::omp_for_each(t, f); })
EXEC(std_for_each, { noarr::std_for_each(t, f); })

// user loops over range()/begin()/end()
EXEC(tbb_range_simple, {
	tbb::parallel_for(
		t.range(), [&f](const auto &r) { r.for_each(f); }, tbb::simple_partitioner());
})
EXEC(tbb_range_static, {
	tbb::parallel_for(
		t.range(), [&f](const auto &r) { r.as_traverser().for_each(f); }, tbb::static_partitioner());
})
EXEC(tbb_range_affinity, {
	tbb::affinity_partitioner ap;
	tbb::parallel_for(
		t.range(),
		[&f](const auto &r) {
			for (auto inner : r)
				inner.for_each(f);
		},
		ap);
})
EXEC(tbb_each_iter, { tbb::parallel_for_each(t.begin(), t.end(), [&f](const auto &inner) { inner.for_each(f); }); })
EXEC(tbb_range_index, {
	const auto r = t.range();
	tbb::parallel_for(std::size_t(0), r.size(), [&](std::size_t x) { r[x].for_each(f); });
})
struct omp_dynamic {
	static constexpr const char *name = "omp_dynamic";
	template<class T_, class F_>
	static void run(const T_ &t, const F_ &f) {
#pragma omp parallel for schedule(dynamic, 2)
		for (auto inner : t)
			inner.for_each(f);
	}
};
struct omp_guided_range {
	static constexpr const char *name = "omp_guided_range";
	template<class T_, class F_>
	static void run(const T_ &t, const F_ &f) {
		const auto r = t.range();
#pragma omp parallel for schedule(guided)
		for (auto it = r.begin(); it < r.end(); ++it)
			(*it).for_each(f);
	}
};
struct omp_static1 {
	static constexpr const char *name = "omp_static1";
	template<class T_, class F_>
	static void run(const T_ &t, const F_ &f) {
#pragma omp parallel for schedule(static, 1)
		for (auto it = t.begin(); it != t.end(); it++)
			it[0].for_each(f);
	}
};

using Main = cases::List<tbb_for_each, omp_for_each, std_for_each>;
using User = cases::List<tbb_range_simple, tbb_range_static, tbb_range_affinity, tbb_each_iter, tbb_range_index,
                         omp_dynamic, omp_guided_range, omp_static1>;

} // namespace exec
#endif
