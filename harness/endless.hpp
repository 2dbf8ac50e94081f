// Index spaces with more than 2^32 elements: a run observes a prefix of the visits and ends there. Every visit must be
// valid and new, and the operation must not return before.
#ifndef VERIF_ENDLESS_HPP
#define VERIF_ENDLESS_HPP

#include "visit.hpp"

#include <set>

namespace endless {

using model::i64;
using model::Key;

struct Obs {
	bool (*valid)(const Key &, const i64 *);
	i64 par[6];
	std::size_t quota;
	std::set<Key> seen;
};

struct Visitor {
	Obs *o;
	void see(const Key &k) const {
		sim::step(1);
		const sim::Pause p;
		hist::rec_key(hist::BEGIN, k);
		if (!o->valid(k, o->par))
			sim::fail("visited_foreign", "index %s visited but not in the index set", model::show(k).c_str());
		if (!o->seen.insert(k).second)
			sim::fail("visited_twice", "index %s visited more than once", model::show(k).c_str());
		if (o->seen.size() >= o->quota) {
			sim::probe("more_than_2^32_elements");
			sim::done();
		}
	}
	template<class St>
	void operator()(const St &st) const {
		see(key_of(st));
	}
};

inline i64 more() { // more than 2^32, often just so
	const i64 k = i64(1) << 32;
	switch (sim::param(4)) {
	case 0: return k + sim::param(5);
	case 1: return k * sim::range(1, 7) + sim::param(5);
	case 2: return k + sim::param(1 << 16);
	default: return (k << sim::range(0, 4)) + sim::decide(sim::K_DATA, 1 << 30);
	}
}

// with(f): f(traverser, structure, valid, parameters)
#define ENDLESS(name_)                                                                                                 \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		template<class F_>                                                                                             \
		static void with(F_ &&f);                                                                                      \
	};                                                                                                                 \
	template<class F_>                                                                                                 \
	void name_::with(F_ &&f)

ENDLESS(e_top) {
	const i64 n = more();
	auto s = scalar<int>() ^ vector<'i'>(std::size_t(n));
	f(traverser(s), s, [](const Key &k, const i64 *p) { return k.v[0] >= 0 && k.v[0] < p[0]; }, {n});
}
ENDLESS(e_inner) {
	const i64 n = more(), l = sim::range(1, 5);
	auto s = scalar<int>() ^ vectors<'j', 'i'>(std::size_t(n), std::size_t(l));
	f(traverser(s), s, [](const Key &k, const i64 *p) { return k.v[0] >= 0 && k.v[0] < p[0] && k.v[1] >= 0 && k.v[1] < p[1]; }, {l, n});
}
ENDLESS(e_middle) {
	const i64 n = more(), l = sim::range(1, 3), q = sim::range(1, 3);
	auto s = scalar<int>() ^ vectors<'k', 'j', 'i'>(std::size_t(q), std::size_t(n), std::size_t(l));
	f(
		traverser(s), s,
		[](const Key &k, const i64 *p) {
			return k.v[0] >= 0 && k.v[0] < p[0] && k.v[1] >= 0 && k.v[1] < p[1] && k.v[2] >= 0 && k.v[2] < p[2];
		},
		{l, n, q});
}
ENDLESS(e_rev) {
	const i64 n = more(), a = sim::param(1000);
	auto s = scalar<char>() ^ vectors<'j', 'i'>(2, std::size_t(n + a));
	f(
		traverser(s) ^ shift<'i'>(std::size_t(a)) ^ reverse<'i'>(), s,
		[](const Key &k, const i64 *p) { return k.v[0] >= p[1] && k.v[0] < p[0] && k.v[1] >= 0 && k.v[1] < 2; }, {n + a, a});
}
ENDLESS(e_many_blocks) {
	const i64 n = more(), b = sim::range(1, 7);
	auto s = scalar<char>() ^ vector<'i'>(std::size_t(n * b));
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(std::size_t(b)), s, [](const Key &k, const i64 *p) { return k.v[0] >= 0 && k.v[0] < p[0]; },
	  {n * b});
}
ENDLESS(e_long_blocks) {
	const i64 n = sim::range(1, 7), b = more();
	auto s = scalar<char>() ^ vector<'i'>(std::size_t(n * b));
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(std::size_t(b)), s, [](const Key &k, const i64 *p) { return k.v[0] >= 0 && k.v[0] < p[0]; },
	  {n * b});
}
ENDLESS(e_dyn) {
	const i64 n = more(), b = n / sim::range(1, 3) + sim::param(9);
	auto s = scalar<char>() ^ vector<'i'>(std::size_t(n));
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(std::size_t(b)), s,
	  [](const Key &k, const i64 *p) { return k.v[0] >= 0 && k.v[0] < p[0]; }, {n});
}
ENDLESS(e_step) {
	const i64 n = more(), q = sim::range(1, 5), a = sim::param(q);
	auto s = scalar<char>() ^ vector<'i'>(std::size_t(n * q));
	f(traverser(s) ^ step<'i'>(std::size_t(a), std::size_t(q)), s,
	  [](const Key &k, const i64 *p) { return k.v[0] >= 0 && k.v[0] < p[0] && k.v[0] % p[1] == p[2]; }, {n * q, q, a});
}
ENDLESS(e_slice) {
	const i64 n = more(), a = more();
	auto s = scalar<char>() ^ vector<'i'>(std::size_t(n + a + 5));
	f(traverser(s) ^ slice<'i'>(std::size_t(a), std::size_t(n)), s,
	  [](const Key &k, const i64 *p) { return k.v[0] >= p[1] && k.v[0] < p[0]; }, {n + a, a});
}
ENDLESS(e_merge) { // only the merged dimension is that long
	const i64 n = (i64(1) << 28) + sim::param(100), l = sim::range(16, 40);
	auto s = scalar<char>() ^ vectors<'j', 'i'>(std::size_t(l), std::size_t(n));
	f(traverser(s) ^ merge_blocks<'i', 'j', 'z'>(), s,
	  [](const Key &k, const i64 *p) { return k.v[0] >= 0 && k.v[0] < p[0] && k.v[1] >= 0 && k.v[1] < p[1]; }, {n, l});
}
ENDLESS(e_bcast) {
	const i64 n = more(), l = sim::range(1, 4);
	auto s = scalar<char>() ^ bcast<'j'>(std::size_t(n)) ^ vector<'i'>(std::size_t(l));
	f(traverser(s), s, [](const Key &k, const i64 *p) { return k.v[0] >= 0 && k.v[0] < p[0] && k.v[1] >= 0 && k.v[1] < p[1]; }, {l, n});
}
ENDLESS(e_static) {
	const i64 l = sim::range(1, 4);
	auto s = scalar<char>() ^ array<'j', 5000000000>() ^ vector<'i'>(std::size_t(l));
	f(traverser(s), s, [](const Key &k, const i64 *p) { return k.v[0] >= 0 && k.v[0] < p[0] && k.v[1] >= 0 && k.v[1] < p[1]; },
	  {l, 5000000000});
}
using All = cases::List<e_top, e_inner, e_middle, e_rev, e_many_blocks, e_long_blocks, e_dyn, e_step, e_slice, e_merge, e_bcast, e_static>;

// Exec::run(traverser, structure, visitor)
template<class Case, class Exec>
struct Scen {
	static void run() {
		Case::with([](const auto &t, const auto &s, bool (*valid)(const Key &, const i64 *), std::initializer_list<i64> par) {
			Obs *o;
			{
				const sim::Pause p;
				o = new Obs();
				o->valid = valid;
				std::copy(par.begin(), par.end(), o->par);
				o->quota = 1 + sim::param(40);
				sim::note("%s %s team=%d parameters=%lld,%lld,%lld quota=%zu", Case::name, Exec::name, sim::team(), (long long)o->par[0],
				          (long long)o->par[1], (long long)o->par[2], o->quota);
			}
			Exec::run(t, s, Visitor{o});
			sim::fail("not_visited", "%s: returned after %zu of more than 2^32 visits", Exec::name, o->seen.size());
		});
	}
};

} // namespace endless
#endif
