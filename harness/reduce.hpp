// tbb_reduce workloads: outputs, operations and the sequential reference.
#ifndef VERIF_REDUCE_HPP
#define VERIF_REDUCE_HPP

#include "visit.hpp"

#include <noarr/structures/interop/tbb.hpp>

namespace red {

using V = std::int64_t;

enum Opn { SUM, MAX, XOR, NOPS };
inline V neutral(int op) { return op == MAX ? INT64_MIN : 0; }
inline V apply(int op, V a, V b) {
	switch (op) {
	case SUM: return static_cast<V>(static_cast<std::uint64_t>(a) + static_cast<std::uint64_t>(b));
	case MAX: return a > b ? a : b;
	default: return a ^ b;
	}
}
// what the element at k contributes
inline V weight(const Key &k) {
	std::uint64_t h = 0x9e3779b97f4a7c15ULL;
	for (int i = 0; i < model::NK; i++)
		h = (h ^ static_cast<std::uint64_t>(k.v[i] + 2)) * 0xff51afd7ed558ccdULL, h ^= h >> 29;
	return static_cast<V>(h % 100003) + 1;
}

inline i64 at(const Key &k, int d) { return k.v[d] < 0 ? 0 : k.v[d]; }

struct Ext {
	i64 e[model::NK];
	explicit Ext(const std::vector<Ent> &want) {
		for (int i = 0; i < model::NK; i++) {
			e[i] = 1;
			for (auto &x : want)
				e[i] = std::max(e[i], x.k.v[i] + 1);
		}
	}
};

// Output structures: make(ext) = the structure, cells(ext) = number of cells, cell(key) = position of the cell (in units
// of V) the element at key contributes to, ref(bag, state, key) = that cell through the library
#define OUT(name_, make_, cells_, cell_, ...)                                                                         \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		static constexpr const char *ptr_name = #name_ "/ptr";                                                         \
		static auto make([[maybe_unused]] const Ext &x) { return make_; }                                              \
		static i64 cells([[maybe_unused]] const Ext &x) { return cells_; }                                             \
		static i64 cell([[maybe_unused]] const Ext &x, [[maybe_unused]] const Key &k) { return cell_; }                \
		template<class B_, class S_>                                                                                   \
		static V &ref(const B_ &bag, [[maybe_unused]] const S_ &st, [[maybe_unused]] const Key &k) {                   \
			__VA_ARGS__                                                                                                \
		}                                                                                                              \
	};

template<auto... D>
struct dims_t {};
template<class S_, auto... D>
constexpr bool has_all = (... && noarr::state_contains<S_, noarr::index_in<D>>);

inline std::size_t z(i64 x) { return static_cast<std::size_t>(x); }

OUT(out_i, scalar<V>() ^ vector<'i'>(z(x.e[0])), x.e[0], at(k, 0), {
	if constexpr (has_all<S_, 'i'>)
		return bag[st];
	else
		return bag.template at<'i'>(z(at(k, 0)));
})
OUT(out_j, scalar<V>() ^ vector<'j'>(z(x.e[1])), x.e[1], at(k, 1), {
	if constexpr (has_all<S_, 'j'>)
		return bag[st];
	else
		return bag.template at<'j'>(z(at(k, 1)));
})
OUT(out_ij, scalar<V>() ^ vector<'i'>(z(x.e[0])) ^ vector<'j'>(z(x.e[1])), x.e[0] * x.e[1], at(k, 1) * x.e[0] + at(k, 0), {
	if constexpr (has_all<S_, 'i', 'j'>)
		return bag[st];
	else
		return (bag.template at<'i', 'j'>(z(at(k, 0)), z(at(k, 1))));
})
OUT(out_ji_rev, scalar<V>() ^ vector<'j'>(z(x.e[1])) ^ vector<'i'>(z(x.e[0])) ^ reverse<'i'>(), x.e[0] * x.e[1],
    (x.e[0] - 1 - at(k, 0)) * x.e[1] + at(k, 1), {
	    if constexpr (has_all<S_, 'i', 'j'>)
		    return bag[st];
	    else
		    return (bag.template at<'i', 'j'>(z(at(k, 0)), z(at(k, 1))));
    })
OUT(out_scalar, scalar<V>(), 1, 0, { return bag[st]; })
OUT(out_hist, (scalar<V>() ^ array<'v', 7>()), 7, weight(k) % 7, { return bag[noarr::idx<'v'>(z(weight(k) % 7))]; })
// the output has a dimension of the input, but is indexed by something else than the index in it
OUT(out_unrelated_B, scalar<V>() ^ vector<'B'>(std::size_t(5)), 5, weight(k) % 5, {
	return bag[noarr::idx<'B'>(z(weight(k) % 5))];
})
OUT(out_tuple_i, (pack(scalar<V>(), scalar<V>()) ^ tuple<'t'>() ^ vector<'i'>(z(x.e[0]))), 2 * x.e[0], 2 * at(k, 0) + weight(k) % 2, {
	const auto i = z(at(k, 0));
	if (weight(k) % 2)
		return (bag.template at<'i', 't'>(i, noarr::lit<1>));
	return (bag.template at<'i', 't'>(i, noarr::lit<0>));
})
OUT(out_blocked_i, (scalar<V>() ^ vectors<'p', 'q'>(z((x.e[0] + 2) / 3), std::size_t(3)) ^ noarr::merge_blocks<'p', 'q', 'i'>()),
    (x.e[0] + 2) / 3 * 3, at(k, 0) % 3 * ((x.e[0] + 2) / 3) + at(k, 0) / 3, {
	    if constexpr (has_all<S_, 'i'>)
		    return bag[st];
	    else
		    return bag.template at<'i'>(z(at(k, 0)));
    })
// only one component has the dimension of the input: the other collects from everywhere
OUT(out_hetero, (pack(scalar<V>() ^ vector<'i'>(z(x.e[0])), scalar<V>()) ^ tuple<'t'>()), x.e[0] + 1, weight(k) % 3 ? at(k, 0) : x.e[0], {
	if (weight(k) % 3)
		return (bag.template at<'t', 'i'>(noarr::lit<0>, z(at(k, 0))));
	return bag.template at<'t'>(noarr::lit<1>);
})
OUT(out_hetero2, (pack(scalar<V>(), scalar<V>() ^ array<'i', 3>()) ^ tuple<'t'>() ^ vector<'j'>(z(x.e[1]))), 4 * x.e[1],
    4 * at(k, 1) + (weight(k) % 3 ? 1 + at(k, 0) % 3 : 0), {
	    const auto j = z(at(k, 1));
	    if (weight(k) % 3)
		    return (bag.template at<'t', 'i', 'j'>(noarr::lit<1>, z(at(k, 0) % 3), j));
	    return (bag.template at<'t', 'j'>(noarr::lit<0>, j));
    })
#undef OUT

// hooks let the other checks throw, count or nest from inside the callbacks
struct NoHook {
	void neut() const {}
	void acc(const Key &) const {}
	void join() const {}
};

template<class Out, bool Bag, class T, class Hook>
void reduce(const T &t, const Ext &ext, int op, V *buf, const Hook &h) {
	const auto os = Out::make(ext);
	if constexpr (Bag) {
		noarr::tbb_reduce(
			t,
			[op, &h](auto st, auto &o) {
				h.neut();
				o[st] = neutral(op);
			},
			[op, &h](auto st, auto &o) {
				const Key k = key_of(st);
				h.acc(k);
				V &c = Out::ref(o, st, k);
				c = apply(op, c, weight(k));
			},
			[op, &h](auto st, auto &l, const auto &r) {
				h.join();
				l[st] = apply(op, l[st], r[st]);
			},
			noarr::make_bag(os, static_cast<void *>(buf)));
	} else {
		noarr::tbb_reduce(
			t,
			[op, os, &h](auto st, void *o) {
				h.neut();
				os | noarr::get_at(o, st) = neutral(op);
			},
			[op, os, &h](auto st, void *o) {
				const Key k = key_of(st);
				h.acc(k);
				V &c = Out::ref(noarr::make_bag(os, o), st, k);
				c = apply(op, c, weight(k));
			},
			[op, os, &h](auto st, void *l, const void *r) {
				h.join();
				V &x = os | noarr::get_at(l, st);
				x = apply(op, x, os | noarr::get_at(r, st));
			},
			os, static_cast<void *>(buf));
	}
}

template<class Out>
struct Job {
	Ext ext;
	int op;
	i64 n;
	V *buf;
	std::vector<V> ref;
	const std::vector<Ent> &want;
	explicit Job(const std::vector<Ent> &w) : ext(w), want(w) { // inside Pause
		op = static_cast<int>(sim::decide(sim::K_DATA, NOPS));
		n = Out::cells(ext);
		buf = static_cast<V *>(sim::buffer(static_cast<std::size_t>(n) * sizeof(V), 0));
		ref.resize(n);
		const auto salt = sim::decide(sim::K_DATA, 1000);
		for (i64 i = 0; i < n; i++)
			buf[i] = ref[i] = static_cast<V>((salt * 7919 + i * 104729) % 1000) - 300;
	}
	void expect_one() {
		for (auto &e : want)
			ref[Out::cell(ext, e.k)] = apply(op, ref[Out::cell(ext, e.k)], weight(e.k));
	}
	// first wrong cell, or -1
	i64 wrong() const {
		for (i64 i = 0; i < n; i++)
			if (buf[i] != ref[i])
				return i;
		return -1;
	}
	void check(const char *what) {
		V t = 0;
		for (i64 i = 0; i < n; i++)
			t += buf[i]; // instrumented: everything must happen before this
		sim::mix(static_cast<std::uint64_t>(t));
		const sim::Pause p;
		if (const i64 w = wrong(); w >= 0)
			sim::fail("wrong_result", "%s: cell %lld is %lld, the sequential fold gives %lld", what, (long long)w, (long long)buf[w],
			          (long long)ref[w]);
	}
	~Job() { sim::buffer_free(buf); }
};

} // namespace red
#endif
