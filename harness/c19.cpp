// C19: parallel sweeps that reach the elements by pointer arithmetic, with stride_along and offset_along
#include "exec_for_each.hpp"
#include "owner.hpp"

#include <noarr/structures/introspection/offset_along.hpp>
#include <noarr/structures/introspection/stride_along.hpp>

namespace cases {
CASE(p_step_inner, true) { // every q-th element of each row
	const auto n = L2(), k = L2(), q = P(1, 4), r = upto(q - 1);
	auto s = scalar<int>() ^ vector<'x'>(k) ^ step<'x'>(r, q) ^ rename<'x', 'j'>();
	Space m(4);
	f(traverser(s ^ vector<'i'>(n)), s ^ vector<'i'>(n), m.vec('x', k).vec('i', n).step('x', r, q).rename('x', 'j').seal());
}
CASE(p_step_blocks, true) { // every q-th block
	const auto b = P(1, 5), n = P(0, 9), q = P(1, 4), r = upto(q - 1);
	auto s = scalar<std::int16_t>() ^ vector<'x'>(n * b) ^ into_blocks<'x', 'i', 'j'>(b);
	Space m(2);
	f(traverser(s) ^ step<'i'>(r, q), s, m.vec('x', n * b).into_blocks('x', 'i', 'j', b).seal().step('i', r, q));
}
CASE(p_views, true) { // views upon views
	const auto n = 3 + L2(), k = 3 + L2();
	auto s = scalar<std::int64_t>() ^ vectors<'j', 'i'>(k, n) ^ slice<'i'>(1, n - 1) ^ reverse<'j'>() ^ shift<'j'>(2) ^ reverse<'i'>();
	Space m(8);
	f(traverser(s) ^ hoist<'j'>(), s, m.vec('j', k).vec('i', n).slice('i', 1, n - 1).reverse('j').shift('j', 2).reverse('i').seal().hoist('j'));
}
CASE(p_tiled, true) { // two dimensions stored by tiles, addressed by tile and place in it
	const auto b = P(1, 4), c = P(1, 4), n = b * P(0, 4), k = c * P(0, 4);
	auto s = scalar<float>() ^ vectors<'y', 'x'>(k, n) ^ into_blocks<'x', 'i', 'j'>(b) ^ into_blocks<'y', 'k', 'l'>(c);
	Space m(4);
	f(traverser(s) ^ hoist<'k'>(), s, m.vec('y', k).vec('x', n).into_blocks('x', 'i', 'j', b).into_blocks('y', 'k', 'l', c).seal().hoist('k'));
}
CASE(p_fix, true) { // one plane of many
	const auto n = L2(), k = L2(), w = P(1, 4), a = upto(w - 1);
	auto s = scalar<int>() ^ vectors<'j', 'z', 'i'>(k, w, n) ^ fix<'z'>(a);
	Space m(4);
	f(traverser(s), s, m.vec('j', k).vec('z', w).vec('i', n).fix('z', a).seal());
}
CASE(p_dyn, true) { // blocks of which the last one may be shorter
	const auto n = P(0, 40), b = P(1, 9), w = P(1, 3);
	auto s = scalar<std::int16_t>() ^ vector<'x'>(n) ^ into_blocks_dynamic<'x', 'i', 'j', 'k'>(b) ^ vector<'l'>(w);
	Space m(2);
	f(traverser(s), s, m.vec('x', n).into_blocks_dynamic('x', 'i', 'j', 'k', b).vec('l', w).seal());
}
CASE(p_dyn_inner, true) {
	const auto n = P(0, 20), b = P(1, 6), w = P(1, 4);
	auto s = scalar<int>() ^ vectors<'l', 'x'>(w, n) ^ reverse<'x'>() ^ into_blocks_dynamic<'x', 'i', 'j', 'k'>(b);
	Space m(4);
	f(traverser(s) ^ hoist<'l'>(), s, m.vec('l', w).vec('x', n).reverse('x').into_blocks_dynamic('x', 'i', 'j', 'k', b).seal().hoist('l'));
}
CASE(p_static, true) { // the border apart
	const auto n = P(0, 40), b = P(1, 9), w = P(1, 3);
	auto s = scalar<int>() ^ vector<'x'>(n) ^ into_blocks_static<'x', 'k', 'i', 'j'>(b) ^ vector<'l'>(w);
	Space m(4);
	f(traverser(s), s, m.vec('x', n).into_blocks_static('x', 'k', 'i', 'j', b).vec('l', w).seal());
}
CASE(p_join, true) { // the diagonal of tiles
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'x', 'j', 'y'>(n, k, n) ^ reverse<'y'>() ^ noarr::join<'x', 'y', 'i'>() ^ reverse<'i'>();
	Space m(4);
	f(traverser(s), s, m.vec('x', n).vec('j', k).vec('y', n).reverse('y').join('x', 'y').rename('x', 'i').reverse('i').seal());
}
// strides of more than 4 GiB
CASE(p_far_rev, true) {
	const auto n = P(1, 9), k = H(), q = few(k), r = upto(100);
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n) ^ reverse<'i'>() ^ reverse<'j'>();
	Space m(4);
	f(traverser(s) ^ step<'j'>(r, q), s, m.vec('j', k).vec('i', n).reverse('i').reverse('j').seal().step('j', r, q));
}
CASE(p_far_blocks, true) {
	const auto b = H() / 4, n = b * P(1, 6), q = few(b), r = upto(100);
	auto s = scalar<double>() ^ vector<'x'>(n) ^ into_blocks<'x', 'i', 'j'>(b) ^ reverse<'i'>();
	Space m(8);
	f(traverser(s) ^ step<'j'>(r, q), s, m.vec('x', n).into_blocks('x', 'i', 'j', b).reverse('i').seal().step('j', r, q));
}
CASE(p_far_dyn, true) {
	const auto n = H(), b = n / P(1, 6) + 1, q = few(b), r = upto(100);
	auto s = scalar<std::int16_t>() ^ vector<'x'>(n) ^ into_blocks_dynamic<'x', 'i', 'j', 'k'>(b) ^ step<'j'>(r, q);
	Space m(2);
	f(traverser(s), s, m.vec('x', n).into_blocks_dynamic('x', 'i', 'j', 'k', b).step('j', r, q).seal());
}
CASE(p_far_step, true) {
	const auto n = H(), k = P(1, 20), q = few(n), r = upto(100);
	auto s = scalar<int>() ^ vectors<'j', 'x'>(k, n) ^ step<'x'>(r, q) ^ rename<'x', 'i'>();
	Space m(4);
	f(traverser(s), s, m.vec('j', k).vec('x', n).step('x', r, q).rename('x', 'i').seal());
}
CASE(p_far_last, true) { // the last block is shorter
	const auto n = H(), b = n / P(1, 6) + 1, q = few(b), r = upto(100);
	auto s = scalar<std::int16_t>() ^ vector<'x'>(n) ^ into_blocks_dynamic<'x', 'i', 'j', 'k'>(b);
	Space m(2);
	f(traverser(s) ^ step<'j'>(r, q), s, m.vec('x', n).into_blocks_dynamic('x', 'i', 'j', 'k', b).seal().step('j', r, q));
}
using Far = List<p_far_last, p_far_rev, p_far_blocks, p_far_dyn, p_far_step>;
using Walks = List<p_step_inner, p_step_blocks, p_views, p_tiled, p_fix, p_dyn, p_dyn_inner, p_static, p_join>;

template<class L>
struct only_inj;
template<class... Cs>
struct only_inj<List<Cs...>> {
	using type = typename Cat<List<>, std::conditional_t<Cs::inj, List<Cs>, List<>>...>::type;
};
} // namespace cases

namespace {

template<char... Ds>
struct Dims {};
using Names = Dims<'i', 'j', 'k', 'l', 'm', 'n'>;

template<char D, class St>
concept dynamic_index = noarr::state_contains<St, noarr::index_in<D>> &&
                        !requires { std::remove_cvref_t<decltype(std::declval<St>().template get<noarr::index_in<D>>())>::value; };

// Known finding: under step<D>, stride_along also multiplies the strides of the other dimensions (an existing test relies
// on that). Layouts cut by step are walked along the stepped dimension only; known/step_other_dim shows the defect.
template<class S>
constexpr char only_dim = 0;
template<class T, class A, class B>
constexpr char only_dim<noarr::hoist_t<'i', noarr::step_t<'i', T, A, B>>> = 'i';
template<class T, class A, class B>
constexpr char only_dim<noarr::step_t<'j', T, A, B>> = 'j';
template<class T, class A, class B>
constexpr char only_dim<noarr::rename_t<noarr::step_t<'x', T, A, B>, 'x', 'i'>> = 'i';
template<char D, class S, class St>
concept strided = noarr::HasStrideAlong<S, D, St> && (only_dim<S> == 0 || only_dim<S> == D);

// the state without the (dynamic) indices in Ds
inline auto drop(const auto &st, Dims<>) { return st; }
template<char D, char... Ds>
inline auto drop(const auto &st, Dims<D, Ds...>) {
	if constexpr (dynamic_index<D, std::remove_cvref_t<decltype(st)>>)
		return drop(st.template remove<noarr::index_in<D>>(), Dims<Ds...>());
	else
		return drop(st, Dims<Ds...>());
}

template<class S>
inline std::uintptr_t place(const S &s, void *base, const auto &st) {
	return reinterpret_cast<std::uintptr_t>(&(s | noarr::get_at(base, st)));
}
template<char D>
inline std::size_t index(const auto &st) {
	return static_cast<std::size_t>(st.template get<noarr::index_in<D>>());
}
template<char D, class S>
inline std::uintptr_t stride(const S &s, const auto &st) {
	return static_cast<std::uintptr_t>(static_cast<std::size_t>(noarr::stride_along<D>(s, st)));
}

// From the element that has index 0 in all dimensions that have a stride
struct ByAllStrides {
	static constexpr const char *name = "all_strides";
	template<class S>
	static std::uintptr_t find(const S &s, void *base, const auto &st) {
		return go(s, base, st, drop(st, Names()), 0, Names());
	}

private:
	static std::uintptr_t go(const auto &s, void *base, const auto &st, const auto &, std::uintptr_t dist, Dims<>) {
		return place(s, base, st) + dist;
	}
	template<class S, char D, char... Ds>
	static std::uintptr_t go(const S &s, void *base, const auto &st, const auto &dropped, std::uintptr_t dist, Dims<D, Ds...>) {
		using St = std::remove_cvref_t<decltype(st)>;
		using Dr = std::remove_cvref_t<decltype(dropped)>;
		if constexpr (dynamic_index<D, St> && strided<D, S, Dr>) {
			sim::probe("strides");
			return go(s, base, st.template with<noarr::index_in<D>>(std::size_t(0)), dropped,
			          dist + stride<D>(s, dropped) * index<D>(st), Dims<Ds...>());
		} else
			return go(s, base, st, dropped, dist, Dims<Ds...>());
	}
};
// From another element that differs in one dimension only
template<bool Offset>
struct ByOne {
	static constexpr const char *name = Offset ? "offset_diff" : "one_stride";
	template<class S>
	static std::uintptr_t find(const S &s, void *base, const auto &st) {
		return go(s, base, st, own::hash_key(key_of(st), 5), Names());
	}

private:
	static std::uintptr_t go(const auto &s, void *base, const auto &st, std::uint64_t, Dims<>) { return place(s, base, st); }
	template<class S, char D, char... Ds>
	static std::uintptr_t go(const S &s, void *base, const auto &st, std::uint64_t h, Dims<D, Ds...>) {
		using St = std::remove_cvref_t<decltype(st)>;
		if constexpr (dynamic_index<D, St>) {
			const auto less = st.template remove<noarr::index_in<D>>();
			using Less = std::remove_cvref_t<decltype(less)>;
			if constexpr (S::template has_length<D, Less>()) {
				const std::size_t len = s.template length<D>(less);
				const std::size_t from = len ? (h >> 20) % len : 0;
				const auto other = st.template with<noarr::index_in<D>>(from);
				using Other = std::remove_cvref_t<decltype(other)>;
				if constexpr (Offset && noarr::HasOffsetAlong<S, D, St> && noarr::HasOffsetAlong<S, D, Other>) {
					if (h % 3) {
						sim::probe("offsets");
						return place(s, base, other) + static_cast<std::uintptr_t>(static_cast<std::size_t>(noarr::offset_along<D>(s, st))) -
						       static_cast<std::uintptr_t>(static_cast<std::size_t>(noarr::offset_along<D>(s, other)));
					}
				} else if constexpr (!Offset && strided<D, S, Less>) {
					if (h % 3) {
						sim::probe("strides");
						return place(s, base, other) + stride<D>(s, less) * (index<D>(st) - from);
					}
				}
			}
		}
		return go(s, base, st, h / 3, Dims<Ds...>());
	}
};

template<class S, class How>
struct Put {
	S s;
	unsigned char *buf;
	std::uint64_t salt;
	void operator()(const auto &st) const {
		using E = noarr::scalar_t<S, std::remove_cvref_t<decltype(st)>>;
		own::write(*reinterpret_cast<E *>(How::find(s, buf, st)), key_of(st), salt, buf);
	}
};

struct tbb_strides {
	static constexpr const char *name = "tbb+all_strides";
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		noarr::tbb_for_each(t, Put<std::remove_cvref_t<decltype(s)>, ByAllStrides>{s, buf, salt});
	}
};
struct omp_stride {
	static constexpr const char *name = "omp+one_stride";
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		noarr::omp_for_each(t, Put<std::remove_cvref_t<decltype(s)>, ByOne<false>>{s, buf, salt});
	}
};
struct std_offsets {
	static constexpr const char *name = "std+offset_diff";
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		noarr::std_for_each(t, Put<std::remove_cvref_t<decltype(s)>, ByOne<true>>{s, buf, salt});
	}
};

// A parallel sweep over all dimensions but one, every callback walks along that one
template<char D>
struct walk {
	static constexpr char names[] = {'w', 'a', 'l', 'k', '_', D, 0};
	static constexpr const char *name = names;
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		if ((s | noarr::get_length<D>()) == 0)
			return;
		noarr::tbb_for_each(t ^ noarr::fix<D>(std::size_t(0)), [&s, buf, salt](const auto &st) {
			using S = std::remove_cvref_t<decltype(s)>;
			using E = noarr::scalar_t<S, std::remove_cvref_t<decltype(st)>>;
			const auto less = st.template remove<noarr::index_in<D>>();
			const std::size_t n = s.template length<D>(less);
			auto p = place(s, buf, st);
			const auto by = stride<D>(s, less);
			for (std::size_t i = 0; i < n; i++, p += by)
				own::write(*reinterpret_cast<E *>(p), key_of(st.template with<noarr::index_in<D>>(i)), salt, buf);
		});
		sim::probe("walks");
	}
};

template<class Case, class Exec>
struct Scen {
	static void run() {
		Case::with([](const auto &t, const auto &s, const Space &m) {
			std::vector<Ent> *want;
			unsigned char *buf;
			const std::size_t size = s | noarr::get_size();
			const auto salt = sim::decide(sim::K_DATA, 1000);
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				buf = static_cast<unsigned char *>(sim::buffer(size, own::FILL));
				sim::note("%s %s team=%d space=%s size=%zu", Case::name, Exec::name, sim::team(), m.text().c_str(), size);
			}
			const auto from = sim::events();
			Exec::run(t, s, buf, salt);
			own::check(from, *want, m.exact, buf, size, salt, Exec::name);
			const sim::Pause p;
			sim::buffer_free(buf);
			delete want;
		});
	}
};

// Structures that do not fit in memory: only the places are observed
constexpr std::uint32_t PLACE = 62;
template<class S, class How>
struct Where {
	S s;
	char *base;
	void operator()(const auto &st) const {
		using E = noarr::scalar_t<S, std::remove_cvref_t<decltype(st)>>;
		const auto at = How::find(s, base, st) - reinterpret_cast<std::uintptr_t>(base);
		const Key k = key_of(st);
		sim::rec(own::WROTE + sizeof(E), k.v[0], k.v[1], k.v[2], k.v[3], k.v[4], k.v[5]);
		sim::rec(PLACE, static_cast<i64>(at));
	}
};
template<class How>
struct far {
	static constexpr const char *name = How::name;
	static void run(const auto &t, const auto &s, char *base) {
		noarr::tbb_for_each(t, Where<std::remove_cvref_t<decltype(s)>, How>{s, base});
	}
};
template<class Case, class Exec>
struct Far {
	static constexpr const char *prefix = "place";
	static void run() {
		Case::with([](const auto &t, const auto &s, const Space &m) {
			std::vector<Ent> *want;
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				sim::note("%s %s team=%d space=%s", Case::name, Exec::name, sim::team(), m.text().c_str());
			}
			const auto from = sim::events();
			Exec::run(t, s, reinterpret_cast<char *>(std::uintptr_t(1) << 46));
			const sim::Pause p;
			std::vector<Key> got;
			std::map<Key, i64> at;
			for (std::size_t i = from; i < sim::events(); i++) {
				const auto &e = sim::event(i);
				if (e.op > own::WROTE && e.op < own::WROTE + 64) {
					got.push_back(hist::ev_key(e));
					at[got.back()] = sim::event(i + 1).v[0];
				}
			}
			hist::compare(got, hist::keys(*want), Exec::name);
			for (auto &e : *want)
				if (m.exact && at[e.k] != e.off)
					sim::fail("wrong_place", "element %s is sought at byte %lld, it lies at byte %lld", model::show(e.k).c_str(),
					          (long long)at[e.k], (long long)e.off);
			delete want;
		});
	}
};

struct KnownCase {
	static constexpr const char *name = "step_other_dim";
	static void with(const auto &f) {
		auto s = noarr::scalar<int>() ^ noarr::vectors<'j', 'i'>(3, 4) ^ noarr::step<'i'>(0, 2);
		Space m(4);
		f(noarr::traverser(s), s, m.vec('j', 3).vec('i', 4).step('i', 0, 2).seal());
	}
};
template<class Case, class Exec>
struct Known : Far<Case, Exec> {
	static constexpr const char *prefix = "known";
};

using Inj = typename cases::only_inj<typename cases::Cat<cases::All, cases::Walks>::type>::type;
const bool registered = [] {
	scale().huge = 0;
	register_grid<Scen>(Inj(), cases::List<tbb_strides, omp_stride, std_offsets>(), 2);
	register_grid<Far>(cases::Cat<cases::Huge, cases::Far>::type(), cases::List<far<ByAllStrides>, far<ByOne<false>>, far<ByOne<true>>>(), 2);
	using V2 = cases::List<cases::v2, cases::p_fix, cases::p_views>;
	register_grid<Scen>(V2(), cases::List<walk<'i'>, walk<'j'>>(), 3);
	register_grid<Scen>(cases::List<cases::v3>(), cases::List<walk<'i'>, walk<'j'>, walk<'k'>>(), 3);
	register_grid<Scen>(cases::List<cases::p_step_inner>(), cases::List<walk<'j'>>(), 3);
	register_grid<Known>(cases::List<KnownCase>(), cases::List<far<ByAllStrides>>(), 0);
	return true;
}();

} // namespace
