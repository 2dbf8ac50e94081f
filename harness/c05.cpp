// C05: parallel owner-computes writes through a layout are race-free
#include "exec_for_each.hpp"
#include "owner.hpp"

namespace cases {
// further layouts
CASE(lay_z3, true) {
	const auto n = P(1, 5), k = P(1, 5), q = P(1, 5);
	auto s = scalar<std::int16_t>() ^ vectors<'x', 'y', 'w'>(n, k, q) ^ merge_zcurve<'x', 'y', 'w', 'i'>::maxlen_alignment<8, 1>();
	Space m(2);
	f(traverser(s), s, m.vec('x', n).vec('y', k).vec('w', q).zcurve("xyw", 'i').seal());
}
CASE(lay_dyn, true) { // incomplete last block in the layout itself
	const auto n = L1(), b = P(1, 6);
	auto s = scalar<int>() ^ vector<'x'>(n) ^ into_blocks_dynamic<'x', 'i', 'j', 'k'>(b);
	Space m(4);
	f(traverser(s), s, m.vec('x', n).into_blocks_dynamic('x', 'i', 'j', 'k', b).seal());
}
CASE(lay_static_blocks, true) {
	const auto n = L2(), q = L3(), b = P(1, 6);
	auto s = scalar<int>() ^ vectors<'x', 'l'>(n, q) ^ into_blocks_static<'x', 'k', 'i', 'j'>(b);
	Space m(4);
	f(traverser(s), s, m.vec('x', n).vec('l', q).into_blocks_static('x', 'k', 'i', 'j', b).seal());
}
CASE(lay_slice_blocked, true) {
	const auto b = P(1, 4), n = P(0, 6), k = L3(), a = upto(b * n), l = upto(b * n - a);
	auto s = scalar<double>() ^ vectors<'b', 'j', 'B'>(b, k, n) ^ merge_blocks<'B', 'b', 'i'>() ^ slice<'i'>(a, l);
	Space m(8);
	f(traverser(s) ^ reverse<'j'>() ^ hoist<'i'>(), s,
	  m.vec('b', b).vec('j', k).vec('B', n).merge_blocks('B', 'b', 'i').slice('i', a, l).seal().reverse('j').hoist('i'));
}
CASE(lay_rotated, true) { // rows are split and the halves swapped by two different views over the same data
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'y', 'x'>(k, n) ^ rename<'x', 'i', 'y', 'j'>() ^ reverse<'i'>() ^ reverse<'j'>();
	Space m(4);
	f(traverser(s), s, m.vec('y', k).vec('x', n).rename('x', 'i').rename('y', 'j').reverse('i').reverse('j').seal());
}
CASE(lay_array_mix, true) {
	const auto n = L2();
	auto s = scalar<std::int64_t>() ^ array<'j', 3>() ^ vector<'i'>(n) ^ array<'k', 2>();
	Space m(8);
	f(traverser(s) ^ hoist<'i'>(), s, m.vec('j', 3).vec('i', n).vec('k', 2).seal().hoist('i'));
}
CASE(lay_tuple_blocks, true) { // padded records cut into blocks
	const auto b = P(1, 4), n = b * L3();
	auto s = pack(scalar<std::int16_t>(), scalar<float>(), scalar<char>()) ^ tuple<'k'>() ^ vector<'x'>(n) ^ into_blocks<'x', 'i', 'j'>(b);
	Space m(1);
	f(traverser(s) ^ hoist<'j'>(), s, m.tuple('k', {2, 4, 1}).vec('x', n).into_blocks('x', 'i', 'j', b).seal().hoist('j'));
}
CASE(lay_four, true) {
	const auto n = P(0, 4), k = P(1, 3), q = P(1, 4), r = P(1, 3);
	auto s = scalar<int>() ^ vectors<'l', 'i', 'k', 'j'>(r, n, q, k) ^ reorder<'i', 'j', 'k', 'l'>();
	Space m(4);
	f(traverser(s) ^ merge_blocks<'i', 'k', 'z'>(), s,
	  m.vec('l', r).vec('i', n).vec('k', q).vec('j', k).reorder("ijkl").seal().merge_blocks('i', 'k', 'z'));
}
using Lay2 = List<lay_z3, lay_dyn, lay_static_blocks, lay_slice_blocked, lay_rotated, lay_array_mix, lay_tuple_blocks, lay_four>;

template<class L>
struct only_inj;
template<class... Cs>
struct only_inj<List<Cs...>> {
	using type = typename Cat<List<>, std::conditional_t<Cs::inj, List<Cs>, List<>>...>::type;
};
} // namespace cases

namespace {

template<class S>
struct W_get_at {
	S s;
	unsigned char *buf;
	std::uint64_t salt;
	void operator()(const auto &st) const { own::write(s | noarr::get_at(buf, st), key_of(st), salt, buf); }
};
template<class S>
struct W_volatile { // through qualified pointers
	S s;
	unsigned char *buf;
	std::uint64_t salt;
	void operator()(const auto &st) const {
		using E = noarr::scalar_t<S, std::remove_cvref_t<decltype(st)>>;
		volatile E &e = s | noarr::get_at(static_cast<volatile void *>(buf), st);
		const volatile E &ce = s | noarr::get_at(static_cast<const volatile void *>(buf), st);
		const E &c = s | noarr::get_at(static_cast<const void *>(buf), st);
		if (&ce != &e || &c != &e)
			sim::fail("other_address", "element %s is elsewhere through a const or volatile pointer", model::show(key_of(st)).c_str());
		own::write(const_cast<E &>(e), key_of(st), salt, buf);
	}
};
template<class S>
struct W_offset {
	S s;
	unsigned char *buf;
	std::uint64_t salt;
	void operator()(const auto &st) const {
		using E = noarr::scalar_t<S, std::remove_cvref_t<decltype(st)>>;
		own::write(*reinterpret_cast<E *>(buf + (s | noarr::offset(st))), key_of(st), salt, buf);
	}
};
template<class S>
struct W_bag {
	S bag;
	std::uint64_t salt;
	void operator()(const auto &st) const { own::write(bag[st], key_of(st), salt, bag.data()); }
};

// how the traversal runs and how the element is reached
struct tbb_bag {
	static constexpr const char *name = "tbb+bag";
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		const auto b = noarr::make_bag(s, static_cast<void *>(buf));
		noarr::tbb_for_each(t, W_bag<decltype(b)>{b, salt});
	}
};
struct omp_get_at {
	static constexpr const char *name = "omp+get_at";
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		noarr::omp_for_each(t, W_get_at<std::remove_cvref_t<decltype(s)>>{s, buf, salt});
	}
};
struct tbb_volatile {
	static constexpr const char *name = "tbb+volatile";
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		noarr::tbb_for_each(t, W_volatile<std::remove_cvref_t<decltype(s)>>{s, buf, salt});
	}
};
struct std_offset {
	static constexpr const char *name = "std+offset";
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		noarr::std_for_each(t, W_offset<std::remove_cvref_t<decltype(s)>>{s, buf, salt});
	}
};
struct tbb_sec_fixed { // inside a section, the structure is narrowed to it
	static constexpr const char *name = "tbb_sections+bag";
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		const auto b = noarr::make_bag(s, static_cast<void *>(buf));
		noarr::tbb_for_sections(t, [b, salt](auto inner) { inner.for_each(W_bag<decltype(b)>{b, salt}); });
	}
};
struct owned_bag_ref { // an owning bag, written through references to it
	static constexpr const char *name = "tbb+get_ref";
	static void run(const auto &t, const auto &s, unsigned char *buf, std::uint64_t salt) {
		const auto size = s | noarr::get_size();
		const auto b = noarr::make_bag(s);
		unsigned char *d = static_cast<unsigned char *>(b.data());
		for (std::size_t i = 0; i < size; i++)
			d[i] = own::FILL;
		const auto r = b.get_ref();
		noarr::tbb_for_each(t, W_bag<decltype(r)>{r, salt});
		for (std::size_t i = 0; i < size; i++)
			buf[i] = d[i];
	}
};

template<class Case, class Exec>
struct Scen {
	static void run() {
		Case::with([](const auto &t, const auto &s, const Space &m) {
			std::vector<Ent> *want;
			unsigned char *buf;
			const std::size_t size = s | noarr::get_size();
			const auto salt = sim::decide(sim::K_DATA, 1000);
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				buf = static_cast<unsigned char *>(sim::buffer(size, own::FILL));
				sim::note("%s %s team=%d space=%s size=%zu", Case::name, Exec::name, sim::team(), m.text().c_str(), size);
			}
			const auto from = sim::events();
			Exec::run(t, s, buf, salt);
			own::check(from, *want, m.exact, buf, size, salt, Exec::name);
			const sim::Pause p;
			if (want->size() > 300)
				sim::probe("large_space");
			sim::buffer_free(buf);
			delete want;
		});
	}
};

// Structures that do not fit in memory: only the places are observed
constexpr std::uint32_t PLACE = 62;
template<class S>
struct Where {
	S s;
	char *base;
	void put(const Key &k, std::size_t at, std::size_t size) const {
		sim::rec(own::WROTE + static_cast<std::uint32_t>(size), k.v[0], k.v[1], k.v[2], k.v[3], k.v[4], k.v[5]);
		sim::rec(PLACE, static_cast<i64>(at));
	}
};
template<class S>
struct P_offset : Where<S> {
	void operator()(const auto &st) const {
		using E = noarr::scalar_t<S, std::remove_cvref_t<decltype(st)>>;
		this->put(key_of(st), this->s | noarr::offset(st), sizeof(E));
	}
};
template<class S>
struct P_get_at : Where<S> {
	void operator()(const auto &st) const {
		auto &e = this->s | noarr::get_at(this->base, st);
		this->put(key_of(st), reinterpret_cast<std::uintptr_t>(&e) - reinterpret_cast<std::uintptr_t>(this->base), sizeof(e));
	}
};
template<class S>
struct P_volatile : Where<S> {
	void operator()(const auto &st) const {
		volatile auto &e = this->s | noarr::get_at(static_cast<volatile void *>(this->base), st);
		const volatile auto &ce = this->s | noarr::get_at(static_cast<const volatile void *>(this->base), st);
		const auto &c = this->s | noarr::get_at(static_cast<const void *>(this->base), st);
		if (&ce != &e || &c != &e)
			sim::fail("other_address", "element %s is elsewhere through a const or volatile pointer", model::show(key_of(st)).c_str());
		this->put(key_of(st), reinterpret_cast<std::uintptr_t>(&e) - reinterpret_cast<std::uintptr_t>(this->base), sizeof(e));
	}
};
template<class S>
struct P_bag : Where<S> {
	void operator()(const auto &st) const {
		const auto b = noarr::make_bag(this->s, static_cast<void *>(this->base));
		auto &e = b[st];
		this->put(key_of(st), reinterpret_cast<std::uintptr_t>(&e) - reinterpret_cast<std::uintptr_t>(this->base), sizeof(e));
	}
};
struct at_offset {
	static constexpr const char *name = "place/offset";
	static void run(const auto &t, const auto &s, char *base) { noarr::tbb_for_each(t, P_offset<std::remove_cvref_t<decltype(s)>>{{s, base}}); }
};
struct at_get_at {
	static constexpr const char *name = "place/get_at";
	static void run(const auto &t, const auto &s, char *base) { noarr::omp_for_each(t, P_get_at<std::remove_cvref_t<decltype(s)>>{{s, base}}); }
};
struct at_volatile {
	static constexpr const char *name = "place/volatile";
	static void run(const auto &t, const auto &s, char *base) { noarr::tbb_for_each(t, P_volatile<std::remove_cvref_t<decltype(s)>>{{s, base}}); }
};
struct at_bag {
	static constexpr const char *name = "place/bag";
	static void run(const auto &t, const auto &s, char *base) {
		noarr::tbb_for_sections(t, [&](auto inner) { inner.for_each(P_bag<std::remove_cvref_t<decltype(s)>>{{s, base}}); });
	}
};
template<class Case, class Exec>
struct Far {
	static void run() {
		Case::with([](const auto &t, const auto &s, const Space &m) {
			std::vector<Ent> *want;
			const std::size_t size = s | noarr::get_size();
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				sim::note("%s %s team=%d space=%s size=%zu", Case::name, Exec::name, sim::team(), m.text().c_str(), size);
			}
			const auto from = sim::events();
			Exec::run(t, s, reinterpret_cast<char *>(std::uintptr_t(1) << 46));
			const sim::Pause p;
			std::vector<Key> got;
			std::map<Key, std::pair<i64, i64>> at;
			for (std::size_t i = from; i < sim::events(); i++) {
				const auto &e = sim::event(i);
				if (e.op > own::WROTE && e.op < own::WROTE + 64) {
					got.push_back(hist::ev_key(e));
					at[got.back()] = {sim::event(i + 1).v[0], e.op - own::WROTE};
				}
			}
			hist::compare(got, hist::keys(*want), Exec::name);
			std::map<i64, std::pair<i64, const Key *>> used;
			for (auto &e : *want) {
				const auto [a, n] = at[e.k];
				if (m.exact && a != e.off)
					sim::fail("wrong_place", "element %s is at byte %lld, it lies at byte %lld", model::show(e.k).c_str(), (long long)a,
					          (long long)e.off);
				if (a < 0 || static_cast<std::size_t>(a + n) > size)
					sim::fail("outside", "element %s lies at byte %lld of a structure of %zu bytes", model::show(e.k).c_str(), (long long)a, size);
				auto it = used.lower_bound(a);
				if ((it != used.end() && it->first < a + n) || (it != used.begin() && std::prev(it)->second.first > a))
					sim::fail("overlap", "element %s at byte %lld overlaps another one", model::show(e.k).c_str(), (long long)a);
				used[a] = {a + n, &e.k};
			}
			if (m.exact && static_cast<std::size_t>(m.size()) != size)
				sim::fail("size", "size() is %zu, expected %lld", size, (long long)m.size());
			sim::probe("beyond_4GiB");
			delete want;
		});
	}
};

using Inj = typename cases::only_inj<typename cases::Cat<cases::All, cases::Lay2>::type>::type;
const bool registered = [] {
	scale().huge = 200;
	register_grid<Scen>(Inj(), cases::List<tbb_bag, omp_get_at, std_offset>(), 2);
	register_grid<Scen>(cases::Cat<cases::Lay, cases::Lay2>::type(), cases::List<tbb_sec_fixed>(), 2);
	register_grid<Scen>(cases::List<cases::v2, cases::v2_tiles, cases::v2_tuple, cases::v3, cases::lay_dyn>(), cases::List<tbb_volatile>(), 1);
	register_grid<Scen>(cases::List<cases::v1, cases::v2_tiles, cases::lay_tiled, cases::v2_tuple, cases::lay_dyn>(),
	                    cases::List<owned_bag_ref>(), 2);
	register_grid<Far>(cases::Huge(), cases::List<at_offset, at_get_at, at_bag, at_volatile>(), 2);
	return true;
}();

} // namespace
