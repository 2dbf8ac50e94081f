// C11: cuda_striped gives each stripe a private, conflict-free copy
#include "cuda/cuda_stub.hpp"
#include "owner.hpp"

#include <array>
#include <set>

#include <noarr/structures/interop/cuda_step.cuh>
#include <noarr/structures/interop/cuda_striped.cuh>

using noarr::cuda_stripe_idx;
using noarr::cuda_striped;

namespace {

struct Big {
	int a, b, c;
};

// f(original structure, model of its keys)
struct ints {
	static constexpr const char *name = "int";
	using elem = noarr::scalar<int>;
	template<class F>
	static void with(F &&f) {
		const auto n = P(0, 40);
		Space m(4);
		f(scalar<int>() ^ vector<'i'>(n), m.vec('i', n).seal());
	}
};
struct chars2 {
	static constexpr const char *name = "char_2d";
	using elem = noarr::scalar<char>;
	template<class F>
	static void with(F &&f) {
		const auto n = P(0, 9), k = P(0, 6);
		Space m(1);
		f(scalar<char>() ^ vectors<'i', 'j'>(n, k), m.vec('i', n).vec('j', k).seal());
	}
};
struct doubles {
	static constexpr const char *name = "double";
	using elem = noarr::scalar<double>;
	template<class F>
	static void with(F &&f) {
		const auto n = P(0, 20);
		Space m(8);
		f(scalar<double>() ^ vector<'i'>(n), m.vec('i', n).seal());
	}
};
struct shorts_static {
	static constexpr const char *name = "short_static";
	using elem = noarr::scalar<std::int16_t>;
	template<class F>
	static void with(F &&f) {
		const auto n = P(0, 6);
		Space m(2);
		f(scalar<std::int16_t>() ^ array<'j', 3>() ^ vector<'i'>(n), m.vec('j', 3).vec('i', n).seal());
	}
};
struct triples { // pieces of three elements
	static constexpr const char *name = "triple";
	using elem = decltype(noarr::scalar<int>() ^ noarr::array<'j', 3>());
	template<class F>
	static void with(F &&f) {
		const auto n = P(0, 9);
		Space m(4);
		f(scalar<int>() ^ array<'j', 3>() ^ vector<'i'>(n), m.vec('j', 3).vec('i', n).seal());
	}
};
struct pairs { // pieces that are tuples
	static constexpr const char *name = "pair";
	using elem = decltype(noarr::pack(noarr::scalar<int>(), noarr::scalar<float>()) ^ noarr::tuple<'k'>());
	template<class F>
	static void with(F &&f) {
		const auto n = P(0, 9);
		Space m(1);
		f(pack(scalar<int>(), scalar<float>()) ^ tuple<'k'>() ^ vector<'i'>(n), m.tuple('k', {4, 4}).vec('i', n).seal());
	}
};
struct view { // a part of the original, in another order
	static constexpr const char *name = "view";
	using elem = noarr::scalar<int>;
	template<class F>
	static void with(F &&f) {
		const auto n = P(1, 9), k = P(1, 4), a = upto(n);
		Space m(4);
		f(scalar<int>() ^ vectors<'j', 'i'>(k, n) ^ shift<'i'>(a) ^ reverse<'i'>() ^ hoist<'j'>(),
		  m.vec('j', k).vec('i', n).shift('i', a).reverse('i').hoist('j').seal());
	}
};

template<std::size_t N, std::size_t Count, std::size_t Width>
struct Stripes {
	static constexpr std::size_t n = N, count = Count, width = Width;
	static constexpr auto name_str = [] {
		std::array<char, 32> a{};
		int p = 0;
		auto num = [&](std::size_t x) {
			char t[8];
			int l = 0;
			do
				t[l++] = static_cast<char>('0' + x % 10);
			while (x /= 10);
			while (l)
				a[p++] = t[--l];
		};
		num(N);
		a[p++] = 'x';
		num(Count);
		a[p++] = 'x';
		num(Width);
		return a;
	}();
	static constexpr const char *name = name_str.data();
};

constexpr std::uint32_t PUT = 40, PUT_AT = 41;

struct Shm {
	std::vector<Ent> *want;
	unsigned char *buf;
	Shm(const Space &m, std::size_t size) {
		const sim::Pause p;
		want = new std::vector<Ent>(m.all());
		buf = static_cast<unsigned char *>(sim::buffer(size, own::FILL));
	}
	~Shm() {
		const sim::Pause p;
		sim::buffer_free(buf);
		delete want;
	}
};

struct Spot {
	i64 stripe;
	i64 at, size;
};

// placement of the elements of all used stripes: inside, disjoint, separate cells, separate banks, regular
[[gnu::noinline]] void check_places(const std::map<std::pair<i64, Key>, Spot> &spots, std::size_t size, std::size_t width,
                                    std::size_t count, std::size_t max_conflict) {
	std::vector<i64> byte_owner(size, -1), cell_owner(size / width + 2, -1);
	std::vector<std::set<i64>> bank(count);
	for (auto &[k, s] : spots) {
		if (s.at < 0 || s.at + s.size > static_cast<i64>(size))
			sim::fail("outside", "stripe %lld element %s lies at byte %lld of a structure of %zu bytes", (long long)s.stripe,
			          model::show(k.second).c_str(), (long long)s.at, size);
		for (i64 b = s.at; b < s.at + s.size; b++) {
			if (byte_owner[b] >= 0)
				sim::fail("overlap", "byte %lld belongs to two elements (stripes %lld and %lld)", (long long)b, (long long)byte_owner[b],
				          (long long)s.stripe);
			byte_owner[b] = s.stripe;
			auto &c = cell_owner[b / static_cast<i64>(width)];
			if (c >= 0 && c != s.stripe)
				sim::fail("shared_cell", "the memory cell of byte %lld holds data of stripes %lld and %lld", (long long)b, (long long)c,
				          (long long)s.stripe);
			c = s.stripe;
			bank[b / static_cast<i64>(width) % static_cast<i64>(count)].insert(s.stripe);
		}
	}
	for (std::size_t b = 0; b < count; b++)
		if (bank[b].size() > max_conflict)
			sim::fail("bank_conflict", "bank %zu holds data of %zu stripes, max_conflict_size is %zu", b, bank[b].size(), max_conflict);
	std::map<Key, std::map<i64, i64>> by_key;
	for (auto &[k, s] : spots)
		by_key[k.second][s.stripe] = s.at;
	i64 delta = -1;
	for (auto &[k, by_stripe] : by_key)
		for (auto &[q, at] : by_stripe)
			if (auto it = by_stripe.find(q + 1); it != by_stripe.end()) {
				if (delta >= 0 && it->second - at != delta)
					sim::fail("irregular", "the offset between neighboring stripes is %lld and %lld", (long long)delta,
					          (long long)(it->second - at));
				delta = it->second - at;
			}
}

// each stripe's threads share the work of filling the stripe's copy
template<class St, class Sh>
struct Fill {
	static constexpr const char *prefix = "fill";
	static void run() {
		St::with([](const auto &orig, const Space &m) {
			const auto s = orig ^ cuda_striped<Sh::n, typename St::elem, Sh::count, Sh::width>();
			const std::size_t size = s | noarr::get_size();
			const auto salt = sim::decide(sim::K_DATA, 1000);
			const uint threads = sim::range(1, sim::param(4) ? 24 : 80);
			const int workers = static_cast<int>(sim::range(1, 6));
			const Shm shm(m, size);
			sim::note("fill %s stripes=%s threads=%u workers=%d space=%s", St::name, Sh::name, threads, workers, m.text().c_str());
			const auto from = sim::events();
			cuda_stub::launch(
				dim3{1, 1, 1}, dim3{threads, 1, 1},
				[&] {
					const auto stripe = s.current_stripe_index();
					const auto group = s.current_stripe_cg();
					(traverser(s) ^ noarr::cuda_step(group)).for_each([&](auto st) {
						auto &e = s | noarr::get_at(shm.buf, st);
						const Key k = key_of(st);
						e = own::value<std::remove_reference_t<decltype(e)>>(k, salt + stripe);
						const i64 at = reinterpret_cast<unsigned char *>(&e) - shm.buf;
						const bool own_stripe = threadIdx.x % s.num_stripes() == stripe;
						const bool same_place = (&(s | noarr::get_at(shm.buf, st & cuda_stripe_idx(stripe)))) == &e;
						const i64 q = static_cast<i64>(stripe);
						constexpr i64 kind = std::is_floating_point_v<std::remove_reference_t<decltype(e)>> ? 32 : 0;
						const sim::Pause p; // the two events stay adjacent
						sim::rec(PUT, k.v[0], k.v[1], k.v[2], k.v[3], k.v[4], k.v[5]);
						sim::rec(PUT_AT, q, at, sizeof e, kind, own_stripe, same_place);
					});
				},
				workers);
			unsigned sum = 0;
			for (std::size_t i = 0; i < size; i++)
				sum += shm.buf[i];
			sim::mix(sum);
			const sim::Pause p;
			std::map<std::pair<i64, Key>, Spot> spots;
			std::vector<std::vector<Key>> got(Sh::n);
			std::vector<unsigned char> img(size, own::FILL);
			for (std::size_t i = from; i < sim::events(); i++)
				if (sim::event(i).op == PUT) {
					const Key k = hist::ev_key(sim::event(i));
					const auto &a = sim::event(i + 1).v;
					if (a[0] < 0 || a[0] >= static_cast<i64>(Sh::n) || !a[4])
						sim::fail("stripe_index", "stripe %lld of %zu", (long long)a[0], Sh::n);
					if (!a[5])
						sim::fail("explicit_stripe", "cuda_stripe_idx(%lld) selects another place than a thread of the stripe for %s",
						          (long long)a[0], model::show(k).c_str());
					got[a[0]].push_back(k);
					spots[{a[0], k}] = Spot{a[0], a[1], a[2]};
					if (a[1] >= 0 && a[1] + a[2] <= static_cast<i64>(size))
						own::put(img.data() + a[1], static_cast<std::uint32_t>(a[2] + a[3]), k, salt + a[0]);
				}
			for (std::size_t q = 0; q < Sh::n; q++)
				hist::compare(got[q], q < threads ? hist::keys(*shm.want) : std::vector<Key>(), "threads of a stripe");
			using S = std::remove_cvref_t<decltype(s)>;
			check_places(spots, size, Sh::width, Sh::count, S::max_conflict_size);
			if (std::memcmp(img.data(), shm.buf, size))
				sim::fail("wrong_bytes", "the shared memory does not hold what the threads have written");
			if (S::max_conflict_size == 1)
				sim::probe("no_conflicts_possible");
			else
				sim::probe("conflicts_possible");
		});
	}
};

// every thread of a stripe sees the same element at the same place: one of them writes, the others read after a barrier
template<class St, class Sh>
struct Share {
	static constexpr const char *prefix = "share";
	static void run() {
		St::with([](const auto &orig, const Space &m) {
			const auto s = orig ^ cuda_striped<Sh::n, typename St::elem, Sh::count, Sh::width>();
			const std::size_t size = s | noarr::get_size();
			const auto salt = sim::decide(sim::K_DATA, 1000);
			const uint threads = sim::range(1, 24);
			const Shm shm(m, size);
			sim::note("share %s stripes=%s threads=%u space=%s", St::name, Sh::name, threads, m.text().c_str());
			cuda_stub::launch_block(dim3{1, 1, 1}, dim3{threads, 1, 1}, 0, [&] {
				const auto stripe = s.current_stripe_index();
				const auto group = s.current_stripe_cg();
				(traverser(s) ^ noarr::cuda_step(group)).for_each([&](auto st) {
					auto &e = s | noarr::get_at(shm.buf, st);
					e = own::value<std::remove_reference_t<decltype(e)>>(key_of(st), salt + stripe);
				});
				cuda_stub::syncthreads();
				traverser(s).for_each([&](auto st) {
					const auto &e = s | noarr::get_at(shm.buf, st);
					if (e != own::value<std::remove_cvref_t<decltype(e)>>(key_of(st), salt + stripe))
						sim::fail("stripe_disagrees", "thread %u does not find the value of its stripe %zu at %s", threadIdx.x, stripe,
						          model::show(key_of(st)).c_str());
				});
			});
		});
	}
};

// block-privatised accumulation, barrier, merge over the stripes
template<class St, class Sh>
struct Accumulate {
	static constexpr const char *prefix = "accumulate";
	static void run() {
		St::with([](const auto &orig, const Space &m) {
			const auto s = orig ^ cuda_striped<Sh::n, typename St::elem, Sh::count, Sh::width>();
			using elem = noarr::scalar_t<std::remove_cvref_t<decltype(orig)>>;
			const std::size_t size = s | noarr::get_size();
			const uint threads = sim::range(1, 20);
			const std::size_t ninput = sim::length(20, 60);
			const Shm shm(m, size);
			const std::size_t nelem = shm.want->size();
			std::uint32_t *in;
			elem *out;
			std::vector<elem> *expect;
			{
				const sim::Pause p;
				sim::note("accumulate %s stripes=%s threads=%u inputs=%zu space=%s", St::name, Sh::name, threads, ninput, m.text().c_str());
				in = static_cast<std::uint32_t *>(sim::buffer(ninput * 4, 0));
				out = static_cast<elem *>(sim::buffer((nelem + 1) * sizeof(elem), 0));
				expect = new std::vector<elem>(nelem, elem(0));
				for (std::size_t i = 0; i < ninput; i++) {
					in[i] = nelem ? sim::decide(sim::K_DATA, static_cast<std::uint32_t>(nelem)) : 0;
					if (nelem)
						(*expect)[in[i]] = static_cast<elem>((*expect)[in[i]] + static_cast<elem>(i % 50 + 1));
				}
			}
			const auto input = scalar<std::uint32_t>() ^ vector<'x'>(ninput);
			const bool exclusive = threads <= Sh::n;
			const std::size_t used = exclusive ? threads : Sh::n;
			const auto number = [&](auto st) { // position of an element in out
				const sim::Pause p;
				const Key k = key_of(st);
				for (std::size_t i = 0; i < nelem; i++)
					if ((*shm.want)[i].k == k)
						return i;
				return nelem;
			};
			cuda_stub::launch_block(dim3{1, 1, 1}, dim3{threads, 1, 1}, 0, [&] {
				(traverser(s) ^ noarr::cuda_step(s.current_stripe_cg())).for_each([&](auto st) { (s | noarr::get_at(shm.buf, st)) = 0; });
				cuda_stub::syncthreads();
				(traverser(input) ^ noarr::cuda_step_block()).for_each([&](auto sx) {
					const std::size_t bin = input | noarr::get_at(in, sx);
					const auto val = static_cast<elem>(noarr::get_index<'x'>(sx) % 50 + 1);
					if (!nelem)
						return;
					traverser(s).for_each([&](auto st) { // find the bin by its number
						if (number(st) != bin)
							return;
						auto &e = s | noarr::get_at(shm.buf, st);
						if (exclusive) {
							const elem old = e;
							sim::step(1);
							e = static_cast<elem>(old + val);
						} else if constexpr (std::is_integral_v<elem>)
							__atomic_fetch_add(&e, val, __ATOMIC_RELAXED);
					});
				});
				cuda_stub::syncthreads();
				(traverser(s) ^ noarr::cuda_step_block()).for_each([&](auto st) {
					elem total = 0;
					for (std::size_t q = 0; q < used; q++)
						total = static_cast<elem>(total + (s | noarr::get_at(shm.buf, st & cuda_stripe_idx(q))));
					out[number(st)] = total;
				});
			});
			elem sum = 0;
			for (std::size_t i = 0; i < nelem; i++)
				sum = static_cast<elem>(sum + out[i]); // instrumented
			const sim::Pause p;
			if (exclusive || std::is_integral_v<elem>)
				for (std::size_t i = 0; i < nelem; i++)
					if (out[i] != (*expect)[i])
						sim::fail("wrong_sum", "bin %zu is %lld, the sequential result is %lld", i, (long long)out[i], (long long)(*expect)[i]);
			sim::buffer_free(in);
			sim::buffer_free(out);
			delete expect;
		});
	}
};

using Structs = cases::List<ints, chars2, doubles, shorts_static, triples, pairs, view>;
using Shapes = cases::List<Stripes<1, 32, 4>, Stripes<2, 32, 4>, Stripes<3, 32, 4>, Stripes<4, 32, 4>, Stripes<8, 32, 4>, Stripes<16, 32, 4>,
                           Stripes<32, 32, 4>, Stripes<5, 32, 4>, Stripes<11, 32, 4>, Stripes<40, 32, 4>, Stripes<3, 16, 8>, Stripes<4, 8, 4>,
                           Stripes<6, 16, 2>>;
using FewShapes = cases::List<Stripes<2, 32, 4>, Stripes<3, 32, 4>, Stripes<8, 32, 4>, Stripes<32, 32, 4>, Stripes<5, 16, 8>>;

const bool registered = [] {
	register_grid<Fill>(Structs(), Shapes(), 3);
	register_grid<Share>(Structs(), FewShapes(), 3);
	register_grid<Accumulate>(cases::List<ints, chars2, shorts_static, triples, view>(), FewShapes(), 3);
	return true;
}();

} // namespace
