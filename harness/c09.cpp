// C09: cuda_threads covers the index space exactly once over any grid schedule
#include "cuda/cuda_stub.hpp"
#include "owner.hpp"

#include <noarr/structures/interop/cuda_traverser.cuh>

using noarr::cuda_threads;

// f(cuda traverser, data structure, model, bound dimensions as block/thread pairs)
namespace cases {
CASE(c_blocks, true) {
	const auto b = P(1, 7), n = b * L3();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(cuda_threads<'B', 'b'>(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b)), s, m.vec('i', n).seal().into_blocks('i', 'B', 'b', b), "Bb");
}
CASE(c_dyn, true) {
	const auto b = P(1, 7), n = L1() / 2;
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(cuda_threads<'B', 'b'>(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b)), s,
	  m.vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b), "Bb");
}
CASE(c_dyn_swapped, true) { // blocks of threads take the minor index
	const auto b = P(1, 6), n = L1() / 2;
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(cuda_threads<'b', 'B'>(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b)), s,
	  m.vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b), "bB");
}
CASE(c_plain2, true) {
	const auto n = L3(), k = L3();
	auto s = scalar<double>() ^ vectors<'i', 'j'>(n, k);
	Space m(8);
	f(cuda_threads<'j', 'i'>(traverser(s)), s, m.vec('i', n).vec('j', k).seal(), "ji");
}
CASE(c_rest, true) { // dimensions left to each thread
	const auto n = L3(), k = P(1, 4), q = L3(), r = P(0, 3);
	auto s = scalar<int>() ^ vectors<'i', 'j', 'k', 'l'>(n, k, q, r);
	Space m(4);
	f(cuda_threads<'k', 'j'>(traverser(s) ^ reverse<'i'>() ^ hoist<'l'>()), s,
	  m.vec('i', n).vec('j', k).vec('k', q).vec('l', r).seal().reverse('i').hoist('l'), "kj");
}
CASE(c_two_pairs, true) {
	const auto b = P(1, 3), c = P(1, 4), n = b * P(0, 4), k = c * P(0, 3);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(cuda_threads<'B', 'b', 'C', 'c'>(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ into_blocks<'j', 'C', 'c'>(c)), s,
	  m.vec('i', n).vec('j', k).seal().into_blocks('i', 'B', 'b', b).into_blocks('j', 'C', 'c', c), "BbCc");
}
CASE(c_two_pairs_dyn, true) {
	const auto b = P(1, 4), c = P(1, 4), n = P(0, 9), k = P(0, 9);
	auto s = scalar<std::int16_t>() ^ vectors<'i', 'j'>(n, k);
	Space m(2);
	f(cuda_threads<'C', 'c', 'B', 'b'>(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b) ^ into_blocks_dynamic<'j', 'C', 'c', 'q'>(c)), s,
	  m.vec('i', n).vec('j', k).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b).into_blocks_dynamic('j', 'C', 'c', 'q', c), "CcBb");
}
CASE(c_three_pairs, true) {
	const auto b = P(1, 3), c = P(1, 2), d = P(1, 3), n = b * P(0, 3), k = c * P(1, 3), q = d * P(1, 2);
	auto s = scalar<int>() ^ vectors<'i', 'j', 'k'>(n, k, q);
	Space m(4);
	f(cuda_threads<'B', 'b', 'C', 'c', 'D', 'd'>(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ into_blocks<'j', 'C', 'c'>(c) ^
	                                               into_blocks<'k', 'D', 'd'>(d)),
	  s, m.vec('i', n).vec('j', k).vec('k', q).seal().into_blocks('i', 'B', 'b', b).into_blocks('j', 'C', 'c', c).into_blocks('k', 'D', 'd', d),
	  "BbCcDd");
}
CASE(c_three_dyn, true) {
	const auto b = P(1, 3), c = P(1, 3), d = P(1, 3), n = P(0, 5), k = P(1, 5), q = P(1, 5);
	auto s = scalar<int>() ^ vectors<'k', 'i', 'j'>(q, n, k);
	Space m(4);
	f(cuda_threads<'B', 'b', 'C', 'c', 'D', 'd'>(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b) ^
	                                               into_blocks_dynamic<'j', 'C', 'c', 'q'>(c) ^ into_blocks_dynamic<'k', 'D', 'd', 'r'>(d)),
	  s,
	  m.vec('k', q).vec('i', n).vec('j', k).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b).into_blocks_dynamic('j', 'C', 'c', 'q', c).into_blocks_dynamic('k', 'D', 'd', 'r', d),
	  "BbCcDd");
}
CASE(c_slice_tile, true) {
	const auto n = L1() / 2, a = upto(n), l = upto(n - a), b = P(1, 5), k = P(0, 3);
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n);
	Space m(4);
	f(cuda_threads<'B', 'b'>(traverser(s) ^ slice<'i'>(a, l) ^ reverse<'i'>() ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b)), s,
	  m.vec('j', k).vec('i', n).seal().slice('i', a, l).reverse('i').into_blocks_dynamic('i', 'B', 'b', 'p', b), "Bb");
}
CASE(c_matmul, false) { // each thread computes one element, looping over k
	const auto b = P(1, 3), c = P(1, 3), n = b * P(0, 3), k = c * P(0, 3), q = L3();
	auto a1 = scalar<int>() ^ vectors<'i', 'k'>(n, q);
	auto b1 = scalar<int>() ^ vectors<'k', 'j'>(q, k);
	auto c1 = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4), mb(4), mc(4);
	m.vec('i', n).vec('k', q).seal();
	mb.vec('k', q).vec('j', k);
	mc.vec('i', n).vec('j', k);
	m.unite(mb).unite(mc).into_blocks('i', 'B', 'b', b).into_blocks('j', 'C', 'c', c);
	f(cuda_threads<'B', 'b', 'C', 'c'>(traverser(a1, b1, c1) ^ into_blocks<'i', 'B', 'b'>(b) ^ into_blocks<'j', 'C', 'c'>(c)), a1, m, "BbCc");
}
CASE(c_merged, true) {
	const auto n = P(0, 8), k = P(0, 8), b = P(1, 6);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(cuda_threads<'B', 'b'>(traverser(s) ^ merge_blocks<'i', 'j', 'z'>() ^ into_blocks_dynamic<'z', 'B', 'b', 'p'>(b)), s,
	  m.vec('i', n).vec('j', k).seal().merge_blocks('i', 'j', 'z').into_blocks_dynamic('z', 'B', 'b', 'p', b), "Bb");
}
CASE(c_static, true) {
	const auto n = P(0, 9);
	auto s = scalar<int>() ^ array<'j', 6>() ^ vector<'i'>(n);
	Space m(4);
	f(cuda_threads<'i', 'j'>(traverser(s)), s, m.vec('j', 6).vec('i', n).seal(), "ij");
}
CASE(c_tuple_inside, true) {
	const auto n = P(0, 8), b = P(1, 4);
	auto s = pack(scalar<int>(), scalar<double>()) ^ tuple<'k'>() ^ vector<'i'>(n);
	Space m(1);
	f(cuda_threads<'B', 'b'>(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b)), s,
	  m.tuple('k', {4, 8}).vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b), "Bb");
}
// launches far too large to be executed: sampled
inline std::size_t G() { return (std::size_t(1) << sim::range(8, 31)) - 1 - sim::decide(sim::K_DATA, 200); } // grid extent
inline std::size_t T() { return sim::param(2) ? P(1, 1024) : P(1, 32); }                                    // block extent
CASE(g_blocks, true) {
	const auto b = T(), n = b * G();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(cuda_threads<'B', 'b'>(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b)), s, m.vec('i', n).seal().into_blocks('i', 'B', 'b', b), "Bb");
}
CASE(g_dyn, true) {
	const auto b = T(), n = b * G() - upto(b - 1);
	auto s = scalar<double>() ^ vector<'i'>(n);
	Space m(8);
	f(cuda_threads<'B', 'b'>(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b)), s,
	  m.vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b), "Bb");
}
CASE(g_rest, true) {
	const auto b = T(), n = b * G(), k = P(0, 3);
	auto s = scalar<short>() ^ vectors<'j', 'i'>(k, n);
	Space m(2);
	f(cuda_threads<'B', 'b'>(traverser(s) ^ reverse<'i'>() ^ into_blocks<'i', 'B', 'b'>(b)), s,
	  m.vec('j', k).vec('i', n).seal().reverse('i').into_blocks('i', 'B', 'b', b), "Bb");
}
CASE(g_plain, true) {
	const auto n = T(), k = G();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(cuda_threads<'j', 'i'>(traverser(s)), s, m.vec('i', n).vec('j', k).seal(), "ji");
}
CASE(g_two, true) {
	const auto b = P(1, 32), c = P(1, 32), n = b * G(), k = c * P(1, 65535) - upto(c - 1);
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n);
	Space m(4);
	f(cuda_threads<'B', 'b', 'C', 'c'>(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ into_blocks_dynamic<'j', 'C', 'c', 'q'>(c)), s,
	  m.vec('j', k).vec('i', n).seal().into_blocks('i', 'B', 'b', b).into_blocks_dynamic('j', 'C', 'c', 'q', c), "BbCc");
}
CASE(g_three, true) {
	const auto b = P(1, 9), c = P(1, 9), d = P(1, 9), n = b * (G() >> 8) + b, k = c * P(1, 6000), q = d * P(1, 6000);
	auto s = scalar<char>() ^ vectors<'i', 'j', 'k'>(n, k, q);
	Space m(1);
	f(cuda_threads<'B', 'b', 'C', 'c', 'D', 'd'>(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ into_blocks<'j', 'C', 'c'>(c) ^
	                                               into_blocks<'k', 'D', 'd'>(d)),
	  s, m.vec('i', n).vec('j', k).vec('k', q).seal().into_blocks('i', 'B', 'b', b).into_blocks('j', 'C', 'c', c).into_blocks('k', 'D', 'd', d),
	  "BbCcDd");
}
CASE(g_merged, true) {
	const auto n = G(), k = P(1, 5000), b = T();
	auto s = scalar<char>() ^ vectors<'i', 'j'>(n >> 12, k);
	Space m(1);
	f(cuda_threads<'B', 'b'>(traverser(s) ^ merge_blocks<'i', 'j', 'z'>() ^ into_blocks_dynamic<'z', 'B', 'b', 'p'>(b)), s,
	  m.vec('i', n >> 12).vec('j', k).seal().merge_blocks('i', 'j', 'z').into_blocks_dynamic('z', 'B', 'b', 'p', b), "Bb");
}
using Large = List<g_blocks, g_dyn, g_rest, g_plain, g_two, g_three, g_merged>;
using Cuda = List<c_blocks, c_dyn, c_dyn_swapped, c_plain2, c_rest, c_two_pairs, c_two_pairs_dyn, c_three_pairs, c_three_dyn, c_slice_tile,
                  c_matmul, c_merged, c_static, c_tuple_inside>;
} // namespace cases

namespace {

struct all_states {
	static constexpr const char *name = "for_each";
	template<class I, class F>
	static void run(const I &inner, const F &f) {
		inner.for_each(f);
	}
};
struct by_sections { // dimensions that are left are looped over by the thread in two levels
	static constexpr const char *name = "sections";
	template<class I, class F>
	static void run(const I &inner, const F &f) {
		inner.for_sections([&f](auto t) { t.for_each(f); });
	}
};

template<class S, class E>
struct Write {
	const S *s;
	unsigned char *buf;
	std::uint64_t salt;
	void operator()(const auto &st) const { own::write(*s | noarr::get_at(buf, st), key_of(st), salt, buf); }
};

template<class Case, class Exec>
struct Scen {
	static void run() {
		Case::with([](const auto &ct, const auto &s, const Space &m, const char *bound) {
			std::vector<Ent> *want;
			unsigned char *buf;
			hist::Cells *cells;
			const std::size_t size = s | noarr::get_size();
			const auto salt = sim::decide(sim::K_DATA, 1000);
			const int workers = static_cast<int>(sim::range(1, 6));
			const dim3 g = ct.grid_dim(), b = ct.block_dim();
			std::uint64_t threads = 1;
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				cells = new hist::Cells(*want);
				buf = static_cast<unsigned char *>(sim::buffer(size, own::FILL));
				sim::note("%s %s workers=%d space=%s grid %ux%ux%u block %ux%ux%u", Case::name, Exec::name, workers, m.text().c_str(), g.x,
				          g.y, g.z, b.x, b.y, b.z);
				uint dims[6] = {1, 1, 1, 1, 1, 1};
				for (int i = 0; bound[i]; i++) {
					dims[i] = static_cast<uint>(m.len(bound[i]));
					threads *= dims[i];
				}
				if (g.x != dims[0] || b.x != dims[1] || g.y != dims[2] || b.y != dims[3] || g.z != dims[4] || b.z != dims[5])
					sim::fail("launch_shape", "grid %ux%ux%u, block %ux%ux%u; bound dimensions are %ux%ux%u, %ux%ux%u", g.x, g.y, g.z, b.x,
					          b.y, b.z, dims[0], dims[2], dims[4], dims[1], dims[3], dims[5]);
				if (static_cast<bool>(ct) != (threads != 0))
					sim::fail("launch_bool", "converts to %d for a launch of %llu threads", (int)static_cast<bool>(ct), (unsigned long long)threads);
				if (!threads)
					sim::probe("empty_launch");
			}
			const auto from = sim::events();
			const auto inner = ct.inner();
			if (threads) {
				if constexpr (Case::inj) {
					cuda_stub::launch(
						g, b, [&] { Exec::run(inner, Write<std::remove_cvref_t<decltype(s)>, int>{&s, buf, salt}); }, workers);
				} else {
					cuda_stub::launch(
						g, b, [&] { Exec::run(inner, hist::Visitor{cells}); }, workers);
				}
			}
			if constexpr (Case::inj)
				own::check(from, *want, m.exact, buf, size, salt, "cuda_threads");
			else
				hist::check_complete(from, *want, "cuda_threads");
			const sim::Pause p;
			sim::buffer_free(buf);
			delete cells;
			delete want;
		});
	}
};

inline bool check_shape(const dim3 &g, const dim3 &b, bool launchable, const Space &m, const char *bound) {
	uint dims[6] = {1, 1, 1, 1, 1, 1};
	bool any = true;
	for (int i = 0; bound[i]; i++) {
		dims[i] = static_cast<uint>(m.len(bound[i]));
		any = any && dims[i];
	}
	if (g.x != dims[0] || b.x != dims[1] || g.y != dims[2] || b.y != dims[3] || g.z != dims[4] || b.z != dims[5])
		sim::fail("launch_shape", "grid %ux%ux%u, block %ux%ux%u; bound dimensions are %ux%ux%u, %ux%ux%u", g.x, g.y, g.z, b.x, b.y, b.z,
		          dims[0], dims[2], dims[4], dims[1], dims[3], dims[5]);
	if (launchable != any)
		sim::fail("launch_bool", "converts to %d for a launch with%s threads", (int)launchable, any ? "" : "out");
	return any;
}

// sampled threads of a launch: each visits exactly the elements of its own coordinates
struct sampled {
	static constexpr const char *name = "sampled";
};
template<class Case, class>
struct Sample {
	struct One {
		uint c[6];
		std::vector<Ent> got; // key and place
	};
	template<class I, class S>
	struct Job {
		const I *inner;
		const S *s;
		dim3 g, b;
		std::vector<One> todo;
		std::size_t next = 0;
		static void worker(void *p) {
			auto &j = *static_cast<Job *>(p);
			for (;;) {
				One *o;
				{
					const sim::Pause z;
					if (j.next == j.todo.size())
						return;
					o = &j.todo[j.next++];
				}
				auto &t = cuda_stub::tls();
				t.grid_dim[0] = j.g.x, t.grid_dim[1] = j.g.y, t.grid_dim[2] = j.g.z;
				t.block_dim[0] = j.b.x, t.block_dim[1] = j.b.y, t.block_dim[2] = j.b.z;
				for (int d = 0; d < 3; d++)
					t.block_idx[d] = o->c[2 * d], t.thread_idx[d] = o->c[2 * d + 1];
				j.inner->for_each([&](auto st) {
					const Ent e{key_of(st), static_cast<i64>(*j.s | noarr::offset(st))};
					sim::step(1);
					const sim::Pause z;
					o->got.push_back(e);
				});
				sim::step(1);
			}
		}
	};
	static void run() {
		Case::with([](const auto &ct, const auto &s, const Space &m, const char *bound) {
			const dim3 g = ct.grid_dim(), b = ct.block_dim();
			const auto inner = ct.inner();
			using J = Job<std::remove_cvref_t<decltype(inner)>, std::remove_cvref_t<decltype(s)>>;
			J *j;
			bool any;
			{
				const sim::Pause p;
				sim::note("%s space=%s grid %ux%ux%u block %ux%ux%u", Case::name, m.text().c_str(), g.x, g.y, g.z, b.x, b.y, b.z);
				any = check_shape(g, b, static_cast<bool>(ct), m, bound);
				j = new J{&inner, &s, g, b, {}, 0};
				for (int k = 0; any && k < 12; k++) {
					One o{};
					for (int i = 0; bound[i]; i++) {
						const auto n = static_cast<std::uint32_t>(m.len(bound[i]));
						switch (sim::decide(sim::K_DATA, 3)) {
						case 0: o.c[i] = n - 1 - sim::decide(sim::K_DATA, std::min(n, 3u)); break;
						case 1: o.c[i] = sim::decide(sim::K_DATA, std::min(n, 3u)); break;
						default: o.c[i] = sim::decide(sim::K_DATA, n); break;
						}
					}
					j->todo.push_back(o);
				}
			}
			int tids[3];
			for (int &t : tids)
				t = sim::spawn(J::worker, j);
			for (const int t : tids)
				sim::join(t);
			const sim::Pause p;
			for (auto &o : j->todo) {
				Space c = m;
				for (int i = 0; bound[i]; i++)
					c.fix(bound[i], o.c[i]);
				auto want = c.all();
				auto less = [](const Ent &x, const Ent &y) { return x.k < y.k; };
				std::sort(want.begin(), want.end(), less);
				std::sort(o.got.begin(), o.got.end(), less);
				hist::compare(hist::keys(o.got), hist::keys(want), "sampled thread");
				for (std::size_t i = 0; i < want.size(); i++)
					if (m.exact && want[i].off != o.got[i].off)
						sim::fail("wrong_place", "element %s is at byte %lld, it lies at byte %lld", model::show(want[i].k).c_str(),
						          (long long)o.got[i].off, (long long)want[i].off);
			}
			if (g.x > 65535)
				sim::probe("grid_beyond_16_bits");
			delete j;
		});
	}
};

const bool registered = [] {
	register_grid<Scen>(cases::Cuda(), cases::List<all_states>(), 3);
	register_grid<Scen>(cases::List<cases::c_rest, cases::c_matmul, cases::c_dyn, cases::c_two_pairs_dyn>(), cases::List<by_sections>(), 2);
	register_grid<Sample>(cases::Large(), cases::List<sampled>(), 2);
	return true;
}();

} // namespace
