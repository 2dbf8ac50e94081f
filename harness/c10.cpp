// C10: step/cuda_step partition a dimension among any group of workers
#include "cuda/cuda_stub.hpp"
#include "owner.hpp"

#include <noarr/structures/interop/cuda_step.cuh>

namespace cg = cooperative_groups;

template<char D>
using dim_c = std::integral_constant<char, D>;

// f(traverser, data structure, model, the dimension to be divided)
namespace cases {
CASE(s_v1, true) {
	const auto n = L1() / 2;
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s), s, m.vec('i', n).seal(), dim_c<'i'>());
}
CASE(s_inner, true) {
	const auto n = L3(), k = L2();
	auto s = scalar<double>() ^ vectors<'i', 'j'>(n, k);
	Space m(8);
	f(traverser(s), s, m.vec('i', n).vec('j', k).seal(), dim_c<'i'>());
}
CASE(s_outer, true) {
	const auto n = L3(), k = L2();
	auto s = scalar<std::int16_t>() ^ vectors<'i', 'j'>(n, k);
	Space m(2);
	f(traverser(s) ^ hoist<'i'>(), s, m.vec('i', n).vec('j', k).seal().hoist('i'), dim_c<'i'>());
}
CASE(s_slice, true) {
	const auto n = L1() / 2, a = upto(n), l = upto(n - a);
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ slice<'i'>(a, l), s, m.vec('i', n).seal().slice('i', a, l), dim_c<'i'>());
}
CASE(s_rev_step, true) { // a stepped dimension is divided once more
	const auto n = L1() / 2, q = P(1, 4), r = upto(q - 1);
	auto s = scalar<char>() ^ vector<'i'>(n);
	Space m(1);
	f(traverser(s) ^ reverse<'i'>() ^ step<'i'>(r, q), s, m.vec('i', n).seal().reverse('i').step('i', r, q), dim_c<'i'>());
}
CASE(s_tiles_major, true) {
	const auto b = P(1, 4), n = b * L3(), k = P(1, 3);
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b), s, m.vec('j', k).vec('i', n).seal().into_blocks('i', 'B', 'b', b), dim_c<'B'>());
}
CASE(s_tiles_minor, true) {
	const auto b = P(1, 9), n = b * L3();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b), s, m.vec('i', n).seal().into_blocks('i', 'B', 'b', b), dim_c<'b'>());
}
CASE(s_dyn_major, true) {
	const auto b = P(1, 5), n = L1() / 2;
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b), s, m.vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b),
	  dim_c<'B'>());
}
CASE(s_dyn_minor, true) {
	const auto b = P(1, 9), n = L1() / 2;
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b), s, m.vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b),
	  dim_c<'b'>());
}
CASE(s_merged, true) {
	const auto n = P(0, 8), k = P(0, 8);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ merge_blocks<'i', 'j', 't'>(), s, m.vec('i', n).vec('j', k).seal().merge_blocks('i', 'j', 't'), dim_c<'t'>());
}
CASE(s_zcurve, true) {
	const auto n = 4 * P(1, 3), k = 4 * P(1, 3);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ merge_zcurve<'i', 'j', 'z'>::template maxlen_alignment<16, 4>(), s,
	  m.vec('i', n).vec('j', k).seal().zcurve("ij", 'z'), dim_c<'z'>());
}
CASE(s_tuple, true) {
	const auto n = L3();
	auto s = pack(scalar<int>(), scalar<double>()) ^ tuple<'k'>() ^ vector<'i'>(n);
	Space m(1);
	f(traverser(s), s, m.tuple('k', {4, 8}).vec('i', n).seal(), dim_c<'i'>());
}
CASE(s_static, true) {
	auto s = scalar<int>() ^ array<'j', 5>() ^ array<'i', 7>();
	Space m(4);
	f(traverser(s), s, m.vec('j', 5).vec('i', 7).seal(), dim_c<'i'>());
}
CASE(s_union, false) { // the divided dimension belongs to several structures
	const auto n = L3(), k = L3(), q = P(1, 4);
	auto a1 = scalar<int>() ^ vectors<'i', 'k'>(n, q);
	auto b1 = scalar<int>() ^ vectors<'k', 'j'>(q, k);
	Space m(4), mb(4);
	m.vec('i', n).vec('k', q).seal();
	mb.vec('k', q).vec('j', k);
	m.unite(mb);
	f(traverser(a1, b1), a1, m, dim_c<'k'>());
}
CASE(s_layout, true) { // the structure itself is a view
	const auto n = P(1, 20), a = upto(n), k = P(1, 4);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k) ^ shift<'i'>(a) ^ reverse<'i'>();
	Space m(4);
	m.vec('i', n).vec('j', k).shift('i', a).reverse('i').seal();
	f(traverser(s), s, m, dim_c<'i'>());
}

using Steps = List<s_v1, s_inner, s_outer, s_slice, s_rev_step, s_tiles_major, s_tiles_minor, s_dyn_major, s_dyn_minor, s_merged,
                   s_zcurve, s_tuple, s_static, s_union, s_layout>;
using Some = List<s_v1, s_outer, s_slice, s_tiles_major, s_dyn_major, s_merged, s_static, s_layout>;
using Plain = List<s_v1, s_inner, s_outer, s_tuple, s_static, s_layout>; // the traversal is that of the structure
} // namespace cases

namespace {

// how the group is made and what order its members apply
struct ranks { // any kind of worker: rank, number
	static constexpr const char *name = "step_named";
	static dim3 grid() { return {1, 1, 1}; }
	static dim3 block() { return {static_cast<uint>(P(1, 9)), 1, 1}; }
	template<char D>
	static auto order() {
		return step<D>(cg::thread_block::thread_rank(), cg::thread_block::num_threads());
	}
};
struct ranks_auto : ranks {
	static constexpr const char *name = "step_auto";
	template<char>
	static auto order() {
		return step(std::size_t(cg::thread_block::thread_rank()), std::size_t(cg::thread_block::num_threads()));
	}
};
struct ranks_two : ranks { // two levels of division
	static constexpr const char *name = "step_step";
	static dim3 grid() { return {static_cast<uint>(P(1, 3)), 1, 1}; }
	static dim3 block() { return {static_cast<uint>(P(1, 4)), 1, 1}; }
	template<char D>
	static auto order() {
		return step<D>(blockIdx.x, gridDim.x) ^ step<D>(threadIdx.x, blockDim.x);
	}
};
struct ranks_static : ranks {
	static constexpr const char *name = "step_static_stride";
	static dim3 block() { return {4, 1, 1}; }
	template<char D>
	static auto order() {
		return step<D>(std::size_t(threadIdx.x), lit<4>);
	}
};
struct small_group { // a user-defined cooperative group
	std::size_t r, n;
	std::size_t thread_rank() const { return r; }
	std::size_t num_threads() const { return n; }
};
struct cg_object : ranks {
	static constexpr const char *name = "cuda_step_cg_named";
	template<char D>
	static auto order() {
		return noarr::cuda_step<D>(small_group{threadIdx.x, blockDim.x});
	}
};
struct cg_object_auto : ranks {
	static constexpr const char *name = "cuda_step_cg";
	template<char>
	static auto order() {
		return noarr::cuda_step(small_group{threadIdx.x, blockDim.x});
	}
};
struct tile : ranks { // one (perhaps partial) tile
	static constexpr const char *name = "cuda_step_tile";
	static dim3 block() { return {static_cast<uint>(P(1, 8)), 1, 1}; }
	template<char D>
	static auto order() {
		return noarr::cuda_step<D>(cg::thread_block_tile<8>());
	}
};
struct cg_type : ranks {
	static constexpr const char *name = "cuda_step_type_named";
	static dim3 block() { return {static_cast<uint>(P(1, 3)), static_cast<uint>(P(1, 3)), static_cast<uint>(P(1, 2))}; }
	template<char D>
	static auto order() {
		return noarr::cuda_step<D, cg::thread_block>();
	}
};
struct cg_type_auto : cg_type {
	static constexpr const char *name = "cuda_step_type";
	template<char>
	static auto order() {
		return noarr::cuda_step<cg::thread_block>();
	}
};
struct block_named : cg_type {
	static constexpr const char *name = "cuda_step_block_named";
	template<char D>
	static auto order() {
		return noarr::cuda_step_block<D>();
	}
};
struct block_auto : cg_type {
	static constexpr const char *name = "cuda_step_block";
	template<char>
	static auto order() {
		return noarr::cuda_step_block();
	}
};
struct grid_named : cg_type {
	static constexpr const char *name = "cuda_step_grid_named";
	static dim3 grid() { return {static_cast<uint>(P(1, 3)), static_cast<uint>(P(1, 2)), 1}; }
	template<char D>
	static auto order() {
		return noarr::cuda_step_grid<D>();
	}
};
struct grid_auto : grid_named {
	static constexpr const char *name = "cuda_step_grid";
	template<char>
	static auto order() {
		return noarr::cuda_step_grid();
	}
};
struct block_of_grid : grid_named { // blocks take turns, their threads share each turn
	static constexpr const char *name = "step_then_block";
	static dim3 grid() { return {static_cast<uint>(P(1, 4)), 1, 1}; }
	template<char D>
	static auto order() {
		return step<D>(blockIdx.x, gridDim.x) ^ noarr::cuda_step_block<D>();
	}
};

using Named = cases::List<ranks, ranks_two, ranks_static, cg_object, tile, cg_type, block_named, grid_named, block_of_grid>;
using Auto = cases::List<ranks_auto, cg_object_auto, cg_type_auto, block_auto, grid_auto>;

template<class S>
struct Write {
	const S *s;
	unsigned char *buf;
	std::uint64_t salt;
	void operator()(const auto &st) const { own::write(*s | noarr::get_at(buf, st), key_of(st), salt, buf); }
};

struct Run { // what every scenario needs
	std::vector<Ent> *want;
	hist::Cells *cells;
	unsigned char *buf;
	std::size_t size;
	std::uint64_t salt;
	dim3 g, b;
	int workers;
	[[gnu::noinline]] Run(const Space &m, std::size_t size, dim3 g, dim3 b, const char *c, const char *e)
		: size(size), salt(sim::decide(sim::K_DATA, 1000)), g(g), b(b), workers(static_cast<int>(sim::range(1, 6))) {
		const sim::Pause p;
		want = new std::vector<Ent>(m.all());
		cells = new hist::Cells(*want);
		buf = static_cast<unsigned char *>(sim::buffer(size, own::FILL));
		sim::note("%s %s workers=%d space=%s grid %ux%ux%u block %ux%ux%u", c, e, workers, m.text().c_str(), g.x, g.y, g.z, b.x, b.y, b.z);
		if (want->size() < cuda_stub::volume(g) * cuda_stub::volume(b))
			sim::probe("fewer_indices_than_workers");
	}
	[[gnu::noinline]] ~Run() {
		const sim::Pause p;
		sim::buffer_free(buf);
		delete cells;
		delete want;
	}
};

// every member traverses its part
template<class Case, class Exec>
struct Traverse {
	static void run() {
		Case::with([]<char D>(const auto &t, const auto &s, const Space &m, dim_c<D>) {
			Run r(m, s | noarr::get_size(), Exec::grid(), Exec::block(), Case::name, Exec::name);
			const auto from = sim::events();
			cuda_stub::launch(
				r.g, r.b,
				[&] {
					const auto part = t ^ Exec::template order<D>();
					if constexpr (Case::inj)
						part.for_each(Write<std::remove_cvref_t<decltype(s)>>{&s, r.buf, r.salt});
					else
						part.for_each(hist::Visitor{r.cells});
				},
				r.workers);
			if constexpr (Case::inj)
				own::check(from, *r.want, m.exact, r.buf, r.size, r.salt, Exec::name);
			else
				hist::check_complete(from, *r.want, Exec::name);
		});
	}
};

// every member owns a stepped view of the structure (or bag) and writes through it
template<class Case, class Exec>
struct View {
	static void run() {
		Case::with([]<char D>(const auto &, const auto &s, const Space &m, dim_c<D>) {
			constexpr char dims[] = "ijklmn";
			constexpr int slot = static_cast<int>(std::string_view(dims).find(D));
			Run r(m, s | noarr::get_size(), Exec::grid(), Exec::block(), Case::name, Exec::name);
			const bool through_bag = sim::param(2);
			const auto from = sim::events();
			cuda_stub::launch(
				r.g, r.b,
				[&] {
					const std::size_t rank = cg::grid_group::thread_rank(), n = cg::grid_group::num_threads();
					const auto bag = noarr::make_bag(s, reinterpret_cast<char *>(r.buf)) ^ noarr::cuda_step_grid<D>();
					const auto part = s ^ noarr::cuda_step_grid<D>();
					traverser(part).for_each([&](auto st) {
						Key k = key_of(st);
						k.v[slot] = k.v[slot] * static_cast<i64>(n) + static_cast<i64>(rank);
						if (through_bag)
							own::write(bag[st], k, r.salt, r.buf);
						else
							own::write(part | noarr::get_at(r.buf, st), k, r.salt, r.buf);
					});
				},
				r.workers);
			own::check(from, *r.want, m.exact, r.buf, r.size, r.salt, "stepped view");
		});
	}
};
struct view_grid : grid_named {
	static constexpr const char *name = "stepped_view";
};

const bool registered = [] {
	register_grid<Traverse>(cases::Steps(), Named(), 2);
	register_grid<Traverse>(cases::Some(), Auto(), 2);
	register_grid<View>(cases::Plain(), cases::List<view_grid>(), 6);
	return true;
}();

} // namespace
