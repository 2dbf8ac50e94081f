// C18: parallel stencils, coloured and ordered in-place updates equal the sequential computation
#include "exec_for_each.hpp"

#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/bag.hpp>

#include <array>
#include <utility>

namespace {

using noarr::get_index;
using noarr::hoist;
using noarr::idx;
using noarr::into_blocks;
using noarr::into_blocks_dynamic;
using noarr::make_bag;
using noarr::merge_blocks;
using noarr::neighbor;
using noarr::reverse;
using noarr::scalar;
using noarr::shift;
using noarr::slice;
using noarr::span;
using noarr::step;
using noarr::traverser;
using noarr::vector;
using noarr::vectors;
using cases::List;
using u32 = std::uint32_t;
using sz = std::size_t;

u32 start(sz i, sz j, u32 salt) {
	u32 h = static_cast<u32>(i * 2654435761u) ^ static_cast<u32>(j * 40503u) ^ salt * 97u;
	return h ^ h >> 13;
}

// ------------------------------------------------------------------------------------------------ layouts of n x k numbers
#define LAYOUT(name_, ...)                                                                                             \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		static auto make([[maybe_unused]] sz n, [[maybe_unused]] sz k, [[maybe_unused]] const auto &like) __VA_ARGS__   \
	};
LAYOUT(rows, { return scalar<u32>() ^ vectors<'j', 'i'>(k, n); })
LAYOUT(cols, { return scalar<u32>() ^ vectors<'i', 'j'>(n, k); })
LAYOUT(like, { return scalar<u32>() ^ noarr::vectors_like<'i', 'j'>(like); })
LAYOUT(like_late, { return scalar<u32>() ^ vector<'j'>() ^ vector<'i'>() ^ noarr::lengths_like<'j', 'i'>(like); })
LAYOUT(mirrored, { return scalar<u32>() ^ vectors<'i', 'j'>(n, k) ^ reverse<'i'>() ^ reverse<'j'>(); })
LAYOUT(window, { return scalar<u32>() ^ vectors<'j', 'i'>(k + 3, n + 2) ^ slice<'i'>(1, n) ^ slice<'j'>(2, k); })
LAYOUT(blocked, { // rows in blocks of three
	return scalar<u32>() ^ vectors<'b', 'j', 'B'>(noarr::lit<3>, k, (n + 2) / 3) ^ merge_blocks<'B', 'b', 'i'>() ^ slice<'i'>(0, n);
})
LAYOUT(tiles, {
	return scalar<u32>() ^ vectors<'b', 'c', 'C', 'B'>(noarr::lit<2>, noarr::lit<4>, (k + 3) / 4, (n + 1) / 2) ^ merge_blocks<'B', 'b', 'i'>() ^
	       merge_blocks<'C', 'c', 'j'>() ^ slice<'i'>(0, n) ^ slice<'j'>(0, k);
})
LAYOUT(every_other, { return scalar<u32>() ^ vectors<'j', 'i'>(2 * k + 1, n) ^ step<'j'>(1, 2); })
LAYOUT(one_line, { // a line cut into rows
	const sz w = std::max<sz>(k, 1);
	return scalar<u32>() ^ vector<'x'>(n * w) ^ into_blocks<'x', 'i', 'j'>(w) ^ slice<'j'>(0, k);
})
LAYOUT(named, { return scalar<u32>() ^ vectors<'p', 'q'>(n, k) ^ noarr::rename<'p', 'i', 'q', 'j'>(); })

// ------------------------------------------------------------------------------------------------ ways to run
#define RUN(name_, ...)                                                                                                \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		static void run(const auto &order, const auto &f, const auto &...bags) __VA_ARGS__                              \
	};
RUN(tbb, { noarr::tbb_for_each(traverser(bags...) ^ order, f); })
RUN(omp, { noarr::omp_for_each(traverser(bags...) ^ order, f); })
RUN(par, { noarr::std_for_each(traverser(bags...).order(order), f); })
RUN(tbb_sec, { noarr::tbb_for_sections(traverser(bags...) ^ order, [&f](auto section) { section.for_each(f); }); })
RUN(omp_sec, {
	noarr::omp_for_sections(traverser(bags...) ^ order, [&f](auto section) {
		for (auto inner : section)
			inner.for_each(f);
	});
})
RUN(tbb_plan, { noarr::planner(bags...).for_each(f).order(order) | noarr::planner_tbb_execute(); })
RUN(omp_plan, { noarr::planner(bags...).for_each(f).order(order) | noarr::planner_omp_execute(); })
using One = List<tbb, omp, par, tbb_sec>;
using Two = List<tbb, omp, par, tbb_sec, omp_sec, tbb_plan, omp_plan>;

// ------------------------------------------------------------------------------------------------ plain numbers
struct Ref {
	sz n, k;
	std::vector<u32> v;
	u32 &operator()(sz i, sz j) { return v[i * k + j]; }
};
Ref *fresh(sz n, sz k, u32 salt) {
	const sim::Pause p;
	auto *r = new Ref{n, k, std::vector<u32>(n * k)};
	for (sz i = 0; i < n; i++)
		for (sz j = 0; j < k; j++)
			(*r)(i, j) = start(i, j, salt);
	return r;
}
void describe(const char *what, const char *a, const char *b, const char *e, sz n, sz k) {
	const sim::Pause p;
	sim::note("%s %s %s %s team=%d %zux%zu", what, a, b, e, sim::team(), n, k);
}
template<class Bag>
[[gnu::noinline]] void fill(const Bag &b, u32 salt) {
	traverser(b).for_each([=](auto st) { b[st] = start(get_index<'i'>(st), get_index<'j'>(st), salt); });
}
template<class Bag>
[[gnu::noinline]] void check(const Bag &b, Ref *r, const char *what) {
	for (sz i = 0; i < r->n; i++)
		for (sz j = 0; j < r->k; j++) {
			const u32 got = b[idx<'i', 'j'>(i, j)];
			if (got != (*r)(i, j))
				sim::fail("wrong_result", "%s: element (%zu, %zu) of %zux%zu is %u, sequentially it is %u", what, i, j, r->n, r->k, got,
				          (*r)(i, j));
			sim::mix(got);
		}
}
void drop(Ref *r) {
	const sim::Pause p;
	delete r;
}

// ------------------------------------------------------------------------------------------------ computations
// two buffers, neighbours within a rectangle
template<class A, class B>
struct jacobi {
	static constexpr const char *an = A::name, *bn = B::name;
	template<class E>
	static void run() {
		const sz a = upto(2), b = upto(2), n = 2 * a + L3(), k = 2 * b + L3(), sweeps = P(1, 3);
		describe("jacobi", an, bn, E::name, n, k);
		const auto sa = A::make(n, k, scalar<char>() ^ vectors<'i', 'j'>(n, k));
		const auto sb = B::make(n, k, sa);
		const auto from = make_bag(sa), to = make_bag(sb);
		const auto x = from.get_ref(), y = to.get_ref();
		fill(x, 1);
		fill(y, 1);
		const auto inside = noarr::symmetric_spans<'i', 'j'>(sa, a, b) ^ hoist<'i'>();
		const int da = static_cast<int>(a), db = static_cast<int>(b);
		const auto f = [da, db](const auto &src, const auto &dst) {
			return [=](auto st) {
				dst[st] = src[st] * 3 + src[neighbor<'i'>(st, -da)] * 5 + src[neighbor<'i'>(st, da)] * 7 + src[neighbor<'j'>(st, -db)] * 11 +
				          src[neighbor<'j', 'i'>(st, db, -da)] * 13;
			};
		};
		for (sz s = 0; s < sweeps; s++)
			if (s % 2 == 0)
				E::run(inside, f(x, y), x, y);
			else
				E::run(inside, f(y, x), y, x);
		Ref *r = fresh(n, k, 1), *q = fresh(n, k, 1);
		{
			const sim::Pause p;
			for (sz s = 0; s < sweeps; s++) {
				for (sz i = a; i + a < n; i++)
					for (sz j = b; j + b < k; j++)
						(*q)(i, j) = (*r)(i, j) * 3 + (*r)(i - a, j) * 5 + (*r)(i + a, j) * 7 + (*r)(i, j - b) * 11 + (*r)(i - a, j + b) * 13;
				std::swap(r, q);
			}
		}
		if (sweeps % 2 == 0) {
			check(x, r, "jacobi");
			check(y, q, "jacobi");
		} else {
			check(y, r, "jacobi");
			check(x, q, "jacobi");
		}
		drop(r);
		drop(q);
	}
	static constexpr const char *name = "jacobi";
};
// one buffer, the neighbours have another colour
template<class A>
struct coloured {
	static constexpr const char *name = "coloured";
	static constexpr const char *an = A::name, *bn = "";
	template<class E>
	static void run() {
		const sz n = 2 + L3(), k = 2 + L3(), sweeps = P(1, 2);
		describe("coloured", an, bn, E::name, n, k);
		const auto sa = A::make(n, k, scalar<char>() ^ vectors<'i', 'j'>(n, k));
		const auto data = make_bag(sa);
		const auto x = data.get_ref();
		fill(x, 2);
		Ref *r = fresh(n, k, 2);
		const bool both = sim::param(2) == 1;
		for (sz s = 0; s < sweeps; s++)
			for (sz c = 0; c < (both ? 4 : 2); c++) {
				const sz ci = c % 2, cj = c / 2;
				if (both)
					E::run(noarr::symmetric_span<'i', 'j'>(sa, noarr::lit<1>) ^ step<'i'>(ci, noarr::lit<2>) ^ step<'j'>(cj, sz(2)) ^ hoist<'j'>(),
					       [x](auto st) {
						       x[st] = x[st] * 3 + x[neighbor<'i', 'j'>(st, -1, -1)] * 5 + x[neighbor<'i', 'j'>(st, 1, 1)] * 7 +
						               x[neighbor<'j'>(st, std::ptrdiff_t(-1))] * 11 + x[neighbor<'i'>(st, sz(1))] * 13;
					       },
					       x);
				else
					E::run(span<'i'>(1, n - 1) ^ step<'i'>(ci, 2),
					       [x](auto st) {
						       x[st] += x[noarr::update_index<'i'>(st, [](auto i) { return i - 1; })] * 3 +
						                x[noarr::update_index<'i'>(st, [](auto i) { return i + 1; })] * 5;
					       },
					       x);
				const sim::Pause p;
				if (both) {
					for (sz i = 1 + ci; i + 1 < n; i += 2)
						for (sz j = 1 + cj; j + 1 < k; j += 2)
							(*r)(i, j) = (*r)(i, j) * 3 + (*r)(i - 1, j - 1) * 5 + (*r)(i + 1, j + 1) * 7 + (*r)(i, j - 1) * 11 + (*r)(i + 1, j) * 13;
				} else {
					for (sz i = 1 + ci; i + 1 < n; i += 2)
						for (sz j = 0; j < k; j++)
							(*r)(i, j) += (*r)(i - 1, j) * 3 + (*r)(i + 1, j) * 5;
				}
			}
		check(x, r, "coloured");
		drop(r);
	}
};
// rows in parallel, along a row every element depends on the one before
template<class A>
struct recurrence {
	static constexpr const char *name = "recurrence";
	static constexpr const char *an = A::name, *bn = "";
	template<class E>
	static void run() {
		const sz n = L2(), k = 1 + L3();
		describe("recurrence", an, bn, E::name, n, k);
		const auto sa = A::make(n, k, scalar<char>() ^ vectors<'i', 'j'>(n, k));
		const auto data = make_bag(sa);
		const auto x = data.get_ref();
		fill(x, 3);
		const bool back = sim::param(2) == 1;
		if (back) // from the end to the beginning
			E::run(slice<'j'>(0, k - 1) ^ reverse<'j'>() ^ hoist<'j'>() ^ hoist<'i'>(), [x](auto st) { x[st] = x[st] * 3 + x[st + idx<'j'>(1)] * 5; }, x);
		else
			E::run(shift<'j'>(1) ^ hoist<'j'>() ^ hoist<'i'>(), [x](auto st) { x[st] = x[st] * 3 + x[st - idx<'j'>(1)] * 5; }, x);
		Ref *r = fresh(n, k, 3);
		{
			const sim::Pause p;
			for (sz i = 0; i < n; i++)
				for (sz j = 1; j < k; j++)
					if (back)
						(*r)(i, k - 1 - j) = (*r)(i, k - 1 - j) * 3 + (*r)(i, k - j) * 5;
					else
						(*r)(i, j) = (*r)(i, j) * 3 + (*r)(i, j - 1) * 5;
		}
		check(x, r, "recurrence");
		drop(r);
	}
};
// diagonal after diagonal
template<class A>
struct wavefront {
	static constexpr const char *name = "wavefront";
	static constexpr const char *an = A::name, *bn = "";
	template<class E>
	static void run() {
		const sz n = P(1, 9), k = P(1, 9);
		describe("wavefront", an, bn, E::name, n, k);
		const auto sa = A::make(n, k, scalar<char>() ^ vectors<'i', 'j'>(n, k));
		const auto data = make_bag(sa);
		const auto x = data.get_ref();
		fill(x, 4);
		const auto line = scalar<char>() ^ vector<'i'>() ^ noarr::length_like<'i'>(sa);
		for (sz d = 0; d + 1 < n + k; d++) {
			const sz lo = d + 1 > k ? d + 1 - k : 0, hi = std::min(d + 1, n);
			E::run(
				span<'i'>(lo, hi),
				[=](auto st) {
					const auto i = get_index<'i'>(st);
					const auto at = st & idx<'j'>(d - i);
					u32 v = x[at] * 3;
					if (i > 0)
						v += x[neighbor<'i'>(at, -1)] * 5;
					if (d > i)
						v += x[neighbor<'j'>(at, -1)] * 7;
					if (i > 0 && d > i)
						v += x[neighbor<'i', 'j'>(at, -1, -1)] * 11;
					x[at] = v;
				},
				line);
		}
		Ref *r = fresh(n, k, 4);
		{
			const sim::Pause p;
			for (sz i = 0; i < n; i++)
				for (sz j = 0; j < k; j++)
					(*r)(i, j) = (*r)(i, j) * 3 + (i ? (*r)(i - 1, j) * 5 : 0) + (j ? (*r)(i, j - 1) * 7 : 0) + (i && j ? (*r)(i - 1, j - 1) * 11 : 0);
		}
		check(x, r, "wavefront");
		drop(r);
	}
};
// the halves beside the diagonal are exchanged
template<class A>
struct transposed {
	static constexpr const char *name = "transposed";
	static constexpr const char *an = A::name, *bn = "";
	template<class E>
	static void run() {
		const sz n = L2();
		describe("transposed", an, bn, E::name, n, n);
		const auto sa = A::make(n, n, scalar<char>() ^ vectors<'i', 'j'>(n, n));
		const auto data = make_bag(sa);
		const auto x = data.get_ref();
		fill(x, 5);
		const auto swap_row = [x](auto row) {
			const auto i = get_index<'i'>(row);
			row.order(shift<'j'>(i + 1)).for_each([x](auto st) {
				const auto [a, b] = noarr::get_indices<'i', 'j'>(st);
				std::swap(x[st], x[idx<'i', 'j'>(b, a)]);
			});
		};
		E::run(hoist<'i'>(), swap_row, x);
		Ref *r = fresh(n, n, 5);
		{
			const sim::Pause p;
			for (sz i = 0; i < n; i++)
				for (sz j = 0; j < i; j++)
					std::swap((*r)(i, j), (*r)(j, i));
		}
		check(x, r, "transposed");
		drop(r);
	}
};
RUN(sec_tbb, { noarr::tbb_for_sections(traverser(bags...) ^ order, f); })
RUN(sec_omp, { noarr::omp_for_sections(traverser(bags...) ^ order, f); })
RUN(sec_std, { noarr::std_for_sections(traverser(bags...) ^ order, f); })
RUN(sec_plan, { noarr::planner(bags...).template for_sections<'i'>(f).order(order) | noarr::planner_tbb_execute(); })
using Sections = List<sec_tbb, sec_omp, sec_std>;

// every element goes elsewhere, between different layouts
template<class A, class B>
struct permuted {
	static constexpr const char *name = "permuted";
	static constexpr const char *an = A::name, *bn = B::name;
	template<class E>
	static void run() {
		const sz n = 1 + L3(), k = 1 + L3(), c = upto(n - 1), d = upto(k - 1);
		describe("permuted", an, bn, E::name, n, k);
		const auto sa = A::make(n, k, scalar<char>() ^ vectors<'i', 'j'>(n, k));
		const auto sb = B::make(n, k, sa);
		const auto from = make_bag(sa), to = make_bag(sb);
		const auto x = from.get_ref(), y = to.get_ref();
		fill(x, 6);
		E::run(
			hoist<'j'>(),
			[=](auto st) {
				const auto at = noarr::update_index<'j'>(noarr::update_index<'i'>(st, [=](auto i) { return (i + c) % n; }),
			                                             [=](auto j) { return k - 1 - (j + d) % k; });
				y[at] = x[st];
			},
			x);
		Ref *r = fresh(n, k, 6), *q = fresh(n, k, 7);
		{
			const sim::Pause p;
			for (sz i = 0; i < n; i++)
				for (sz j = 0; j < k; j++)
					(*q)((i + c) % n, k - 1 - (j + d) % k) = (*r)(i, j);
		}
		check(x, r, "permuted");
		check(y, q, "permuted");
		drop(r);
		drop(q);
	}
};
// two structures of different dimensions drive the traversal, a third is read at a sum of indices
template<class A, class B>
struct convolution {
	static constexpr const char *name = "convolution";
	static constexpr const char *an = A::name, *bn = B::name;
	template<class E>
	static void run() {
		const sz n = L3(), k = L3(), w = P(1, 3), h = P(1, 3);
		describe("convolution", an, bn, E::name, n, k);
		const auto sa = A::make(n + h - 1, k + w - 1, scalar<char>() ^ vectors<'i', 'j'>(n + h - 1, k + w - 1));
		const auto sb = B::make(n, k, scalar<char>() ^ vectors<'j', 'i'>(k, n));
		const auto sk = scalar<u32>() ^ vectors<'v', 'u'>(w, h);
		const auto from = make_bag(sa), to = make_bag(sb), kernel = make_bag(sk);
		const auto x = from.get_ref(), y = to.get_ref(), z = kernel.get_ref();
		fill(x, 8);
		fill(y, 9);
		traverser(z).for_each([=](auto st) { z[st] = start(get_index<'u'>(st), get_index<'v'>(st), 10); });
		const auto f = [=](auto st) {
			const auto [i, j, u, v] = noarr::get_indices<'i', 'j', 'u', 'v'>(st);
			y[st] += x[st & idx<'i', 'j'>(i + u, j + v)] * z[noarr::filter_indices<'u', 'v'>(st)];
		};
		if (sim::param(2))
			E::run(hoist<'u'>() ^ hoist<'i'>(), f, y, z);
		else
			E::run(into_blocks_dynamic<'i', 'I', 'e', 'g'>(sz(2)) ^ hoist<'e'>() ^ hoist<'I'>(), f, y, z);
		Ref *r = fresh(n + h - 1, k + w - 1, 8), *q = fresh(n, k, 9);
		{
			const sim::Pause p;
			for (sz i = 0; i < n; i++)
				for (sz j = 0; j < k; j++)
					for (sz u = 0; u < h; u++)
						for (sz v = 0; v < w; v++)
							(*q)(i, j) += (*r)(i + u, j + v) * start(u, v, 10);
		}
		check(y, q, "convolution");
		check(x, r, "convolution");
		drop(r);
		drop(q);
	}
};
// pairs, pairs of pairs, ...
template<class A>
struct tree_sum {
	static constexpr const char *name = "tree_sum";
	static constexpr const char *an = A::name, *bn = "";
	template<class E>
	static void run() {
		const sz n = 1 + L2(), k = 1 + L3();
		describe("tree_sum", an, bn, E::name, n, k);
		const auto sa = A::make(n, k, scalar<char>() ^ vectors<'i', 'j'>(n, k));
		const auto data = make_bag(sa);
		const auto x = data.get_ref();
		fill(x, 11);
		for (sz h = 1; h < n; h *= 2) // only the positions that have a partner
			E::run(slice<'i'>(0, n - h) ^ step<'i'>(0, 2 * h) ^ hoist<'i'>(), [x, h](auto st) { x[st] += x[idx<'i', 'j'>(get_index<'i'>(st), get_index<'j'>(st)) + idx<'i', 'j'>(h + 1, sz(0)) - idx<'i', 'j'>(sz(1), sz(0))]; }, x);
		Ref *r = fresh(n, k, 11);
		{
			const sim::Pause p;
			for (sz h = 1; h < n; h *= 2)
				for (sz i = 0; i + h < n; i += 2 * h)
					for (sz j = 0; j < k; j++)
						(*r)(i, j) += (*r)(i + h, j);
		}
		check(x, r, "tree_sum");
		drop(r);
	}
};

// the product of matrices in different layouts, whole or in tiles
template<class A, class B>
struct matmul {
	static constexpr const char *name = "matmul";
	static constexpr const char *an = A::name, *bn = B::name;
	template<class E>
	static void run() {
		const sz n = L3(), k = L3(), q = P(0, 4);
		describe("matmul", an, bn, E::name, n, k);
		const auto sx = A::make(n, q, scalar<char>() ^ vectors<'i', 'j'>(n, q)) ^ noarr::rename<'j', 'k'>();
		const auto sy = B::make(q, k, scalar<char>() ^ vectors<'i', 'j'>(q, k)) ^ noarr::rename<'i', 'k'>();
		const auto sz_ = B::make(n, k, scalar<char>() ^ vectors<'i', 'j'>(n, k));
		const auto X = make_bag(sx), Y = make_bag(sy), Z = make_bag(sz_);
		const auto x = X.get_ref(), y = Y.get_ref(), z = Z.get_ref();
		traverser(x).for_each([=](auto st) { x[st] = start(get_index<'i'>(st), get_index<'k'>(st), 12); });
		traverser(y).for_each([=](auto st) { y[st] = start(get_index<'k'>(st), get_index<'j'>(st), 13); });
		fill(z, 14);
		const auto f = [=](auto st) { z[st] += x[st] * y[st]; };
		switch (sim::param(3)) {
		case 0:
			E::run(hoist<'k'>() ^ hoist<'j'>() ^ hoist<'i'>(), f, z, x, y);
			break;
		case 1: // blocks of rows, the last of them incomplete, each in slices of k
			E::run(noarr::strip_mine_dynamic<'i', 'I', 'a', 'g'>(noarr::lit<3>) ^ hoist<'k'>() ^ hoist<'I'>(), f, z, x, y);
			break;
		default:
			E::run(noarr::strip_mine_dynamic<'i', 'I', 'a', 'g'>(sz(2)) ^ noarr::strip_mine_dynamic<'j', 'J', 'b', 'h'>(sz(3)), f, z, x, y);
		}
		Ref *r = fresh(n, k, 14);
		{
			const sim::Pause p;
			for (sz i = 0; i < n; i++)
				for (sz j = 0; j < k; j++)
					for (sz l = 0; l < q; l++)
						(*r)(i, j) += start(i, l, 12) * start(l, j, 13);
		}
		check(z, r, "matmul");
		drop(r);
	}
};
// records with fields of different types, side by side or one array for each field
struct records {
	static constexpr const char *name = "records";
	static auto make(sz n, sz k) {
		return noarr::pack(scalar<std::uint64_t>(), scalar<u32>(), scalar<std::int16_t>()) ^ noarr::tuple<'f'>() ^ vectors<'i', 'j'>(n, k);
	}
};
struct arrays {
	static constexpr const char *name = "arrays";
	static auto make(sz n, sz k) {
		return noarr::pack(scalar<std::uint64_t>() ^ vectors<'j', 'i'>(k, n), scalar<u32>() ^ vectors<'i', 'j'>(n, k),
		                   scalar<std::int16_t>() ^ vectors<'j', 'i'>(k, n)) ^
		       noarr::tuple<'f'>();
	}
};
struct mixed {
	static constexpr const char *name = "mixed";
	static auto make(sz n, sz k) {
		return noarr::pack(scalar<std::uint64_t>() ^ vector<'j'>(k), scalar<u32>() ^ vector<'j'>(k), scalar<std::int16_t>() ^ vector<'j'>(k)) ^
		       noarr::tuple<'f'>() ^ vector<'i'>(n);
	}
};
template<class A>
struct particles {
	static constexpr const char *name = "particles";
	static constexpr const char *an = A::name, *bn = "";
	template<class E>
	static void run() {
		const sz n = L3(), k = L3(), sweeps = P(1, 3);
		describe("particles", an, bn, E::name, n, k);
		const auto sa = A::make(n, k);
		const auto data = make_bag(sa);
		const auto x = data.get_ref();
		const auto points = scalar<u32>() ^ vectors<'j', 'i'>(k, n);
		const auto out = make_bag(points);
		const auto y = out.get_ref();
		const auto pos = idx<'f'>(noarr::lit<0>);
		const auto vel = idx<'f'>(noarr::lit<1>);
		const auto hits = idx<'f'>(noarr::lit<2>);
		traverser(points).for_each([=](auto st) {
			const auto v = start(get_index<'i'>(st), get_index<'j'>(st), 15);
			x[st & pos] = v;
			x[st & vel] = v / 3;
			x[st & hits] = 0;
		});
		for (sz s = 0; s < sweeps; s++)
			E::run(
				hoist<'i'>(),
				[=](auto st) {
					x[st & pos] += x[st & vel];
					if (x[st & pos] % 2)
						x[hits & st]++;
					y[st] = static_cast<u32>(x[st & pos]) * 31 + x[vel & st] * 7 + static_cast<u32>(x[st & hits]);
				},
				y);
		Ref *r = fresh(n, k, 15);
		{
			const sim::Pause p;
			for (sz i = 0; i < n; i++)
				for (sz j = 0; j < k; j++) {
					std::uint64_t at = (*r)(i, j);
					const u32 v = (*r)(i, j) / 3;
					u32 c = 0;
					for (sz s = 0; s < sweeps; s++) {
						at += v;
						c += at % 2;
					}
					(*r)(i, j) = static_cast<u32>(at) * 31 + v * 7 + c;
				}
		}
		check(y, r, "particles");
		drop(r);
	}
};

template<class Alg>
struct named_alg {
	static constexpr auto text = [] {
		std::array<char, 48> t{};
		sz at = 0;
		for (const char *p = Alg::name; *p; p++)
			t[at++] = *p;
		for (const char *q : {Alg::an, Alg::bn})
			if (*q) {
				t[at++] = ':';
				for (const char *p = q; *p; p++)
					t[at++] = *p;
			}
		return t;
	}();
	static constexpr const char *name = text.data();
	using type = Alg;
};
template<class C, class E>
struct Scen {
	static void run() { C::type::template run<E>(); }
};
template<class... As>
using Algs = List<named_alg<As>...>;

const bool registered = [] {
	register_grid<Scen>(Algs<jacobi<rows, cols>, jacobi<blocked, like>, jacobi<like_late, tiles>, jacobi<window, mirrored>,
	                         jacobi<one_line, every_other>, coloured<rows>, coloured<tiles>, coloured<mirrored>, recurrence<rows>,
	                         recurrence<cols>, recurrence<blocked>, recurrence<like_late>, permuted<named, tiles>, permuted<every_other, one_line>,
	                         tree_sum<blocked>, tree_sum<window>>(),
	                    Two(), 2);
	register_grid<Scen>(Algs<convolution<rows, cols>, convolution<tiles, blocked>, convolution<mirrored, window>>(), List<tbb, omp, par, tbb_sec, tbb_plan>(), 2);
	register_grid<Scen>(Algs<matmul<rows, cols>, matmul<window, rows>, matmul<mirrored, named>>(), List<tbb, omp, par, tbb_sec, tbb_plan>(), 2);
	register_grid<Scen>(Algs<particles<records>, particles<arrays>, particles<mixed>>(), Two(), 2);
	register_grid<Scen>(Algs<wavefront<rows>, wavefront<tiles>>(), One(), 2);
	register_grid<Scen>(Algs<transposed<rows>, transposed<tiles>, transposed<mirrored>, transposed<like_late>>(), Sections(), 2);
	return true;
}();

} // namespace
