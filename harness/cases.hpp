// Catalogue of structures and traversal orders, each with its reference model. Every case draws its own parameters.
#ifndef VERIF_CASES_HPP
#define VERIF_CASES_HPP

#include "../sim/sim.hpp"
#include "model.hpp"

#include <noarr/structures_extended.hpp>
#include <noarr/structures/extra/shortcuts.hpp>
#include <noarr/structures/extra/traverser.hpp>
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/traverser_iter.hpp>
#include <noarr/structures/structs/zcurve.hpp>

#include <cstdint>
#include <string>
#include <type_traits>
#include <vector>

using model::Ent;
using model::i64;
using model::Key;
using model::Space;

// lengths are scaled per check (number of elements a run may visit)
struct Scale {
	std::uint32_t typical = 6, big = 70;
	std::uint32_t huge = 0; // one in so many one-dimensional lengths is drawn from [2^9, 2^16)
};
inline Scale &scale() {
	static Scale s;
	return s;
}

inline std::size_t L1() {
	if (scale().huge && sim::decide_as(sim::K_PARAM, 2, sim::rnd() % scale().huge == 0)) {
		const std::uint32_t n = 1u << (9 + sim::param(7));
		sim::probe("length_over_512");
		return n + sim::param(n);
	}
	return sim::length(scale().typical * 3, scale().big * 3);
}
inline std::size_t L2() { return sim::length(scale().typical, scale().big / 3); }
inline std::size_t L3() { return sim::length(scale().typical / 2 + 1, scale().big / 8 + 2); }
inline std::size_t P(std::uint32_t lo, std::uint32_t hi) { return sim::range(lo, hi); } // small parameter
inline std::size_t upto(std::size_t n) { return sim::param(static_cast<std::uint32_t>(n + 1)); }

// Each case: name, inj (the element designated by a state is different for different states of the traversal),
// and with(f): f(traverser, data structure, model)
#define CASE(name_, inj_)                                                                                              \
	struct name_ {                                                                                                     \
		static constexpr const char *name = #name_;                                                                    \
		static constexpr bool inj = inj_;                                                                              \
		template<class F_>                                                                                             \
		static void with(F_ &&f);                                                                                      \
	};                                                                                                                 \
	template<class F_>                                                                                                 \
	void name_::with(F_ &&f)

using noarr::array;
using noarr::bcast;
using noarr::fix;
using noarr::hoist;
using noarr::into_blocks;
using noarr::into_blocks_dynamic;
using noarr::into_blocks_static;
using noarr::lit;
using noarr::merge_blocks;
using noarr::merge_zcurve;
using noarr::pack;
using noarr::rename;
using noarr::reorder;
using noarr::reverse;
using noarr::scalar;
using noarr::set_length;
using noarr::shift;
using noarr::slice;
using noarr::span;
using noarr::step;
using noarr::strip_mine;
using noarr::strip_mine_dynamic;
using noarr::symmetric_span;
using noarr::traverser;
using noarr::tuple;
using noarr::vector;
using noarr::vectors;

namespace cases {

// ------------------------------------------------------------------------------------------------ one dimension
CASE(v1, true) {
	const auto n = L1();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s), s, m.vec('i', n).seal());
}
CASE(a1, true) {
	auto s = scalar<std::int16_t>() ^ array<'i', 11>();
	Space m(2);
	f(traverser(s), s, m.vec('i', 11).seal());
}
CASE(v1_slice, true) {
	const auto n = L1(), a = upto(n), l = upto(n - a);
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ slice<'i'>(a, l), s, m.vec('i', n).seal().slice('i', a, l));
}
CASE(v1_span_rev, true) {
	const auto n = L1(), a = upto(n), e = a + upto(n - a);
	auto s = scalar<double>() ^ vector<'i'>(n);
	Space m(8);
	f(traverser(s) ^ span<'i'>(a, e) ^ reverse<'i'>(), s, m.vec('i', n).seal().span('i', a, e).reverse('i'));
}
CASE(v1_shift_step, true) {
	const auto n = L1(), a = upto(n), q = P(1, 5), r = upto(q - 1);
	auto s = scalar<char>() ^ vector<'i'>(n);
	Space m(1);
	f(traverser(s) ^ shift<'i'>(a) ^ step<'i'>(r, q), s, m.vec('i', n).seal().shift('i', a).step('i', r, q));
}
CASE(v1_rev_slice, true) {
	const auto n = L1(), l = upto(n), a = upto(n - l);
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ reverse<'i'>() ^ slice<'i'>(a, l), s, m.vec('i', n).seal().reverse('i').slice('i', a, l));
}
CASE(v1_blk, true) {
	const auto b = P(1, 7), n = b * L2();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b), s, m.vec('i', n).seal().into_blocks('i', 'B', 'b', b));
}
CASE(v1_blk_minor_top, true) {
	const auto b = P(1, 9), n = b * L2();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ hoist<'b'>(), s,
	  m.vec('i', n).seal().into_blocks('i', 'B', 'b', b).hoist('b'));
}
CASE(v1_blk_major_len, true) {
	const auto c = P(1, 9), b = L2(), n = b * c;
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	m.vec('i', n).seal();
	if (b)
		m.into_blocks('i', 'B', 'b', b);
	else
		m.slice('i', 0, c).into_blocks('i', 'B', 'b', 1).slice('b', 0, 0);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>() ^ set_length<'B'>(c), s, m);
}
CASE(v1_dyn, true) {
	const auto b = P(1, 8), n = L1();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b), s,
	  m.vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b));
}
CASE(v1_dyn_slice, true) {
	const auto b = P(1, 5), n = L1(), a = upto(n), l = upto(n - a);
	auto s = scalar<float>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ slice<'i'>(a, l) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b), s,
	  m.vec('i', n).seal().slice('i', a, l).into_blocks_dynamic('i', 'B', 'b', 'p', b));
}
CASE(v1_dyn_rev_blocks, true) { // last (incomplete) block first
	const auto b = P(1, 6), n = L1();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b) ^ reverse<'B'>(), s,
	  m.vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b).reverse('B'));
}
CASE(v1_two_level, true) {
	const auto b = P(1, 4), c = P(1, 3), n = b * c * L3();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b * c) ^ into_blocks<'b', 'C', 'c'>(c), s,
	  m.vec('i', n).seal().into_blocks('i', 'B', 'b', b * c).into_blocks('b', 'C', 'c', c));
}
CASE(v1_late_len, true) { // length given by the order
	const auto n = L1();
	auto s0 = scalar<int>() ^ vector<'i'>();
	auto s = s0 ^ set_length<'i'>(n);
	Space m(4);
	f(traverser(s0) ^ set_length<'i'>(n), s, m.vec('i', n).seal());
}
CASE(v1_step_blocks, true) { // every q-th block
	const auto b = P(1, 5), q = P(1, 4), r = upto(q - 1), n = b * L2();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ step<'B'>(r, q), s,
	  m.vec('i', n).seal().into_blocks('i', 'B', 'b', b).step('B', r, q));
}

// ------------------------------------------------------------------------------------------------ two dimensions
CASE(v2, true) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s), s, m.vec('i', n).vec('j', k).seal());
}
CASE(v2_hoist, true) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ hoist<'i'>(), s, m.vec('i', n).vec('j', k).seal().hoist('i'));
}
CASE(v2_reorder, true) {
	const auto n = L2(), k = L2();
	auto s = scalar<std::int64_t>() ^ vectors<'i', 'j'>(n, k);
	Space m(8);
	f(traverser(s) ^ reorder<'i', 'j'>(), s, m.vec('i', n).vec('j', k).seal().reorder("ij"));
}
CASE(a2, true) {
	const auto k = L2();
	auto s = scalar<int>() ^ array<'i', 5>() ^ vector<'j'>(k);
	Space m(4);
	f(traverser(s), s, m.vec('i', 5).vec('j', k).seal());
}
CASE(a2_static_top, true) {
	const auto n = L2();
	auto s = scalar<int>() ^ vector<'i'>(n) ^ array<'j', 6>();
	Space m(4);
	f(traverser(s), s, m.vec('i', n).vec('j', 6).seal());
}
CASE(v2_tiles, true) {
	const auto b = P(1, 4), n = b * L3(), k = L2();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ strip_mine<'i', 'B', 'b'>(b), s,
	  m.vec('i', n).vec('j', k).seal().into_blocks('i', 'B', 'b', b).hoist('B'));
}
CASE(v2_tiles2, true) {
	const auto b = P(1, 4), c = P(1, 3), n = b * L3(), k = c * L3();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ strip_mine<'i', 'B', 'b'>(b) ^ strip_mine<'j', 'C', 'c'>(c), s,
	  m.vec('i', n).vec('j', k).seal().into_blocks('i', 'B', 'b', b).hoist('B').into_blocks('j', 'C', 'c', c).hoist('C'));
}
CASE(v2_tiles_dyn, true) {
	const auto b = P(1, 5), n = L2(), k = L3();
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n);
	Space m(4);
	f(traverser(s) ^ strip_mine_dynamic<'i', 'B', 'b', 'p'>(b), s,
	  m.vec('j', k).vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b).hoist('B'));
}
CASE(v2_inner_static_blocks, true) {
	const auto b = P(1, 5), n = L2(), k = L3();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ into_blocks_static<'i', 'o', 'B', 'b'>(b), s,
	  m.vec('i', n).vec('j', k).seal().into_blocks_static('i', 'o', 'B', 'b', b));
}
CASE(v2_merge, true) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ merge_blocks<'j', 'i', 'z'>(), s, m.vec('i', n).vec('j', k).seal().merge_blocks('j', 'i', 'z'));
}
CASE(v2_merge_swapped, true) { // merged in the order opposite to the layout
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ merge_blocks<'i', 'j', 'z'>(), s, m.vec('i', n).vec('j', k).seal().merge_blocks('i', 'j', 'z'));
}
CASE(v2_merge_reblock, true) { // linearise and cut into chunks regardless of rows
	const auto n = L2(), k = L2(), b = P(1, 6);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ merge_blocks<'j', 'i', 'z'>() ^ into_blocks_dynamic<'z', 'B', 'b', 'p'>(b), s,
	  m.vec('i', n).vec('j', k).seal().merge_blocks('j', 'i', 'z').into_blocks_dynamic('z', 'B', 'b', 'p', b));
}
CASE(v2_zcurve, true) {
	const auto n = 2 * P(1, 8), k = 2 * P(1, 8);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ merge_zcurve<'i', 'j', 'z'>::maxlen_alignment<32, 2>(), s,
	  m.vec('i', n).vec('j', k).seal().zcurve("ij", 'z'));
}
CASE(v2_zcurve_general, true) {
	const auto n = P(1, 15), k = P(1, 15);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ merge_zcurve<'j', 'i', 'z'>::maxlen_alignment<16, 1>(), s,
	  m.vec('i', n).vec('j', k).seal().zcurve("ji", 'z'));
}
CASE(v4_zcurve, true) { // dimensions around and between, the curve is not outermost
	const auto n = 4 * P(1, 3), k = 4 * P(1, 3), q = P(1, 3), r = P(1, 4);
	auto s = scalar<int>() ^ vectors<'i', 'k', 'j', 'l'>(n, q, k, r);
	Space m(4);
	f(traverser(s) ^ merge_zcurve<'i', 'j', 'z'>::maxlen_alignment<32, 4>(), s,
	  m.vec('i', n).vec('k', q).vec('j', k).vec('l', r).seal().zcurve("ij", 'z'));
}
// a curve through one dimension is that dimension; no part of it is undefined
static_assert((scalar<char>() ^ array<'i', 8>() ^ merge_zcurve<'i', 'z'>::maxlen_alignment<32, 4>() | noarr::offset<'z'>(5)) == 5);
CASE(v1_zcurve, true) {
	const auto n = 4 * P(1, 9), q = P(1, 3);
	auto s = scalar<int>() ^ vectors<'j', 'i'>(q, n);
	Space m(4);
	f(traverser(s) ^ merge_zcurve<'i', 'z'>::maxlen_alignment<64, 4>(), s, m.vec('j', q).vec('i', n).seal().zcurve("i", 'z'));
}
CASE(v2_fix, true) {
	const auto n = L1(), k = P(1, 7), x = upto(k - 1);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ fix<'j'>(x), s, m.vec('i', n).vec('j', k).seal().fix('j', x));
}
CASE(v2_rename, true) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ rename<'i', 'x', 'j', 'y'>() ^ hoist<'x'>(), s,
	  m.vec('i', n).vec('j', k).seal().rename('i', 'x').rename('j', 'y').hoist('x'));
}
CASE(v2_swap_names, true) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ rename<'i', 'j', 'j', 'i'>(), s, m.vec('i', n).vec('j', k).seal().swap_names('i', 'j'));
}
CASE(v2_tuple, true) {
	const auto n = L2();
	auto s = pack(scalar<int>(), scalar<double>(), scalar<char>()) ^ tuple<'k'>() ^ vector<'i'>(n);
	Space m(1);
	f(traverser(s), s, m.tuple('k', {4, 8, 1}).vec('i', n).seal());
}
CASE(v2_soa, true) { // blocks of structures of arrays
	const auto n = L3(), k = L2();
	auto s = pack(scalar<int>() ^ vector<'i'>(n), scalar<std::int16_t>() ^ vector<'i'>(n)) ^ tuple<'k'>() ^ vector<'j'>(k);
	Space m(1);
	f(traverser(s) ^ reverse<'j'>(), s,
	  m.tuple_vec('k', 'i', {4, 2}, {static_cast<i64>(n), static_cast<i64>(n)}).vec('j', k).seal().reverse('j'));
}
CASE(v2_tuple_vec, true) {
	const auto n = L2(), p = P(0, 3), q = P(0, 5);
	auto s = pack(scalar<char>() ^ vector<'j'>(p), scalar<int>() ^ vector<'j'>(q)) ^ tuple<'k'>() ^ vector<'i'>(n);
	Space m(1);
	f(traverser(s), s, m.tuple_vec('k', 'j', {1, 4}, {static_cast<i64>(p), static_cast<i64>(q)}).vec('i', n).seal());
}
CASE(v2_sym, true) { // interior of a grid
	const auto n = L2(), k = L2(), h = upto(std::min(n, k) / 2);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ symmetric_span<'i', 'j'>(s, h), s,
	  m.vec('i', n).vec('j', k).seal().span('i', h, n - h).span('j', h, k - h));
}
CASE(v2_rev_step_hoist, true) {
	const auto n = L2(), k = L2(), q = P(1, 4), r = upto(q - 1);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ reverse<'i'>() ^ hoist<'i'>() ^ step<'i'>(r, q) ^ shift<'j'>(std::size_t(k > 0)), s,
	  m.vec('i', n).vec('j', k).seal().reverse('i').hoist('i').step('i', r, q).shift('j', k > 0));
}
CASE(v2_bcast, false) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vector<'i'>(n) ^ bcast<'j'>(k);
	Space m(4);
	f(traverser(s), s, m.vec('i', n).bcast('j', k).seal());
}
CASE(v2_mix, true) { // slice, blocks, hoist of the inner block index, reverse
	const auto b = P(1, 4), n = b * L3(), k = L2(), a = upto(k), l = upto(k - a);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ slice<'j'>(a, l) ^ into_blocks<'i', 'B', 'b'>(b) ^ hoist<'b'>() ^ reverse<'B'>() ^ hoist<'j'>(), s,
	  m.vec('i', n).vec('j', k).seal().slice('j', a, l).into_blocks('i', 'B', 'b', b).hoist('b').reverse('B').hoist('j'));
}

// ------------------------------------------------------------------------------------------------ more dimensions
CASE(v3, true) {
	const auto n = L3(), k = L3(), q = L3();
	auto s = scalar<int>() ^ vectors<'i', 'j', 'k'>(n, k, q);
	Space m(4);
	f(traverser(s), s, m.vec('i', n).vec('j', k).vec('k', q).seal());
}
CASE(v3_reorder, true) {
	const auto n = L3(), k = L3(), q = L3();
	auto s = scalar<int>() ^ vectors<'i', 'j', 'k'>(n, k, q);
	Space m(4);
	f(traverser(s) ^ reorder<'j', 'i', 'k'>(), s, m.vec('i', n).vec('j', k).vec('k', q).seal().reorder("jik"));
}
CASE(v3_hoist2, true) {
	const auto n = L3(), k = L3(), q = L3();
	auto s = scalar<int>() ^ vectors<'i', 'j', 'k'>(n, k, q);
	Space m(4);
	f(traverser(s) ^ hoist<'i', 'j'>(), s, m.vec('i', n).vec('j', k).vec('k', q).seal().hoist('j').hoist('i'));
}
CASE(v3_merge_tile, true) {
	const auto b = P(1, 3), n = b * P(0, 4), k = L3(), q = L3();
	auto s = scalar<int>() ^ vectors<'i', 'j', 'k'>(n, k, q);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ merge_blocks<'k', 'B', 'z'>() ^ hoist<'z'>(), s,
	  m.vec('i', n).vec('j', k).vec('k', q).seal().into_blocks('i', 'B', 'b', b).merge_blocks('k', 'B', 'z').hoist('z'));
}
CASE(v3_zcurve, true) {
	const auto n = P(1, 6), k = P(1, 6), q = P(1, 5);
	auto s = scalar<int>() ^ vectors<'i', 'j', 'k'>(n, k, q);
	Space m(4);
	f(traverser(s) ^ merge_zcurve<'i', 'j', 'k', 'z'>::maxlen_alignment<8, 1>(), s,
	  m.vec('i', n).vec('j', k).vec('k', q).seal().zcurve("ijk", 'z'));
}
CASE(v4, true) {
	const auto n = L3(), k = P(1, 3), q = P(1, 3), r = L3();
	auto s = scalar<int>() ^ vectors<'i', 'j', 'k', 'l'>(n, k, q, r);
	Space m(4);
	f(traverser(s) ^ hoist<'i'>(), s, m.vec('i', n).vec('j', k).vec('k', q).vec('l', r).seal().hoist('i'));
}
CASE(matmul, false) {
	const auto n = L3(), k = L3(), q = L3();
	auto a = scalar<int>() ^ vectors<'i', 'k'>(n, q);
	auto b = scalar<int>() ^ vectors<'k', 'j'>(q, k);
	auto c = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4), mb(4), mc(4);
	m.vec('i', n).vec('k', q).seal();
	mb.vec('k', q).vec('j', k);
	mc.vec('i', n).vec('j', k);
	f(traverser(a, b, c), a, m.unite(mb).unite(mc));
}
CASE(matmul_tiled, false) {
	const auto t = P(1, 3), n = t * P(0, 4), k = L3(), q = L3();
	auto a = scalar<int>() ^ vectors<'i', 'k'>(n, q);
	auto b = scalar<int>() ^ vectors<'k', 'j'>(q, k);
	auto c = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4), mb(4), mc(4);
	m.vec('i', n).vec('k', q).seal();
	mb.vec('k', q).vec('j', k);
	mc.vec('i', n).vec('j', k);
	f(traverser(c, a, b) ^ hoist<'i'>() ^ strip_mine<'i', 'B', 'b'>(t), c,
	  mc.seal().unite(m).unite(mb).hoist('i').into_blocks('i', 'B', 'b', t).hoist('B'));
}
CASE(uni_disjoint, false) { // structures without a common dimension
	const auto n = L2(), k = L2();
	auto a = scalar<int>() ^ vector<'i'>(n);
	auto b = scalar<double>() ^ vector<'j'>(k);
	Space m(4), mb(8);
	m.vec('i', n).seal();
	mb.vec('j', k);
	f(traverser(a, b), a, m.unite(mb));
}

// ------------------------------------------------------------------------------------------------ data layouts
CASE(lay_blocked, true) { // one logical dimension stored as column blocks
	const auto b = P(1, 5), n = L2(), k = L3();
	auto s = scalar<int>() ^ vector<'b'>(b) ^ vector<'j'>(k) ^ vector<'B'>(n) ^ merge_blocks<'B', 'b', 'i'>();
	Space m(4);
	f(traverser(s), s, m.vec('b', b).vec('j', k).vec('B', n).merge_blocks('B', 'b', 'i').seal());
}
CASE(lay_tiled, true) {
	const auto b = P(1, 4), c = P(1, 3), n = P(0, 5), k = P(0, 5);
	auto s = scalar<int>() ^ vectors<'b', 'c', 'B', 'C'>(b, c, n, k) ^ merge_blocks<'B', 'b', 'i'>() ^
	         merge_blocks<'C', 'c', 'j'>();
	Space m(4);
	f(traverser(s) ^ hoist<'i'>(), s,
	  m.vec('b', b).vec('c', c).vec('B', n).vec('C', k).merge_blocks('B', 'b', 'i').merge_blocks('C', 'c', 'j').seal().hoist('i'));
}
CASE(lay_z, true) {
	const auto n = 2 * P(1, 6), k = 2 * P(1, 6);
	auto s = scalar<int>() ^ vectors<'x', 'y'>(n, k) ^ merge_zcurve<'x', 'y', 'i'>::maxlen_alignment<16, 2>();
	Space m(4);
	f(traverser(s), s, m.vec('x', n).vec('y', k).zcurve("xy", 'i').seal());
}
CASE(lay_into_blocks, true) {
	const auto b = P(1, 6), n = b * L2();
	auto s = scalar<int>() ^ vector<'x'>(n) ^ into_blocks<'x', 'i', 'j'>(b);
	Space m(4);
	f(traverser(s) ^ hoist<'j'>(), s, m.vec('x', n).into_blocks('x', 'i', 'j', b).seal().hoist('j'));
}
CASE(lay_slice, true) {
	const auto n = L1(), a = upto(n), l = upto(n - a);
	auto s = scalar<int>() ^ vector<'i'>(n) ^ slice<'i'>(a, l);
	Space m(4);
	f(traverser(s), s, m.vec('i', n).slice('i', a, l).seal());
}
CASE(lay_rev_step, true) {
	const auto n = L2(), k = L3(), q = P(1, 3), r = upto(q - 1);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k) ^ reverse<'i'>() ^ step<'i'>(r, q) ^ hoist<'i'>();
	Space m(4);
	f(traverser(s), s, m.vec('i', n).vec('j', k).reverse('i').step('i', r, q).hoist('i').seal());
}
CASE(lay_span_fix, true) {
	const auto n = L1(), k = P(1, 4), x = upto(k - 1), a = upto(n), e = a + upto(n - a);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k) ^ span<'i'>(a, e) ^ fix<'j'>(x);
	Space m(4);
	f(traverser(s), s, m.vec('i', n).vec('j', k).span('i', a, e).fix('j', x).seal());
}
CASE(lay_shift_dyn, true) {
	const auto n = L1(), a = upto(n), b = P(1, 6);
	auto s = scalar<std::int16_t>() ^ vector<'i'>(n) ^ shift<'i'>(a);
	Space m(2);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b), s,
	  m.vec('i', n).shift('i', a).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b));
}
CASE(lay_rename_tuple, true) {
	const auto n = L2(), k = L3();
	auto s = pack(scalar<char>(), scalar<int>()) ^ tuple<'t'>() ^ vectors<'x', 'y'>(n, k) ^ rename<'x', 'i', 'y', 'j', 't', 'k'>() ^
	         hoist<'i'>();
	Space m(1);
	f(traverser(s), s,
	  m.tuple('t', {1, 4}).vec('x', n).vec('y', k).rename('x', 'i').rename('y', 'j').rename('t', 'k').hoist('i').seal());
}

// ------------------------------------------------------------------------------------------------ number of blocks given
CASE(v1_dyn_count, true) {
	const auto c = P(1, 9), n = L1();
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>() ^ set_length<'B'>(c), s,
	  m.vec('i', n).seal().into_blocks_count('i', 'B', 'b', 'p', c));
}
CASE(v2_dyn_count, true) { // as above, distributed to a fixed number of workers, other dimensions inside and outside
	const auto c = P(1, 6), n = L2(), k = L3();
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n);
	Space m(4);
	f(traverser(s) ^ reverse<'i'>() ^ strip_mine_dynamic<'i', 'B', 'b', 'p'>() ^ set_length<'B'>(c) ^ hoist<'j'>(), s,
	  m.vec('j', k).vec('i', n).seal().reverse('i').into_blocks_count('i', 'B', 'b', 'p', c).hoist('B').hoist('j'));
}
// ------------------------------------------------------------------------------------------------ static lengths and indices
CASE(s1_blk, true) {
	auto s = scalar<int>() ^ array<'i', 12>();
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(lit<4>) ^ hoist<'b'>(), s,
	  m.vec('i', 12).seal().into_blocks('i', 'B', 'b', 4).hoist('b'));
}
CASE(s1_blk_count, true) {
	auto s = scalar<int>() ^ array<'i', 12>();
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>() ^ set_length<'B'>(lit<6>), s,
	  m.vec('i', 12).seal().into_blocks('i', 'B', 'b', 2));
}
CASE(s1_rest, true) {
	const auto k = L2();
	auto s = scalar<int>() ^ array<'i', 11>() ^ vector<'j'>(k);
	Space m(4);
	f(traverser(s) ^ into_blocks_static<'i', 'o', 'B', 'b'>(lit<3>), s,
	  m.vec('i', 11).vec('j', k).seal().into_blocks_static('i', 'o', 'B', 'b', 3));
}
CASE(s1_views, true) {
	auto s = scalar<std::int16_t>() ^ array<'i', 17>();
	Space m(2);
	f(traverser(s) ^ slice<'i'>(lit<2>, lit<13>) ^ step<'i'>(lit<1>, lit<3>) ^ reverse<'i'>(), s,
	  m.vec('i', 17).seal().slice('i', 2, 13).step('i', 1, 3).reverse('i'));
}
CASE(s2_span_shift, true) {
	auto s = scalar<int>() ^ array<'i', 5>() ^ array<'j', 7>();
	Space m(4);
	f(traverser(s) ^ span<'j'>(lit<1>, lit<6>) ^ shift<'i'>(lit<2>) ^ hoist<'i'>(), s,
	  m.vec('i', 5).vec('j', 7).seal().span('j', 1, 6).shift('i', 2).hoist('i'));
}
CASE(s2_merge, true) {
	auto s = scalar<int>() ^ array<'i', 4>() ^ array<'j', 5>();
	Space m(4);
	f(traverser(s) ^ merge_blocks<'i', 'j', 'z'>(), s, m.vec('i', 4).vec('j', 5).seal().merge_blocks('i', 'j', 'z'));
}
CASE(s2_dyn, true) {
	const auto k = L3();
	auto s = scalar<int>() ^ vector<'j'>(k) ^ array<'i', 10>();
	Space m(4);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(lit<4>), s,
	  m.vec('j', k).vec('i', 10).seal().into_blocks_dynamic('i', 'B', 'b', 'p', 4));
}
// ------------------------------------------------------------------------------------------------ other ways to say it
CASE(v2_like, true) {
	const auto n = L2(), k = L2();
	auto s0 = scalar<char>() ^ vectors<'i', 'j'>(n, k);
	auto s = scalar<double>() ^ noarr::vectors_like<'j', 'i'>(s0);
	Space m(8);
	f(traverser(s), s, m.vec('j', k).vec('i', n).seal());
}
CASE(v2_late, true) { // lengths given together, and last
	const auto n = L2(), k = L2();
	auto s0 = scalar<int>() ^ vectors<'i', 'j'>();
	auto s = s0 ^ set_length<'j', 'i'>(k, n);
	Space m(4);
	f(traverser(s0) ^ hoist<'i'>() ^ reverse<'i', 'j'>() ^ set_length<'j', 'i'>(k, n), s,
	  m.vec('i', n).vec('j', k).seal().hoist('i').reverse('i').reverse('j'));
}
CASE(v2_shift2, true) { // one-argument and multi-dimensional forms
	const auto n = L2(), k = L2(), a = upto(n), b = upto(k), e = upto(n - a);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ shift<'i', 'j'>(a, b) ^ slice<'i'>(e), s,
	  m.vec('i', n).vec('j', k).seal().shift('i', a).shift('j', b).slice('i', 0, e));
}
CASE(v2_spans, true) {
	const auto n = L2(), k = L2(), a = upto(n / 2), b = upto(k / 2);
	auto s = scalar<int>() ^ vectors<'i', 'j'>(n, k);
	Space m(4);
	f(traverser(s) ^ noarr::symmetric_spans<'i', 'j'>(s, a, b) ^ hoist<'i'>(), s,
	  m.vec('i', n).vec('j', k).seal().span('i', a, n - a).span('j', b, k - b).hoist('i'));
}
CASE(v3_fix_state, true) {
	const auto n = L2(), k = P(1, 4), q = P(1, 4), x = upto(k - 1), y = upto(q - 1);
	auto s = scalar<int>() ^ vectors<'j', 'i', 'k'>(k, n, q);
	Space m(4);
	f(traverser(s) ^ fix(noarr::idx<'j', 'k'>(x, y)), s, m.vec('j', k).vec('i', n).vec('k', q).seal().fix('j', x).fix('k', y));
}
CASE(v2_merge_late, true) { // one of the merged lengths given by the order
	const auto n = L2(), k = P(1, 6);
	auto s0 = scalar<int>() ^ vector<'i'>(n) ^ vector<'j'>();
	auto s = s0 ^ set_length<'j'>(k);
	Space m(4);
	f(traverser(s0) ^ merge_blocks<'i', 'j', 'z'>(k), s, m.vec('i', n).vec('j', k).seal().merge_blocks('i', 'j', 'z'));
}
CASE(v2_bcast_top, false) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ bcast<'j'>(k) ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ hoist<'j'>(), s, m.bcast('j', k).vec('i', n).seal().hoist('j'));
}

// ------------------------------------------------------------------------------------------------ lengths given last
CASE(l_shift, true) {
	const auto n = L1(), a = upto(4);
	auto s0 = scalar<int>() ^ vector<'i'>();
	auto s = s0 ^ set_length<'i'>(n + a);
	Space m(4);
	f(traverser(s0) ^ shift<'i'>(a) ^ set_length<'i'>(n), s, m.vec('i', n + a).seal().shift('i', a));
}
CASE(l_shift_lay, true) {
	const auto n = L2(), a = upto(4), k = L3();
	auto s = scalar<int>() ^ vector<'i'>() ^ vector<'j'>(k) ^ shift<'i'>(a) ^ reverse<'i'>() ^ set_length<'i'>(n);
	Space m(4);
	f(traverser(s) ^ hoist<'i'>(), s, m.vec('i', n + a).vec('j', k).shift('i', a).reverse('i').seal().hoist('i'));
}
CASE(l_shift_lit, true) {
	const auto k = L2();
	auto s = scalar<int>() ^ vector<'i'>() ^ shift<'i'>(lit<2>) ^ set_length<'i'>(lit<3>) ^ vector<'j'>(k);
	Space m(4);
	f(traverser(s), s, m.vec('i', 5).vec('j', k).shift('i', 2).seal());
}
CASE(l_blocks, true) { // both lengths of the blocks
	const auto b = P(1, 5), c = L2(), k = L3();
	auto s0 = scalar<int>() ^ vector<'i'>() ^ vector<'j'>(k);
	auto s = s0 ^ set_length<'i'>(b * c);
	Space m(4);
	f(traverser(s0) ^ into_blocks<'i', 'B', 'b'>() ^ set_length<'B', 'b'>(c, b) ^ hoist<'B'>(), s,
	  m.vec('i', b * c).vec('j', k).seal().into_blocks('i', 'B', 'b', b).hoist('B'));
}
CASE(l_blocks_lay, true) {
	const auto b = P(1, 5), c = L2();
	auto s = scalar<int>() ^ vector<'x'>() ^ into_blocks<'x', 'i', 'j'>() ^ set_length<'j'>(b) ^ reverse<'i'>() ^ set_length<'i'>(c);
	Space m(4);
	f(traverser(s) ^ hoist<'j'>(), s, m.vec('x', b * c).into_blocks('x', 'i', 'j', b).reverse('i').seal().hoist('j'));
}
CASE(l_dyn, true) {
	const auto b = P(1, 5), c = L2(), k = L3();
	auto s0 = scalar<int>() ^ vector<'j'>(k) ^ vector<'i'>();
	auto s = s0 ^ set_length<'i'>(b * c);
	Space m(4);
	f(traverser(s0) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>() ^ set_length<'b'>(b) ^ set_length<'B'>(c), s,
	  m.vec('j', k).vec('i', b * c).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b));
}
CASE(l_merge_minor, true) { // the merged length and that of the minor dimension
	const auto n = P(1, 5), k = L2(), q = P(1, 3);
	auto s0 = scalar<int>() ^ vector<'i'>() ^ vector<'k'>(q) ^ vector<'j'>(k);
	auto s = s0 ^ set_length<'i'>(n);
	Space m(4);
	f(traverser(s0) ^ merge_blocks<'i', 'j', 'z'>() ^ set_length<'z'>(n * k), s,
	  m.vec('i', n).vec('k', q).vec('j', k).seal().merge_blocks('i', 'j', 'z'));
}
CASE(l_merge_major, true) {
	const auto n = P(1, 5), k = P(1, 7), q = P(1, 3);
	auto s0 = scalar<int>() ^ vector<'i'>(n) ^ vector<'k'>(q) ^ vector<'j'>();
	auto s = s0 ^ set_length<'j'>(k);
	Space m(4);
	f(traverser(s0) ^ merge_blocks<'i', 'j', 'z'>() ^ set_length<'z'>(n * k), s,
	  m.vec('i', n).vec('k', q).vec('j', k).seal().merge_blocks('i', 'j', 'z'));
}
CASE(l_merge_lay, true) {
	const auto n = P(1, 5), k = L2(), q = P(1, 3);
	auto s = scalar<int>() ^ vector<'b'>(n) ^ vector<'j'>(q) ^ vector<'B'>() ^ merge_blocks<'B', 'b', 'i'>() ^ set_length<'i'>(n * k);
	Space m(4);
	f(traverser(s), s, m.vec('b', n).vec('j', q).vec('B', k).merge_blocks('B', 'b', 'i').seal());
}
CASE(l_merge_lay2, true) { // the number of blocks is known, not their length
	const auto n = P(1, 5), k = P(1, 7), q = P(1, 3);
	auto s = scalar<int>() ^ vector<'b'>() ^ vector<'j'>(q) ^ vector<'B'>(k) ^ merge_blocks<'B', 'b', 'i'>() ^ set_length<'i'>(n * k);
	Space m(4);
	f(traverser(s), s, m.vec('b', n).vec('j', q).vec('B', k).merge_blocks('B', 'b', 'i').seal());
}
CASE(l_bcast, false) {
	const auto n = L2(), k = L3();
	auto s = scalar<int>() ^ vector<'i'>(n) ^ bcast<'j'>() ^ set_length<'j'>(k);
	Space m(4);
	f(traverser(s), s, m.vec('i', n).bcast('j', k).seal());
}
CASE(l_hoist, true) {
	const auto n = L2(), k = L2();
	auto s = scalar<int>() ^ vectors<'x', 'j'>() ^ hoist<'x'>() ^ rename<'x', 'i'>() ^ set_length<'j'>(k) ^ set_length<'i'>(n);
	Space m(4);
	f(traverser(s), s, m.vec('x', n).vec('j', k).hoist('x').rename('x', 'i').seal());
}
CASE(j_diag, true) { // the diagonal
	const auto n = L2(), k = L3();
	auto s = scalar<int>() ^ vectors<'x', 'y', 'j'>(n, n, k) ^ noarr::join<'x', 'y', 'i'>();
	Space m(4);
	f(traverser(s), s, m.vec('x', n).vec('y', n).vec('j', k).join('x', 'y').rename('x', 'i').seal());
}
CASE(j_late, true) {
	const auto n = L2();
	auto s = scalar<int>() ^ vectors<'x', 'y'>() ^ noarr::join<'x', 'y', 'i'>() ^ set_length<'i'>(n);
	Space m(4);
	f(traverser(s) ^ reverse<'i'>(), s, m.vec('x', n).vec('y', n).join('x', 'y').rename('x', 'i').seal().reverse('i'));
}

// ------------------------------------------------------------------------------------------------ a single index, known statically
CASE(u1_in, true) { // inside and outside of others
	const auto n = L1();
	auto s = scalar<int>() ^ array<'i', 1>() ^ vector<'j'>(n) ^ array<'k', 1>();
	Space m(4);
	f(traverser(s) ^ hoist<'j'>(), s, m.vec('i', 1).vec('j', n).vec('k', 1).seal().hoist('j'));
}
CASE(u1_late, true) {
	const auto n = L2(), k = L3();
	auto s = scalar<std::int16_t>() ^ vectors<'i', 'j', 'k'>() ^ set_length<'j'>(lit<1>) ^ set_length<'k', 'i'>(k, n);
	Space m(2);
	f(traverser(s) ^ reverse<'j', 'i'>(), s, m.vec('i', n).vec('j', 1).vec('k', k).seal().reverse('j').reverse('i'));
}
CASE(u1_soa, true) { // fields of one element after others
	const auto n = L2();
	auto s = pack(scalar<int>() ^ array<'i', 1>(), scalar<char>() ^ array<'i', 1>(), scalar<double>() ^ array<'i', 1>()) ^ tuple<'k'>() ^
	         vector<'j'>(n);
	Space m(1);
	f(traverser(s), s, m.tuple_vec('k', 'i', {4, 1, 8}, {1, 1, 1}).vec('j', n).seal());
}
CASE(u1_blocks, true) { // blocks of one, and one block
	const auto k = L2();
	auto s = scalar<int>() ^ array<'i', 5>() ^ vector<'j'>(k);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(lit<1>) ^ into_blocks<'B', 'C', 'c'>(lit<5>), s,
	  m.vec('i', 5).vec('j', k).seal().into_blocks('i', 'B', 'b', 1).into_blocks('B', 'C', 'c', 5));
}
CASE(u1_lay, true) { // blocked layout with blocks of one
	const auto n = L2(), k = P(1, 4), q = P(1, 4);
	auto s = scalar<int>() ^ array<'b', 1>() ^ vectors<'j', 'B'>(k, n) ^ merge_blocks<'B', 'b', 'i'>();
	Space m(4);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'C', 'c', 'p'>(q), s,
	  m.vec('b', 1).vec('j', k).vec('B', n).merge_blocks('B', 'b', 'i').seal().into_blocks_dynamic('i', 'C', 'c', 'p', q));
}
CASE(u1_slices, true) { // one index out of many
	const auto n = L2();
	auto s = scalar<double>() ^ array<'i', 4>() ^ vector<'j'>(n) ^ array<'k', 3>();
	Space m(8);
	f(traverser(s) ^ slice<'i'>(lit<2>, lit<1>) ^ span<'k'>(lit<1>, lit<2>) ^ hoist<'j'>(), s,
	  m.vec('i', 4).vec('j', n).vec('k', 3).seal().slice('i', 2, 1).span('k', 1, 2).hoist('j'));
}
CASE(u1_bcast, true) {
	const auto n = L2(), k = L3();
	auto s = scalar<int>() ^ array<'k', 1>() ^ vector<'i'>(n) ^ bcast<'z'>(lit<1>) ^ vector<'j'>(k) ^ hoist<'i'>();
	Space m(4);
	f(traverser(s), s, m.vec('k', 1).vec('i', n).bcast('z', 1).vec('j', k).hoist('i').seal());
}
CASE(u1_fix, true) { // static indices
	const auto n = L1();
	auto s = scalar<int>() ^ array<'k', 3>() ^ vector<'i'>(n) ^ array<'j', 4>();
	Space m(4);
	f(traverser(s) ^ fix<'j'>(lit<3>) ^ fix<'k'>(lit<1>), s, m.vec('k', 3).vec('i', n).vec('j', 4).seal().fix('j', 3).fix('k', 1));
}

CASE(u1_fix_merge, true) { // static indices through the arithmetic of blocks
	const auto n = P(2, 5), k = P(1, 4), q = L2();
	auto s = scalar<int>() ^ vectors<'i', 'j', 'k'>(n, k, q);
	Space m(4);
	f(traverser(s) ^ merge_blocks<'i', 'j', 'z'>() ^ fix<'z'>(lit<1>), s,
	  m.vec('i', n).vec('j', k).vec('k', q).seal().merge_blocks('i', 'j', 'z').fix('z', 1));
}
CASE(u1_fix_blocks, true) {
	const auto b = P(1, 4), n = b * P(3, 5), q = L2();
	auto s = scalar<int>() ^ vectors<'i', 'k'>(n, q);
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ fix<'B'>(lit<2>) ^ fix<'b'>(lit<0>), s,
	  m.vec('i', n).vec('k', q).seal().into_blocks('i', 'B', 'b', b).fix('B', 2).fix('b', 0));
}
CASE(u1_fix_views, true) {
	const auto n = P(9, 20), q = L2(), a = P(0, 2), w = P(1, 3);
	auto s = scalar<int>() ^ vectors<'i', 'k', 'j'>(n, q, n);
	Space m(4);
	f(traverser(s) ^ shift<'i'>(a) ^ step<'i'>(std::size_t(0), w) ^ reverse<'i'>() ^ fix<'i'>(lit<1>) ^ span<'j'>(n - 1) ^ shift<'j'>(lit<2>) ^
	    reverse<'j'>() ^ fix<'j'>(lit<0>),
	  s,
	  m.vec('i', n).vec('k', q).vec('j', n).seal().shift('i', a).step('i', 0, w).reverse('i').fix('i', 1).span('j', 0, n - 1).shift('j', 2).reverse('j').fix('j', 0));
}
CASE(u1_fix_dyn, true) { // the guard decides although the indices are static
	const auto b = P(1, 4), n = P(1, 12), q = L2();
	auto s = scalar<int>() ^ vectors<'i', 'k'>(n, q);
	Space m(4);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b) ^ fix<'B'>(lit<0>), s,
	  m.vec('i', n).vec('k', q).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b).fix('B', 0));
}
CASE(v1_span1, true) { // one argument
	const auto n = L1(), e = upto(n), l = upto(e);
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ span<'i'>(e) ^ slice<'i'>(l), s, m.vec('i', n).seal().span('i', 0, e).slice('i', 0, l));
}
CASE(s1_span1, true) {
	const auto n = L2();
	auto s = scalar<int>() ^ array<'i', 9>() ^ vector<'j'>(n);
	Space m(4);
	f(traverser(s) ^ span<'i'>(lit<7>) ^ slice<'i'>(lit<5>) ^ hoist<'j'>(), s, m.vec('i', 9).vec('j', n).seal().span('i', 0, 7).slice('i', 0, 5).hoist('j'));
}

// ------------------------------------------------------------------------------------------------ beyond 32 bits
// few elements, far apart; none of the data exist
inline std::size_t H() { return (std::size_t(1) << sim::range(28, 36)) + sim::decide(sim::K_DATA, 100000); }
inline std::size_t few(std::size_t n) { return n / P(1, 6) + 1; }
CASE(h_vec, true) {
	const auto n = H(), q = few(n), r = upto(100);
	auto s = scalar<double>() ^ vector<'i'>(n);
	Space m(8);
	f(traverser(s) ^ step<'i'>(r, q), s, m.vec('i', n).seal().step('i', r, q));
}
CASE(h_rows, true) {
	const auto n = H(), k = P(1, 300000), a = n - upto(6), q = few(k);
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n);
	Space m(4);
	f(traverser(s) ^ shift<'i'>(a) ^ step<'j'>(std::size_t(0), q), s, m.vec('j', k).vec('i', n).seal().shift('i', a).step('j', 0, q));
}
CASE(h_cols, true) {
	const auto n = H(), k = H() / 65536, q = few(k), l = P(0, 6), a = n - l - upto(9), r = upto(3);
	auto s = scalar<std::int16_t>() ^ vectors<'j', 'i'>(k, n) ^ hoist<'j'>();
	Space m(2);
	f(traverser(s) ^ slice<'i'>(a, l) ^ step<'j'>(r, q), s, m.vec('j', k).vec('i', n).hoist('j').seal().slice('i', a, l).step('j', r, q));
}
CASE(h_rev, true) {
	const auto n = H(), q = few(n), l = n / 2;
	auto s = scalar<char>() ^ vector<'i'>(n) ^ reverse<'i'>() ^ slice<'i'>(n - l, l);
	Space m(1);
	f(traverser(s) ^ step<'i'>(std::size_t(0), q), s, m.vec('i', n).reverse('i').slice('i', n - l, l).seal().step('i', 0, q));
}
CASE(h_blocked, true) { // blocked layout with huge block numbers
	const auto b = P(1, 70000), n = H() / 16, k = P(1, 5), q = few(n), x = upto(b - 1);
	auto s = scalar<int>() ^ vectors<'b', 'j', 'B'>(b, k, n) ^ merge_blocks<'B', 'b', 'i'>();
	Space m(4);
	f(traverser(s) ^ into_blocks<'i', 'C', 'c'>(b) ^ fix<'c'>(x) ^ step<'C'>(std::size_t(0), q), s,
	  m.vec('b', b).vec('j', k).vec('B', n).merge_blocks('B', 'b', 'i').seal().into_blocks('i', 'C', 'c', b).fix('c', x).step('C', 0, q));
}
CASE(h_span_blocks, true) {
	const auto b = H() / 8, n = b * P(1, 5), q = few(b), a = upto(1000);
	auto s = scalar<double>() ^ vector<'i'>(n);
	Space m(8);
	f(traverser(s) ^ into_blocks<'i', 'B', 'b'>(b) ^ span<'b'>(a, b) ^ step<'b'>(std::size_t(0), q) ^ hoist<'b'>(), s,
	  m.vec('i', n).seal().into_blocks('i', 'B', 'b', b).span('b', a, b).step('b', 0, q).hoist('b'));
}
CASE(h_dyn, true) {
	const auto n = H(), b = H() / 16, q = few(b), r = few((n + b - 1) / b);
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	f(traverser(s) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b) ^ step<'b'>(std::size_t(0), q) ^ step<'B'>(std::size_t(0), r), s,
	  m.vec('i', n).seal().into_blocks_dynamic('i', 'B', 'b', 'p', b).step('b', 0, q).step('B', 0, r));
}
CASE(h_merge, true) {
	const auto n = H() / 4, k = P(1, 1000), q = n * k / P(1, 6) + 1;
	auto s = scalar<int>() ^ vectors<'j', 'i'>(k, n);
	Space m(4);
	f(traverser(s) ^ merge_blocks<'j', 'i', 'z'>() ^ step<'z'>(std::size_t(3), q), s,
	  m.vec('j', k).vec('i', n).seal().merge_blocks('j', 'i', 'z').step('z', 3, q));
}
CASE(h_soa, true) { // structure of arrays, each beyond 4 GiB
	const auto n = H(), q = few(n), r = P(1, 5);
	auto s = pack(scalar<double>() ^ vector<'i'>(n), scalar<std::int16_t>() ^ vector<'i'>(n)) ^ tuple<'k'>() ^ vector<'j'>(r);
	Space m(1);
	f(traverser(s) ^ step<'i'>(std::size_t(1), q), s,
	  m.tuple_vec('k', 'i', {8, 2}, {static_cast<i64>(n), static_cast<i64>(n)}).vec('j', r).seal().step('i', 1, q));
}
CASE(h_array, true) {
	auto s = scalar<double>() ^ array<'i', 5000000011>() ^ array<'j', 3>();
	Space m(8);
	f(traverser(s) ^ step<'i'>(lit<4999999990>, lit<7>), s, m.vec('i', 5000000011).vec('j', 3).seal().step('i', 4999999990, 7));
}

CASE(h_zcurve, true) { // small aligned blocks, the general algorithm at every level above
	const auto n = 16 * P(1, 40), k = 16 * P(1, 40), l = P(1, 3), q = n * k / P(1, 12) + 1, r = upto(3);
	auto s = scalar<double>() ^ vectors<'i', 'j', 'k'>(n, k, l);
	Space m(8);
	f(traverser(s) ^ merge_zcurve<'i', 'j', 'z'>::maxlen_alignment<1024, 16>() ^ step<'z'>(r, q) ^ hoist<'z'>(), s,
	  m.vec('i', n).vec('j', k).vec('k', l).seal().zcurve_blocks("ij", 'z', 16).step('z', r, q).hoist('z'));
}
CASE(h_array_views, true) {
	const auto a = P(0, 5);
	auto s = scalar<double>() ^ array<'i', 7000000011>() ^ array<'j', 3>();
	Space m(8);
	f(traverser(s) ^ span<'i'>(a, lit<7000000003>) ^ shift<'i'>(lit<6999999990>), s,
	  m.vec('i', 7000000011).vec('j', 3).seal().span('i', a, 7000000003).shift('i', 6999999990));
}
CASE(h_zcurve4, true) { // every level by the general algorithm
	const auto n = 131072 * P(1, 3), k = 131072 * P(1, 3), q = n * k / P(1, 12) + 1, r = std::size_t(sim::decide(sim::K_DATA, 100000));
	auto s = scalar<char>() ^ vectors<'i', 'j'>(n, k);
	Space m(1);
	f(traverser(s) ^ merge_zcurve<'i', 'j', 'z'>::maxlen_alignment<1048576, 2>() ^ step<'z'>(r, q), s,
	  m.vec('i', n).vec('j', k).seal().zcurve_blocks("ij", 'z', 131072).step('z', r, q));
}
CASE(h_zcurve5, true) { // lengths that are no multiple of anything, one of them beyond 2^32
	const auto n = (std::size_t(1) << 32) * P(0, 1) + P(1, 1000000007), k = upto(7) + 1, l = upto(2) + 1, q = n * k / P(1, 12) + 1,
	           r = std::size_t(sim::decide(sim::K_DATA, 100000));
	auto s = scalar<char>() ^ vectors<'i', 'j', 'k'>(n, k, l);
	Space m(1);
	f(traverser(s) ^ merge_zcurve<'j', 'i', 'z'>::maxlen_alignment<8589934592, 1>() ^ step<'z'>(r, q), s,
	  m.vec('i', n).vec('j', k).vec('k', l).seal().zcurve_descend("ji", 'z', 33).step('z', r, q));
}
CASE(h_zcurve2, true) {
	const auto n = 131072 * P(1, 3), k = 131072 * P(1, 3), q = n * k / P(1, 12) + 1, r = std::size_t(sim::decide(sim::K_DATA, 100000));
	auto s = scalar<char>() ^ vectors<'i', 'j'>(n, k);
	Space m(1);
	f(traverser(s) ^ merge_zcurve<'j', 'i', 'z'>::maxlen_alignment<1048576, 131072>() ^ step<'z'>(r, q), s,
	  m.vec('i', n).vec('j', k).seal().zcurve_blocks("ji", 'z', 131072).step('z', r, q));
}
CASE(h_zcurve3, true) { // the layout itself, and the top dimension is another one
	const auto n = 2048 * P(1, 3), k = 2048 * P(1, 3), l = 2048 * P(1, 3), q = n * k * l / P(1, 12) + 1,
	           r = std::size_t(sim::decide(sim::K_DATA, 100000)), w = P(1, 3);
	auto s = scalar<std::int16_t>() ^ vectors<'x', 'y', 'z', 'j'>(n, k, l, w) ^ merge_zcurve<'x', 'y', 'z', 'i'>::maxlen_alignment<8192, 2048>();
	Space m(2);
	f(traverser(s) ^ step<'i'>(r, q), s,
	  m.vec('x', n).vec('y', k).vec('z', l).vec('j', w).zcurve_blocks("xyz", 'i', 2048).seal().step('i', r, q));
}

// ------------------------------------------------------------------------------------------------ groups
template<class... Cs>
struct List {};

using Core = List<v1, v1_dyn, v2, v2_hoist, v2_tiles, matmul, v2_merge, v2_tuple>;
using OneD = List<v1, a1, v1_slice, v1_span_rev, v1_shift_step, v1_rev_slice, v1_blk, v1_blk_minor_top, v1_blk_major_len,
                  v1_dyn, v1_dyn_slice, v1_dyn_rev_blocks, v1_two_level, v1_late_len, v1_step_blocks>;
using TwoD = List<v2, v2_hoist, v2_reorder, a2, a2_static_top, v2_tiles, v2_tiles2, v2_tiles_dyn, v2_inner_static_blocks,
                  v2_merge, v2_merge_swapped, v2_merge_reblock, v2_zcurve, v2_zcurve_general, v2_fix, v2_rename,
                  v2_swap_names, v2_tuple, v2_soa, v2_tuple_vec, v2_sym, v2_rev_step_hoist, v2_bcast, v2_mix>;
using ManyD = List<v3, v3_reorder, v3_hoist2, v3_merge_tile, v3_zcurve, v4_zcurve, v1_zcurve, v4, matmul, matmul_tiled, uni_disjoint>;
using Lay = List<lay_blocked, lay_tiled, lay_z, lay_into_blocks, lay_slice, lay_rev_step, lay_span_fix,
                 lay_shift_dyn, lay_rename_tuple>;

template<class... Ls>
struct Cat;
template<class... A1, class... B1, class... Rest>
struct Cat<List<A1...>, List<B1...>, Rest...> : Cat<List<A1..., B1...>, Rest...> {};
template<class... A1>
struct Cat<List<A1...>> {
	using type = List<A1...>;
};
using Forms = List<v1_dyn_count, v2_dyn_count, s1_blk, s1_blk_count, s1_rest, s1_views, s2_span_shift, s2_merge, s2_dyn, v2_like, v2_late,
                   v2_shift2, v2_spans, v3_fix_state, v2_merge_late, v2_bcast_top,
                   u1_in, u1_late, u1_soa, u1_blocks, u1_lay, u1_slices, u1_bcast, u1_fix,
                   u1_fix_merge, u1_fix_blocks, u1_fix_views, u1_fix_dyn, v1_span1, s1_span1>;
using Late = List<l_shift, l_shift_lay, l_shift_lit, l_blocks, l_blocks_lay, l_dyn, l_merge_minor, l_merge_major, l_merge_lay,
                  l_merge_lay2, l_bcast, l_hoist, j_diag, j_late>;
using Huge = List<h_vec, h_rows, h_cols, h_rev, h_blocked, h_span_blocks, h_dyn, h_merge, h_soa, h_array,
                  h_array_views, h_zcurve, h_zcurve2, h_zcurve3, h_zcurve4, h_zcurve5>;
using All = typename Cat<OneD, TwoD, ManyD, Lay, Forms, Late>::type;

} // namespace cases

// ---------------------------------------------------------------------------------------------------- observation
template<char D, class St>
inline i64 state_index(const St &st) {
	if constexpr (noarr::state_contains<St, noarr::index_in<D>>)
		return static_cast<i64>(static_cast<std::size_t>(st.template get<noarr::index_in<D>>()));
	else
		return -1;
}

template<class St>
inline Key key_of(const St &st) {
	return Key{{state_index<'i'>(st), state_index<'j'>(st), state_index<'k'>(st), state_index<'l'>(st),
	            state_index<'m'>(st), state_index<'n'>(st)}};
}

// ---------------------------------------------------------------------------------------------------- registration
#ifndef PART
#	define PART 0
#	define NPARTS 1
#endif

// registers scenario fn<Case, Exec> for all pairs assigned to this translation unit
template<template<class, class> class Scen, int Part = PART, class... Es, class... Cs>
void register_grid(cases::List<Cs...>, cases::List<Es...>, std::uint32_t weight = 1, int phase = 0) {
	int idx = phase;
	auto one = [&]<class C_, class E_>(cases::List<C_, E_>) {
		static std::string nm = std::string(C_::name) + "/" + E_::name;
		if constexpr (requires { Scen<C_, E_>::prefix; })
			nm = std::string(Scen<C_, E_>::prefix) + "/" + nm;
		sim::Reg(nm.c_str(), &Scen<C_, E_>::run, weight);
		(void)idx;
	};
	(void)one;
	[&]<std::size_t... I>(std::index_sequence<I...>) {
		(([&] {
			 constexpr std::size_t ne = sizeof...(Es);
			 if constexpr ((I / ne * 5 + I % ne * 3) % NPARTS == Part) {
				 using C_ = std::tuple_element_t<I / ne, std::tuple<Cs...>>;
				 using E_ = std::tuple_element_t<I % ne, std::tuple<Es...>>;
				 one(cases::List<C_, E_>());
			 }
		 }()),
		 ...);
	}(std::make_index_sequence<sizeof...(Cs) * sizeof...(Es)>());
}

#endif
