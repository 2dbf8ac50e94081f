// C03: ranges of traversers and planners split and iterate as a random-access partition
#include "visit.hpp"

#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/planner_iter.hpp>
#include <noarr/structures/interop/tbb.hpp>

#include <iterator>
#include <memory>

namespace {

// where callbacks of the running thread put the visited keys
std::vector<Key> *sink[64];

struct Record {
	void operator()(const auto &st) const {
		const Key k = key_of(st);
		sim::step(1);
		const sim::Pause p;
		sink[sim::self() & 63]->push_back(k);
	}
};

template<class Sig>
struct top_of;
template<auto D, class N, class R>
struct top_of<noarr::function_sig<D, N, R>> {
	static constexpr auto dim = D;
};

template<class Fn>
std::vector<Key> *collect(Fn &&fn) {
	std::vector<Key> *v;
	{
		const sim::Pause p;
		v = sink[sim::self() & 63] = new std::vector<Key>();
	}
	fn();
	return v;
}

// how the elements denoted by a range or by a section are obtained
struct OfTraverser {
	static constexpr const char *name = "traverser";
	template<class R>
	[[gnu::noinline]] static void all_of(const R &r, int how) {
		if (how == 0)
			r.for_each(Record());
		else
			r.as_traverser().for_each(Record());
	}
	template<class S>
	[[gnu::noinline]] static void run(const S &s) {
		s.for_each(Record());
	}
};
struct OfPlanner {
	static constexpr const char *name = "planner";
	template<class R>
	[[gnu::noinline]] static void all_of(const R &r, int how) {
		if (how == 0)
			r.as_planner().execute();
		else
			r.as_planner()();
	}
	template<class S>
	[[gnu::noinline]] static void run(const S &s) {
		s.execute();
	}
};

struct Sections {
	std::vector<std::vector<Key>> keys; // sorted, per position
	std::vector<Key> of(i64 lo, i64 hi) const {
		std::vector<Key> out;
		for (i64 x = lo; x < hi; x++)
			out.insert(out.end(), keys[x].begin(), keys[x].end());
		std::sort(out.begin(), out.end());
		return out;
	}
};

void same(std::vector<Key> *got, const std::vector<Key> &want, const char *what, i64 lo, i64 hi) {
	const sim::Pause p;
	std::sort(got->begin(), got->end());
	if (*got != want)
		sim::fail("wrong_elements", "%s of positions [%lld,%lld) visited %zu elements, expected %zu%s", what, (long long)lo,
		          (long long)hi, got->size(), want.size(), got->size() == want.size() ? " others" : "");
	delete got;
}

#define REQUIRE(cls, cond, ...)                                                                                        \
	do {                                                                                                               \
		if (!(cond))                                                                                                   \
			sim::fail(cls, __VA_ARGS__);                                                                               \
	} while (0)

template<class R>
struct Piece {
	R *r;
	i64 lo, hi;
};

template<auto Dim, class Of, class R>
struct Game {
	const Sections *sec;
	std::vector<Piece<R>> pool; // pieces no thread is working on
	int busy = 0;
	int steps = 0;
	i64 n;

	[[gnu::noinline]] void check_sizes(const R &r, i64 lo, i64 hi) {
		REQUIRE("size", static_cast<i64>(r.size()) == hi - lo, "size() = %lld for %lld positions", (long long)r.size(), (long long)(hi - lo));
		REQUIRE("size", r.empty() == (hi == lo), "empty() wrong for %lld positions", (long long)(hi - lo));
		REQUIRE("size", r.is_divisible() == (hi - lo > 1), "is_divisible() wrong for %lld positions", (long long)(hi - lo));
		REQUIRE("size", static_cast<i64>(r.end() - r.begin()) == hi - lo, "end() - begin() wrong for %lld positions", (long long)(hi - lo));
		REQUIRE("size", (r.begin() == r.end()) == (hi == lo), "begin() == end() wrong for %lld positions", (long long)(hi - lo));
	}

	[[gnu::noinline]] void section(const auto &s, i64 pos, const char *what) {
		same(collect([&] { Of::run(s); }), sec->keys[pos], what, pos, pos + 1);
	}

	// true if the elements of r are those at positions [lo, hi)
	[[gnu::noinline]] bool denotes(const R &r, i64 lo, i64 hi) {
		auto *g = collect([&] { Of::all_of(r, 0); });
		const sim::Pause p;
		std::sort(g->begin(), g->end());
		const bool ok = *g == sec->of(lo, hi);
		delete g;
		return ok;
	}

	[[gnu::noinline]] void iterators(const R &r, i64 lo, i64 hi) {
		using It = decltype(r.begin());
		const i64 len = hi - lo;
		It a = r.begin(), b = r.end();
		i64 pa = 0, pb = len;
		if (sim::decide(sim::K_DATA, 2)) {
			a = r.cend();
			pa = len;
		}
		const int ops = 4 + sim::decide(sim::K_DATA, 12);
		for (int o = 0; o < ops; o++) {
			const i64 to = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(len + 1));
			switch (sim::decide(sim::K_DATA, 14)) {
			case 0:
				if (pa < len) {
					It &x = ++a;
					pa++;
					REQUIRE("iterator", &x == &a, "++it does not return itself");
				}
				break;
			case 1:
				if (pa > 0) {
					It &x = --a;
					pa--;
					REQUIRE("iterator", &x == &a, "--it does not return itself");
				}
				break;
			case 2:
				if (pa < len) {
					const It x = a++;
					REQUIRE("iterator", x - b == pa - pb, "it++ returns the wrong position");
					section(*x, lo + pa, "*it++");
					pa++;
				}
				break;
			case 3:
				if (pa > 0) {
					const It x = a--;
					REQUIRE("iterator", x - b == pa - pb, "it-- returns the wrong position");
					pa--;
				}
				break;
			case 4: a += to - pa, pa = to; break;
			case 5: a -= pa - to, pa = to; break;
			case 6: b = a + (to - pa), pb = to; break;
			case 7: b = (to - pa) + a, pb = to; break;
			case 8: b = a - (pa - to), pb = to; break;
			case 9: std::swap(a, b), std::swap(pa, pb); break;
			case 10:
				if (pa < len)
					section(*a, lo + pa, "*it");
				break;
			case 11:
				if (to < len)
					section(a[to - pa], lo + to, "it[]");
				break;
			case 12:
				if (pa < len) {
					const auto held = *a; // outlives the move of the iterator
					b = a;
					pb = pa;
					a += to - pa;
					pa = to;
					section(held, lo + pb, "held *it");
				}
				break;
			case 13:
				a = std::next(r.begin(), to);
				pa = to;
				REQUIRE("iterator", std::distance(r.begin(), a) == to, "std::distance");
				break;
			}
			REQUIRE("iterator", a - b == pa - pb && b - a == pb - pa, "difference of iterators is %lld, expected %lld",
			        (long long)(a - b), (long long)(pa - pb));
			REQUIRE("iterator",
			        (a == b) == (pa == pb) && (a != b) == (pa != pb) && (a < b) == (pa < pb) && (a > b) == (pa > pb) &&
			            (a <= b) == (pa <= pb) && (a >= b) == (pa >= pb),
			        "comparison of iterators at %lld and %lld", (long long)pa, (long long)pb);
		}
	}

	void act(Piece<R> &x) {
		const i64 len = x.hi - x.lo;
		switch (sim::decide(sim::K_DATA, 9)) {
		case 0:
		case 1: { // split
			check_sizes(*x.r, x.lo, x.hi);
			if (!x.r->is_divisible())
				break;
			R *b = new R(*x.r, tbb::split());
			const i64 la = static_cast<i64>(x.r->size()), lb = static_cast<i64>(b->size());
			REQUIRE("split", la + lb == len && la > 0 && lb > 0, "split of %lld positions into %lld and %lld", (long long)len,
			        (long long)la, (long long)lb);
			Piece<R> y{b, x.lo + la, x.hi};
			if (denotes(*x.r, x.lo, x.lo + la)) {
				x.hi = x.lo + la;
			} else { // the other way round is a partition as well
				y = {b, x.lo, x.lo + lb};
				x.lo = x.lo + lb;
				sim::probe("split_reversed");
			}
			if (!denotes(*x.r, x.lo, x.hi) || !denotes(*y.r, y.lo, y.hi))
				sim::fail("split", "the parts after a split of [%lld,%lld) are not a partition", (long long)std::min(x.lo, y.lo),
				          (long long)std::max(x.hi, y.hi));
			const sim::Pause p;
			pool.push_back(y);
			break;
		}
		case 2: same(collect([&] { Of::all_of(*x.r, sim::decide(sim::K_DATA, 2)); }), sec->of(x.lo, x.hi), "range", x.lo, x.hi); break;
		case 3: iterators(*x.r, x.lo, x.hi); break;
		case 4: { // iteration
			i64 pos = x.lo;
			for (const auto s : *x.r) {
				REQUIRE("iterator", pos < x.hi, "iteration runs past the end");
				section(s, pos, "iterated section");
				pos++;
			}
			REQUIRE("iterator", pos == x.hi, "iteration stops at %lld of %lld", (long long)(pos - x.lo), (long long)len);
			break;
		}
		case 5:
			if (len > 0) {
				const i64 k = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(len));
				section((*x.r)[k], x.lo + k, "range[]");
			}
			break;
		case 6: { // order applied to a range
			const auto o = x.r->order(noarr::reverse<Dim>());
			same(collect([&] { Of::run(o); }), sec->of(x.lo, x.hi), "range.order(reverse)", x.lo, x.hi);
			break;
		}
		case 7: {
			const i64 s = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(len + 1));
			const i64 l = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(len - s + 1));
			const auto o = x.r->order(noarr::slice<Dim>(static_cast<std::size_t>(s), static_cast<std::size_t>(l)));
			same(collect([&] { Of::run(o); }), sec->of(x.lo + s, x.lo + s + l), "range.order(slice)", x.lo + s, x.lo + s + l);
			break;
		}
		case 8: { // a copy restricted by hand
			R c = *x.r;
			const i64 s = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(len + 1));
			const i64 l = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(len - s + 1));
			if constexpr (requires { c.begin_idx += s, c.end_idx = c.begin_idx + l; }) {
				c.begin_idx += s;
				c.end_idx = c.begin_idx + l;
			} else
				break;
			check_sizes(c, x.lo + s, x.lo + s + l);
			same(collect([&] { Of::all_of(c, 1); }), sec->of(x.lo + s, x.lo + s + l), "restricted range", x.lo + s, x.lo + s + l);
			if (l > 0)
				section(c[l - 1], x.lo + s + l - 1, "restricted range[]");
			break;
		}
		}
	}

	static void worker(void *p) {
		auto &g = *static_cast<Game *>(p);
		for (;;) {
			Piece<R> x;
			{
				const sim::Pause pz;
				if (g.steps <= 0 || g.pool.empty())
					return;
				g.steps--;
				const auto i = sim::decide(sim::K_TASK, static_cast<std::uint32_t>(g.pool.size()));
				x = g.pool[i];
				g.pool.erase(g.pool.begin() + i);
				g.busy++;
			}
			sim::hb_acquire(&g.pool);
			g.act(x);
			sim::hb_release(&g.pool);
			const sim::Pause pz;
			g.pool.push_back(x);
			g.busy--;
		}
	}

	void play(const R &whole) {
		check_sizes(whole, 0, n);
		R *first = new R(whole);
		{
			const sim::Pause p;
			pool.push_back({first, 0, n});
			steps = 10 + sim::decide(sim::K_DATA, 40);
		}
		const int nt = std::min(4, std::max(1, sim::team()));
		int tids[4];
		sim::hb_release(&pool);
		for (int i = 1; i < nt; i++)
			tids[i] = sim::spawn(&Game::worker, this);
		worker(this);
		for (int i = 1; i < nt; i++)
			sim::join(tids[i]);
		sim::hb_acquire(&pool);
		// the pieces together
		auto *g = collect([&] {
			for (auto &x : pool)
				Of::all_of(*x.r, 0);
		});
		same(g, sec->of(0, n), "all parts", 0, n);
		same(collect([&] { Of::all_of(whole, 1); }), sec->of(0, n), "original range", 0, n);
		if (pool.size() > 8)
			sim::probe("many_parts");
		for (auto &x : pool)
			delete x.r;
	}
};

template<auto Dim, class Of, class R>
void game(const R &r, const Space &m, char along) {
	Sections *s;
	Game<Dim, Of, R> *g;
	{
		const sim::Pause p;
		s = new Sections();
		const i64 n = along ? m.len(along) : m.top_len();
		for (i64 x = 0; x < n; x++) {
			s->keys.push_back(hist::keys(m.section(x, along)));
			std::sort(s->keys.back().begin(), s->keys.back().end());
		}
		g = new Game<Dim, Of, R>();
		g->sec = s;
		g->n = n;
		sim::note("%s range along %c of %s, team=%d", Of::name, along ? along : m.top(), m.text().c_str(), sim::team());
	}
	g->play(r);
}

struct trav {
	static constexpr const char *name = "traverser";
	template<class T_, class S_>
	static void run(const T_ &t, const S_ &, const Space &m) {
		constexpr auto dim = top_of<typename decltype(t.top_struct())::signature>::dim;
		const auto r = t.range();
		if (sim::param(3) == 0) { // begin()/end() of the traverser itself
			REQUIRE("size", t.end() - t.begin() == m.top_len(), "end() - begin() of a traverser");
			if (m.top_len() > 0) {
				const i64 x = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(m.top_len()));
				auto *g = collect([&] { t.begin()[x].for_each(Record()); });
				std::vector<Key> w;
				{
					const sim::Pause p;
					w = hist::keys(m.section(x));
					std::sort(w.begin(), w.end());
				}
				same(g, w, "traverser.begin()[]", x, x + 1);
			}
		}
		game<dim, OfTraverser>(r, m, 0);
	}
};
struct plan {
	static constexpr const char *name = "planner";
	template<class T_, class S_>
	static void run(const T_ &t, const S_ &s, const Space &m) {
		constexpr auto dim = top_of<typename decltype(t.top_struct())::signature>::dim;
		const auto p = (noarr::planner(noarr::make_bag(s, static_cast<void *>(nullptr))) ^ t.get_order()).for_each(Record());
		if (sim::param(3) == 0)
			REQUIRE("size", end(p) - begin(p) == m.top_len(), "end() - begin() of a planner");
		game<dim, OfPlanner>(range(p), m, 0);
	}
};
// along a dimension that is not the outermost one
struct along_i {
	static constexpr const char *name = "along_i";
	template<class T_, class S_>
	static void run(const T_ &t, const S_ &, const Space &m) {
		game<'i', OfTraverser>(t.template range<'i'>(), m, 'i');
	}
};
struct plan_along_i {
	static constexpr const char *name = "plan_along_i";
	template<class T_, class S_>
	static void run(const T_ &t, const S_ &s, const Space &m) {
		const auto p = (noarr::planner(noarr::make_bag(s, static_cast<void *>(nullptr))) ^ t.get_order()).for_each(Record());
		game<'i', OfPlanner>(noarr::range<'i'>(p), m, 'i');
	}
};

template<class Case, class Exec>
struct Scen {
	static void run() {
		Case::with([](const auto &t, const auto &s, const Space &m) { Exec::run(t, s, m); });
	}
};

// ---- lengths beyond what can be enumerated: follow random splits down to single positions
template<auto Dim, class Of, class R>
void descend(const R &whole, std::uint64_t n, auto &&key_at) {
	R *cur = new R(whole);
	std::uint64_t lo = 0, hi = n;
	if (whole.size() != n || whole.empty() || static_cast<std::uint64_t>(whole.end() - whole.begin()) != n)
		sim::fail("size", "size() = %llu, expected %llu", (unsigned long long)whole.size(), (unsigned long long)n);
	int depth = 0;
	while (cur->is_divisible()) {
		if (++depth > 200)
			sim::fail("split", "more than 200 splits for a length of %llu", (unsigned long long)n);
		R *b = new R(*cur, tbb::split());
		const std::uint64_t la = cur->size(), lb = b->size();
		if (la + lb != hi - lo || la == 0 || lb == 0)
			sim::fail("split", "split of %llu positions into %llu and %llu", (unsigned long long)(hi - lo), (unsigned long long)la,
			          (unsigned long long)lb);
		const bool first = sim::decide(sim::K_DATA, 2) == 0;
		auto *ka = collect([&] { Of::run((*cur)[0]); }), *kb = collect([&] { Of::run((*b)[0]); });
		const sim::Pause p;
		auto is = [&](std::vector<Key> *v, std::uint64_t pos) { return v->size() == 1 && (*v)[0] == key_at(pos); };
		const bool straight = is(ka, lo) && is(kb, lo + la), swapped = is(kb, lo) && is(ka, lo + lb);
		if (!straight && !swapped)
			sim::fail("split", "the parts of [%llu,%llu) do not start where they should", (unsigned long long)lo,
			          (unsigned long long)hi);
		delete ka;
		delete kb;
		const std::uint64_t mid = straight ? lo + la : lo + lb;
		if (first == straight)
			hi = mid;
		else
			lo = mid;
		if (!first)
			cur = b;
	}
	const auto e = cur->end();
	auto it = cur->begin();
	auto *k = collect([&] { Of::run(*it), Of::all_of(*cur, sim::decide(sim::K_DATA, 2)); });
	const sim::Pause p;
	if (hi - lo != 1 || k->size() != 2 || !((*k)[0] == key_at(lo)) || !((*k)[1] == key_at(lo)) || e - it != 1)
		sim::fail("split", "single position %llu of %llu denotes another element", (unsigned long long)lo, (unsigned long long)n);
	sim::probe("huge_descent");
}

// random-access algebra between positions that are far apart
template<auto Dim, class Of, class R>
void far_iterators(const R &r, std::uint64_t n, auto &&key_at) {
	using It = decltype(r.begin());
	using L = long long;
	auto pos = [&]() -> std::int64_t {
		const std::uint64_t x = (std::uint64_t(sim::decide(sim::K_DATA, 0xffffffffu)) << 32) | sim::decide(sim::K_DATA, 0xffffffffu);
		switch (sim::decide(sim::K_DATA, 4)) {
		case 0: return static_cast<std::int64_t>(std::min<std::uint64_t>(n, x % 4));
		case 1: return static_cast<std::int64_t>(n - std::min<std::uint64_t>(n, x % 4));
		default: return static_cast<std::int64_t>(x % (n + 1));
		}
	};
	auto at = [&](const auto &section, std::int64_t p, const char *what) {
		auto *v = collect([&] { Of::run(section); });
		const sim::Pause pz;
		if (v->size() != 1 || !((*v)[0] == key_at(static_cast<std::uint64_t>(p))))
			sim::fail("wrong_elements", "%s at position %lld of %llu denotes %s", what, (L)p, (unsigned long long)n,
			          v->size() == 1 ? model::show((*v)[0]).c_str() : "not one element");
		delete v;
	};
	It a = r.begin(), b = r.end();
	std::int64_t pa = 0, pb = static_cast<std::int64_t>(n);
	for (int o = 0; o < 8; o++) {
		REQUIRE("iterator", a - b == pa - pb && b - a == pb - pa, "difference of iterators is %lld, expected %lld", (L)(a - b), (L)(pa - pb));
		REQUIRE("iterator",
		        (a == b) == (pa == pb) && (a != b) == (pa != pb) && (a < b) == (pa < pb) && (a > b) == (pa > pb) &&
		            (a <= b) == (pa <= pb) && (a >= b) == (pa >= pb),
		        "comparison of iterators at %lld and %lld", (L)pa, (L)pb);
		const std::int64_t to = pos();
		switch (sim::decide(sim::K_DATA, 7)) {
		case 0: a += to - pa, pa = to; break;
		case 1: a -= pa - to, pa = to; break;
		case 2: b = a + (to - pa), pb = to; break;
		case 3: b = (to - pa) + a, pb = to; break;
		case 4: b = a - (pa - to), pb = to; break;
		case 5: std::swap(a, b), std::swap(pa, pb); break;
		case 6:
			if (pa < static_cast<std::int64_t>(n))
				++a, pa++;
			break;
		}
		if (pa < static_cast<std::int64_t>(n))
			at(*a, pa, "*it");
		const std::int64_t q = pos();
		if (q < static_cast<std::int64_t>(n)) {
			at(a[q - pa], q, "it[]");
			at(r[static_cast<std::size_t>(q)], q, "range[]");
			at(r.order(noarr::slice<Dim>(static_cast<std::size_t>(q), std::size_t(1))), q, "range.order(slice)");
			at(r.order(noarr::reverse<Dim>() ^ noarr::fix<Dim>(static_cast<std::size_t>(q))), static_cast<std::int64_t>(n) - 1 - q,
			   "range.order(reverse)");
		}
	}
}

std::uint64_t huge() {
	const std::uint32_t bits = sim::range(20, 61);
	return (std::uint64_t(1) << bits) + sim::decide(sim::K_DATA, 1000) - 500;
}

template<auto Dim, class Of, class R>
void both(const R &r, std::uint64_t n, auto &&key_at) {
	if (sim::param(2))
		descend<Dim, Of>(r, n, key_at);
	else
		far_iterators<Dim, Of>(r, n, key_at);
}

void huge_vector() {
	const std::uint64_t n = huge();
	const auto s = scalar<char>() ^ vector<'i'>(n);
	sim::note("1 x %llu", (unsigned long long)n);
	both<'i', OfTraverser>(traverser(s).range(), n,
	                     [&](std::uint64_t p) { return Key{{static_cast<i64>(p), -1, -1, -1, -1, -1}}; });
}
void huge_planner() {
	const std::uint64_t n = huge();
	const auto s = scalar<char>() ^ vector<'i'>(n);
	const auto p = noarr::planner(noarr::make_bag(s, static_cast<void *>(nullptr))).for_each(Record());
	sim::note("planner 1 x %llu", (unsigned long long)n);
	both<'i', OfPlanner>(range(p), n, [&](std::uint64_t q) { return Key{{static_cast<i64>(q), -1, -1, -1, -1, -1}}; });
}
void huge_reverse_slice() {
	const std::uint64_t n = huge(), a = sim::decide(sim::K_DATA, 100000), l = n - a;
	const auto s = scalar<char>() ^ vector<'i'>(n);
	sim::note("reverse, slice 1 x %llu", (unsigned long long)n);
	both<'i', OfTraverser>((traverser(s) ^ slice<'i'>(a, l) ^ reverse<'i'>()).range(), l,
	                     [&](std::uint64_t p) { return Key{{static_cast<i64>(a + l - 1 - p), -1, -1, -1, -1, -1}}; });
}
void huge_blocks() {
	const std::uint64_t b = P(1, 9), n = huge() / b * b;
	const auto s = scalar<char>() ^ vector<'i'>(n);
	const auto x = static_cast<std::size_t>(sim::decide(sim::K_DATA, static_cast<std::uint32_t>(b)));
	sim::note("blocks of %llu, 1 x %llu", (unsigned long long)b, (unsigned long long)n);
	both<'B', OfTraverser>((traverser(s) ^ into_blocks<'i', 'B', 'b'>(static_cast<std::size_t>(b)) ^ fix<'b'>(x)).range(), n / b,
	                     [&](std::uint64_t p) { return Key{{static_cast<i64>(p * b + x), -1, -1, -1, -1, -1}}; });
}
void huge_step() {
	const std::uint64_t n = huge(), q = P(1, 70), r = upto(q - 1);
	const auto s = scalar<char>() ^ vector<'i'>(n);
	sim::note("step %llu, 1 x %llu", (unsigned long long)q, (unsigned long long)n);
	both<'i', OfTraverser>((traverser(s) ^ step<'i'>(static_cast<std::size_t>(r), static_cast<std::size_t>(q))).range(), (n - r + q - 1) / q,
	                     [&](std::uint64_t p) { return Key{{static_cast<i64>(p * q + r), -1, -1, -1, -1, -1}}; });
}

using cases::List;
using namespace cases;
using PlanCases = List<v1, a1, v1_slice, v1_span_rev, v1_shift_step, v1_rev_slice, v1_blk, v1_blk_minor_top, v1_dyn,
                       v1_dyn_rev_blocks, v1_two_level, v2, v2_hoist, a2, v2_tiles, v2_tiles_dyn, v2_merge,
                       v2_merge_swapped, v2_fix, v2_rename, v2_tuple, v2_rev_step_hoist, v2_mix, v3, v3_reorder, lay_blocked,
                       lay_rev_step>;
using AlongI = List<v2, v2_sym, a2, v2_tuple_vec, v2_bcast, v3, v3_reorder, matmul, uni_disjoint, lay_slice>;
using PlanAlongI = List<v2, v2_sym, v3, v3_reorder>;

const bool registered = [] {
	register_grid<Scen>(cases::All(), List<trav>(), 4);
	register_grid<Scen>(PlanCases(), List<plan>(), 4, 0);
	register_grid<Scen>(AlongI(), List<along_i>(), 4);
	register_grid<Scen>(PlanAlongI(), List<plan_along_i>(), 4);
	if (PART == 0) {
		static sim::Reg a("huge_vector", huge_vector, 8), b("huge_planner", huge_planner, 6),
			c("huge_reverse_slice", huge_reverse_slice, 6), d("huge_blocks", huge_blocks, 6), e("huge_step", huge_step, 6);
	}
	return true;
}();

} // namespace
