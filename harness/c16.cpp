// C16: sections, states, ranges, iterators and inner planners are self-contained values
#include "owner.hpp"

#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/omp.hpp>
#include <noarr/structures/interop/planner_iter.hpp>
#include <noarr/structures/interop/std_para.hpp>
#include <noarr/structures/interop/tbb.hpp>

namespace {

struct Seen { // an element: its index and where it lies (-1: not asked)
	Key k;
	i64 at;
	friend bool operator==(const Seen &a, const Seen &b) { return a.k == b.k && a.at == b.at; }
};
using Trail = std::vector<Seen>;

// what the running thread sees; planners have no other way out
Trail *sinks[512];
void see(const Key &k, i64 at = -1) {
	const sim::Pause p;
	sinks[sim::self()]->push_back({k, at});
}

struct See {
	void operator()(const auto &st) const { see(key_of(st)); }
};
struct SeeElem {
	const unsigned char *base;
	void operator()(const auto &st, const auto &e) const { see(key_of(st), reinterpret_cast<const unsigned char *>(&e) - base); }
};

// ---- how an object is used: from<Obj>(obj) visits everything it denotes, in its own order
struct by_for_each {
	static void use(const auto &o) { o.for_each(See()); }
};
struct by_sections { // leaf by leaf
	static void use(const auto &o) {
		o.for_sections([](const auto &leaf) { See()(leaf.state()); });
	}
};
struct by_iter {
	static void use(const auto &o) {
		for (auto s : o)
			s.for_each(See());
	}
};
struct by_index {
	static void use(const auto &o) {
		for (std::size_t x = 0; x < o.size(); x++)
			o[x].for_each(See());
	}
};
struct by_deref {
	static void use(const auto &o) { (*o).for_each(See()); }
};
struct by_subscript {
	static void use(const auto &o) { o[0].for_each(See()); }
};
struct by_execute {
	static void use(const auto &o) { o.execute(); }
};
struct by_call {
	static void use(const auto &o) { o(); }
};
struct by_planner_iter {
	static void use(const auto &o) {
		for (auto s : o)
			s.execute();
	}
};
struct by_planner_whole {
	static void use(const auto &o) { o.as_planner().execute(); }
};
struct by_planner_deref {
	static void use(const auto &o) { (*o).execute(); }
};

struct Item {
	const char *kind = nullptr;
	Trail first; // as it was when handed out
	int generation = 0;
	virtual ~Item() = default;
	virtual void use() const = 0;
	virtual Item *copy() const = 0;
	virtual Item *move() = 0;
};

template<class Obj, class By>
struct ItemOf final : Item {
	Obj obj;
	explicit ItemOf(const Obj &o) : obj(o) {}
	explicit ItemOf(Obj &&o) : obj(std::move(o)) {}
	void use() const override { By::use(obj); }
	Item *copy() const override { return made(new ItemOf(obj)); }
	Item *move() override { return made(new ItemOf(std::move(obj))); }
	Item *made(Item *n) const {
		const sim::Pause p;
		n->kind = kind;
		n->first = first;
		n->generation = generation + 1;
		return n;
	}
};

// a state together with a copy of the structure it indexes
template<class S, class St>
struct Place {
	S s;
	St st;
	const char *data;
};
struct by_place {
	static void use(const auto &o) {
		see(key_of(o.st), reinterpret_cast<const char *>(&(o.s | noarr::get_at(o.data, o.st))) - o.data);
	}
};

struct Store {
	std::vector<Item *> items;
	std::vector<Key> all; // over all sections of one operation
	int quota = 48;
};

template<class F>
void watch(Trail &t, F &&f) {
	auto &slot = [&]() -> Trail *& {
		const sim::Pause p;
		return sinks[sim::self()];
	}();
	Trail *old = slot;
	slot = &t;
	f();
	slot = old;
}

// keep an object; `whole`: what it denotes is part of the total that the operation hands out
template<class By, class Obj>
[[gnu::noinline]] void keep(Store *x, const char *kind, const Obj &o, bool whole = false) {
	bool want;
	{
		const sim::Pause p;
		want = static_cast<int>(x->items.size()) < x->quota;
	}
	if (!want && !whole)
		return;
	Trail *now;
	{
		const sim::Pause p;
		now = new Trail();
	}
	watch(*now, [&] { By::use(o); }); // as handed out
	Item *it = want ? new ItemOf<Obj, By>(o) : nullptr;
	{
		const sim::Pause p;
		if (whole)
			for (auto &s : *now)
				x->all.push_back(s.k);
		if (it) {
			it->kind = kind;
			it->first = std::move(*now);
			x->items.push_back(it);
		}
		delete now;
	}
	sim::hb_release(x);
}

template<class Sig>
struct top_of;
template<auto D_, class A_, class R_>
struct top_of<noarr::function_sig<D_, A_, R_>> {
	static constexpr auto dim = D_;
};
template<class T>
constexpr bool has_top = requires { top_of<typename T::signature>::dim; };

// a section, and things derived from it that have to survive it
template<class Sec>
[[gnu::noinline]] void keep_section(Store *x, const Sec &sec) {
	keep<by_for_each>(x, "section", sec, true);
	using top_t = std::remove_cvref_t<decltype(sec.top_struct())>;
	switch (sim::decide(sim::K_DATA, 6)) {
	case 0: keep<by_sections>(x, "section (by leaves)", sec); break;
	case 1: {
		const auto c = traverser(sec.get_struct()) ^ sec.get_order(); // put together again
		keep<by_for_each>(x, "section rebuilt from get_struct and get_order", c);
		break;
	}
	case 2:
		if constexpr (has_top<top_t>) {
			const auto n = sec.end() - sec.begin();
			if (n > 0) {
				const auto k = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(n));
				keep<by_for_each>(x, "sub-section", sec.begin()[k]);
				keep<by_deref>(x, "iterator of a section", sec.begin() + k);
			}
		}
		break;
	case 3:
		if constexpr (has_top<top_t>) {
			const auto r = sec.range();
			keep<by_iter>(x, "range of a section", r);
		}
		break;
	case 4:
		if constexpr (has_top<top_t>) {
			constexpr auto dim = top_of<typename top_t::signature>::dim;
			keep<by_for_each>(x, "section with a further order", sec ^ noarr::reverse<dim>());
		}
		break;
	default: break;
	}
}

// ---- what is taken from the source ----
struct from_sections { // sequential, TBB, OpenMP, std
	static constexpr const char *name = "sections";
	static constexpr bool total = true;
	template<class T, class S>
	static void take(Store *x, const T &t, const S &, unsigned char *) {
		const auto f = [x](const auto &sec) { keep_section(x, sec); };
		switch (sim::param(4)) {
		case 0: t.for_sections(f); break;
		case 1: noarr::tbb_for_sections(t, f); break;
		case 2: noarr::omp_for_sections(t, f); break;
		case 3: noarr::std_for_sections(t, f); break;
		}
	}
};
struct from_ranges {
	static constexpr const char *name = "ranges";
	static constexpr bool total = true;
	template<class T, class S>
	static void take(Store *x, const T &t, const S &, unsigned char *) {
		const auto f = [x](const auto &r) {
			switch (sim::decide(sim::K_DATA, 3)) {
			case 0: keep<by_iter>(x, "sub-range", r, true); break;
			case 1: keep<by_index>(x, "sub-range (by index)", r, true); break;
			case 2: keep<by_for_each>(x, "sub-range as traverser", r.as_traverser(), true); break;
			}
			if (r.size()) {
				const auto k = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(r.size()));
				switch (sim::decide(sim::K_DATA, 4)) {
				case 0: keep<by_deref>(x, "iterator", r.begin() + k); break;
				case 1: keep<by_subscript>(x, "iterator (subscript)", r.cbegin() + k); break;
				case 2: keep<by_for_each>(x, "range[k]", r[k]); break;
				case 3: {
					auto it = r.end();
					it -= static_cast<std::ptrdiff_t>(r.size() - k);
					auto held = *it;
					++it;
					keep<by_for_each>(x, "*it", held);
					break;
				}
				}
			}
		};
		const auto *r = new auto(t.range()); // the range goes away as well
		switch (sim::param(4)) {
		case 0: f(*r); break;
		case 1: tbb::parallel_for(*r, f, tbb::simple_partitioner()); break;
		case 2: tbb::parallel_for(*r, f, tbb::static_partitioner()); break;
		case 3: tbb::parallel_for(*r, f); break;
		}
		delete r;
	}
};
struct from_states {
	static constexpr const char *name = "states";
	static constexpr bool total = true;
	template<class T, class S>
	static void take(Store *x, const T &t, const S &s, unsigned char *buf) {
		const auto f = [x, &s, buf](const auto &st) {
			keep<by_place>(x, "state", Place<S, std::remove_cvref_t<decltype(st)>>{s, st, reinterpret_cast<const char *>(buf)}, true);
		};
		switch (sim::param(4)) {
		case 0: t.for_each(f); break;
		case 1: noarr::tbb_for_each(t, f); break;
		case 2: noarr::omp_for_each(t, f); break;
		case 3: noarr::std_for_each(t, f); break;
		}
	}
};

template<class P>
void run_planner(const P &p) {
	switch (sim::param(4)) {
	case 0: p.execute(); break;
	case 1: p | noarr::planner_tbb_execute(); break;
	case 2: p | noarr::planner_omp_execute(); break;
	case 3: p | noarr::planner_std_execute(); break;
	}
}

struct from_planner { // inner planners of dimension i
	static constexpr const char *name = "inner_planners";
	static constexpr bool total = true;
	template<class T, class S>
	static void take(Store *x, const T &t, const S &s, unsigned char *buf) {
		const auto f = [x](const auto &inner) {
			if (sim::decide(sim::K_DATA, 2))
				keep<by_execute>(x, "inner planner", inner, true);
			else
				keep<by_call>(x, "inner planner (call)", inner, true);
			switch (sim::decide(sim::K_DATA, 3)) {
			case 0:
				if constexpr (has_top<std::remove_cvref_t<decltype(inner.top_struct())>>) {
					const auto r = range(inner);
					keep<by_planner_iter>(x, "range of an inner planner", r);
				}
				break;
			case 1:
				if constexpr (has_top<std::remove_cvref_t<decltype(inner.top_struct())>>) {
					constexpr auto d = top_of<typename decltype(inner.top_struct())::signature>::dim;
					keep<by_execute>(x, "inner planner with a further order", inner ^ noarr::reverse<d>());
				}
				break;
			default: break;
			}
		};
		const auto base = (noarr::planner(noarr::make_bag(s, static_cast<const void *>(buf))) ^ t.get_order() ^ hoist<'i'>()).for_each_elem(SeeElem{buf});
		const auto *p = new auto(base.template for_sections<'i'>(f));
		run_planner(*p);
		delete p;
	}
};
struct from_planner_range {
	static constexpr const char *name = "planner_ranges";
	static constexpr bool total = true;
	template<class T, class S>
	static void take(Store *x, const T &t, const S &s, unsigned char *buf) {
		const auto f = [x](const auto &r) {
			switch (sim::decide(sim::K_DATA, 2)) {
			case 0: keep<by_planner_iter>(x, "planner sub-range", r, true); break;
			case 1: keep<by_planner_whole>(x, "planner sub-range (as planner)", r, true); break;
			}
			if (r.size()) {
				const auto k = sim::decide(sim::K_DATA, static_cast<std::uint32_t>(r.size()));
				switch (sim::decide(sim::K_DATA, 3)) {
				case 0: keep<by_planner_deref>(x, "planner iterator", r.begin() + k); break;
				case 1: keep<by_execute>(x, "planner range[k]", r[k]); break;
				case 2: {
					auto it = r.begin();
					it += k;
					auto held = *it;
					++it;
					keep<by_execute>(x, "*it of a planner", held);
					break;
				}
				}
			}
		};
		const auto *p = new auto((noarr::planner(noarr::make_bag(s, static_cast<const void *>(buf))) ^ t.get_order()).for_each_elem(SeeElem{buf}));
		const auto *r = new auto(range(*p));
		delete p;
		switch (sim::param(3)) {
		case 0: f(*r); break;
		case 1: tbb::parallel_for(*r, f, tbb::simple_partitioner()); break;
		case 2: tbb::parallel_for(*r, f); break;
		}
		delete r;
	}
};

// ---- overwrite what is left on the stacks ----
[[gnu::noinline]] void scribble(int depth) {
	const sim::Pause p;
	volatile unsigned char a[4096];
	for (auto &b : a)
		b = 0xE7;
	if (depth > 0)
		scribble(depth - 1);
	asm volatile("" ::"r"(a) : "memory");
}
void scribble_workers() {
	scribble(16);
	const int n = std::max(1, sim::team()) * 2;
#pragma omp parallel for schedule(static, 1)
	for (int i = 0; i < n; i++)
		scribble(12);
	tbb::parallel_for(
		0, n, [](int) { scribble(12); }, tbb::simple_partitioner());
}

// ---- use them again, anywhere, in any order ----
struct Later {
	Store *x;
	int steps;
	static void run(void *p) {
		auto &l = *static_cast<Later *>(p);
		for (;;) {
			Item *it;
			std::uint32_t what;
			Trail *now;
			{
				const sim::Pause pz;
				if (l.steps <= 0 || l.x->items.empty())
					return;
				l.steps--;
				const auto i = sim::decide(sim::K_TASK, static_cast<std::uint32_t>(l.x->items.size()));
				what = sim::decide(sim::K_TASK, 6);
				it = l.x->items[i];
				l.x->items.erase(l.x->items.begin() + i);
				now = new Trail();
			}
			sim::hb_acquire(l.x);
			if (what == 0) { // only the copy survives
				Item *c = it->copy();
				delete it;
				it = c;
			} else if (what == 1) {
				Item *c = it->move();
				delete it;
				it = c;
			}
			watch(*now, [&] { it->use(); });
			Item *extra = what == 2 ? it->copy() : nullptr;
			sim::hb_release(l.x);
			const sim::Pause pz;
			if (*now != it->first)
				sim::fail("other_elements", "%s (copied %d times) denotes %zu elements%s%s; when handed out %zu%s%s", it->kind, it->generation,
				          now->size(), now->empty() ? "" : " from ", now->empty() ? "" : model::show(now->front().k).c_str(),
				          it->first.size(), it->first.empty() ? "" : " from ", it->first.empty() ? "" : model::show(it->first.front().k).c_str());
			delete now;
			l.x->items.push_back(it);
			if (extra)
				l.x->items.push_back(extra);
		}
	}
};

template<class Case, class From>
struct Scen {
	static void run() {
		Store *x;
		unsigned char *buf = nullptr;
		{
			const sim::Pause p;
			std::fill(std::begin(sinks), std::end(sinks), nullptr);
			x = new Store();
			x->items.reserve(1024);
		}
		build(x, &buf);
		scribble_workers();
		const int nt = static_cast<int>(sim::range(1, 3));
		Later later{x, 0};
		later.steps = 8 + static_cast<int>(sim::decide(sim::K_DATA, 40));
		sim::hb_release(x);
		int tids[4];
		for (int i = 1; i < nt; i++)
			tids[i] = sim::spawn(&Later::run, &later);
		Later::run(&later);
		for (int i = 1; i < nt; i++)
			sim::join(tids[i]);
		sim::hb_acquire(x);
		for (auto *it : x->items)
			delete it;
		const sim::Pause p;
		if (x->items.size() > 40)
			sim::probe("many_items");
		sim::buffer_free(buf);
		delete x;
	}
	[[gnu::noinline]] static void build(Store *x, unsigned char **buf) {
		Case::with([x, buf](const auto &t0, const auto &s0, const Space &m) {
			using T = std::remove_cvref_t<decltype(t0)>;
			using S = std::remove_cvref_t<decltype(s0)>;
			const std::size_t size = s0 | noarr::get_size();
			{
				const sim::Pause p;
				*buf = static_cast<unsigned char *>(sim::buffer(size, own::FILL));
				sim::note("%s %s team=%d space=%s", Case::name, From::name, sim::team(), m.text().c_str());
			}
			const T *t = new T(t0);
			const S *s = new S(s0);
			From::take(x, *t, *s, *buf);
			delete t; // freed memory is poisoned: any later access is a violation
			delete s;
			sim::fault_fired(sim::F_SRC_DESTROYED);
			const sim::Pause p;
			hist::compare(x->all, hist::keys(m.all()), From::name);
			if (x->items.empty())
				sim::probe("nothing_kept");
		});
	}
};

using namespace cases;
using Single = typename Cat<OneD, TwoD, List<v3, v3_reorder, v3_hoist2, v3_merge_tile, v4>, Lay>::type;
using Plans = List<v1, a1, v1_span_rev, v1_shift_step, v1_blk, v1_dyn, v1_two_level, v2, v2_hoist, a2, v2_tiles, v2_tiles_dyn,
                   v2_merge, v2_fix, v2_rename, v2_tuple, v2_rev_step_hoist, v3, v3_reorder, lay_blocked, lay_rev_step>;
const bool registered = [] {
	scale().typical = 4;
	scale().big = 24;
	register_grid<Scen>(All(), List<from_sections>(), 3);
	register_grid<Scen>(Single(), List<from_states>(), 2);
	register_grid<Scen>(typename Cat<Core, List<v1_slice, v1_span_rev, v1_two_level, v3, v2_sym, lay_tiled>>::type(), List<from_ranges>(), 6);
	register_grid<Scen>(Plans(), List<from_planner_range>(), 4);
	register_grid<Scen>(List<v2, v2_hoist, a2, v2_sym, v2_rev_step_hoist, v3, v3_reorder, lay_rev_step>(), List<from_planner>(), 6);
	return true;
}();

} // namespace
