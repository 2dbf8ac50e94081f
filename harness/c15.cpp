// C15: a bag's data is owned once across moves, views and tasks
#include "owner.hpp"

#include <mutex>
#include <new>
#include <optional>
#include <thread>
#include <variant>
#include <vector>

#include <noarr/structures/extra/planner.hpp>

namespace {

int val(std::uint64_t id, std::size_t x, std::size_t y) { return static_cast<int>(id * 7919 + x * 31 + y * 1009); }

// one-dimensional family: as made, renamed, renamed and reversed; a vector-backed one
struct line {
	static constexpr const char *name = "line";
	static auto make(std::size_t n) { return scalar<int>() ^ vector<'i'>(n); }
	static auto first() { return rename<'i', 'j'>(); }
	static auto second() { return reverse<'j'>(); }
	static constexpr std::size_t width = 1;
	template<int Alt>
	static auto &at(const auto &b, std::size_t n, std::size_t x, std::size_t) {
		if constexpr (Alt == 1)
			return b.template at<'j'>(x);
		else if constexpr (Alt == 2)
			return b.template at<'j'>(n - 1 - x);
		else
			return b.template at<'i'>(x);
	}
	static constexpr bool visible(int, std::size_t) { return true; }
	static std::size_t offset(std::size_t, std::size_t x, std::size_t) { return 4 * x; }
};
// two-dimensional family: as made, in another nesting, one column
struct grid {
	static constexpr const char *name = "grid";
	static auto make(std::size_t n) { return scalar<int>() ^ vector<'i'>(n) ^ array<'k', 3>(); }
	static auto first() { return hoist<'i'>(); }
	static auto second() { return fix<'k'>(lit<1>); }
	static constexpr std::size_t width = 3;
	template<int Alt>
	static auto &at(const auto &b, std::size_t, std::size_t x, std::size_t y) {
		if constexpr (Alt == 2)
			return b.template at<'i'>(x);
		else
			return b.template at<'i', 'k'>(x, y);
	}
	static constexpr bool visible(int alt, std::size_t y) { return alt != 2 || y == 1; }
	static std::size_t offset(std::size_t n, std::size_t x, std::size_t y) { return 4 * (y * n + x); }
};
// blocked family
struct blocked {
	static constexpr const char *name = "blocked";
	static auto make(std::size_t n) { return scalar<int>() ^ vector<'b'>(lit<2>) ^ vector<'B'>(n) ^ merge_blocks<'B', 'b', 'i'>(); }
	static auto first() { return into_blocks<'i', 'x', 'y'>(lit<2>); }
	static auto second() { return hoist<'y'>(); }
	static constexpr std::size_t width = 2;
	template<int Alt>
	static auto &at(const auto &b, std::size_t, std::size_t x, std::size_t y) {
		if constexpr (Alt == 1 || Alt == 2)
			return b.template at<'x', 'y'>(x, y);
		else
			return b.template at<'i'>(2 * x + y);
	}
	static constexpr bool visible(int, std::size_t) { return true; }
	static std::size_t offset(std::size_t, std::size_t x, std::size_t y) { return 4 * (2 * x + y); }
};

template<class Fam>
struct World {
	using S0 = decltype(Fam::make(std::size_t()));
	using B0 = decltype(noarr::make_bag(std::declval<S0>()));
	using B1 = decltype(std::declval<B0>() ^ Fam::first());
	using B2 = decltype(std::declval<B1>() ^ Fam::second());
	using B3 = decltype(noarr::make_vector_bag(std::declval<S0>()));
	using Any = std::variant<std::monostate, B0, B1, B2, B3>;

	struct Holder {
		Any bag;
		std::uint64_t id = 0;
		std::size_t n = 0;
		const void *data = nullptr;
		bool full() const { return bag.index() != 0; }
	};
	static std::size_t bytes(std::size_t n) { return n * Fam::width * sizeof(int); }

	template<int Alt>
	static void verify_alt(const Holder &h, const char *after) {
		const auto &b = std::get<Alt + 1>(h.bag);
		const std::size_t n = h.n;
		if (static_cast<const void *>(b.data()) != h.data)
			sim::fail("data_moved", "after %s the bag's data lie elsewhere", after);
		if (n && !sim::addr_live(h.data, bytes(n)))
			sim::fail("freed_early", "after %s the bag's data are no longer allocated", after);
		if ((b.structure() | noarr::get_size()) != bytes(n))
			sim::fail("size", "after %s the bag's size is %zu", after, std::size_t(b.structure() | noarr::get_size()));
		for (std::size_t y = 0; y < Fam::width; y++)
			for (std::size_t x = 0; x < n; x++)
				if (Fam::visible(Alt == 3 ? 0 : Alt, y)) {
					const auto &e = Fam::template at<Alt == 3 ? 0 : Alt>(b, n, x, y);
					if (e != val(h.id, x, y))
						sim::fail("wrong_value", "after %s element %zu,%zu is %d instead of %d", after, x, y, e, val(h.id, x, y));
				}
		// references see the same elements and do not own them
		const auto ref = b.get_ref();
		const auto copy = ref;
		for (std::size_t x = 0; x < n; x++)
			if (Fam::visible(Alt == 3 ? 0 : Alt, 1 % Fam::width))
				if (&Fam::template at<Alt == 3 ? 0 : Alt>(copy, n, x, 1 % Fam::width) != &Fam::template at<Alt == 3 ? 0 : Alt>(b, n, x, 1 % Fam::width))
					sim::fail("other_element", "a reference designates another element");
		std::size_t sum = 0;
		const auto view = copy;
		traverser(view).for_each([&](auto st) { sum += static_cast<std::size_t>(&view[st] == &b[st]); });
		std::size_t visible = 0;
		for (std::size_t y = 0; y < Fam::width; y++)
			visible += Fam::visible(Alt == 3 ? 0 : Alt, y) ? n : 0;
		if (sum != visible)
			sim::fail("other_element", "%zu of %zu elements are the same through a reference", sum, visible);
	}
	static void verify(const Holder &h, const char *after) {
		switch (h.bag.index()) {
		case 1: verify_alt<0>(h, after); break;
		case 2: verify_alt<1>(h, after); break;
		case 3: verify_alt<2>(h, after); break;
		case 4: verify_alt<3>(h, after); break;
		}
	}

	static void fill(Holder &h) {
		if (h.bag.index() == 1) {
			auto &b = std::get<1>(h.bag);
			for (std::size_t y = 0; y < Fam::width; y++)
				for (std::size_t x = 0; x < h.n; x++)
					Fam::template at<0>(b, h.n, x, y) = val(h.id, x, y);
		}
	}
	// the previous contents are released, exactly now
	static void released(const void *old, std::size_t n, const char *what) {
		if (old && n && sim::addr_live(old, bytes(n)))
			sim::fail("not_freed", "after %s the previous data are still allocated", what);
	}

	static void create(Holder &h, std::uint64_t id) {
		const void *old = h.full() ? h.data : nullptr;
		const std::size_t oldn = h.n, n = sim::decide(sim::K_DATA, 9);
		const auto s = Fam::make(n);
		const int how = static_cast<int>(sim::decide(sim::K_DATA, 6));
		try {
			switch (how) {
			case 0: h.bag = noarr::make_bag(s); break;
			case 1: h.bag = noarr::make_unique_bag(s); break;
			case 2: h.bag = noarr::bag(s); break;
			case 3: h.bag = B0(s); break;
			case 4: {
				auto mem = std::unique_ptr<char[]>(new char[bytes(n)]);
				const void *at = mem.get();
				h.bag = noarr::bag(s, std::move(mem));
				if (std::get<1>(h.bag).data() != at || mem)
					sim::fail("not_taken_over", "the bag does not hold the block it was given");
				break;
			}
			case 5: {
				std::vector<char> mem(bytes(n));
				h.id = 0;
				for (std::size_t y = 0; y < Fam::width; y++)
					for (std::size_t x = 0; x < n; x++) {
						const int v = val(id, x, y);
						std::memcpy(mem.data() + Fam::offset(n, x, y), &v, sizeof v);
					}
				const void *at = mem.data();
				h.bag = B3(s, std::move(mem));
				if (static_cast<const void *>(std::get<4>(h.bag).data()) != at)
					sim::fail("not_taken_over", "the bag does not hold the vector it was given");
				break;
			}
			}
		} catch (const std::bad_alloc &) {
			sim::probe("construction_failed");
			if (how == 5)
				h.id = h.id ? h.id : 0;
			if (h.bag.valueless_by_exception())
				sim::fail("lost", "a failed construction destroyed the old bag");
			throw;
		}
		h.id = id;
		h.n = n;
		h.data = h.bag.index() == 1 ? static_cast<const void *>(std::get<1>(h.bag).data()) : static_cast<const void *>(std::get<4>(h.bag).data());
		released(old, oldn, "assignment");
		fill(h);
	}
	static void move_to(Holder &from, Holder &to, const char *what) {
		const void *old = to.full() ? to.data : nullptr;
		const std::size_t oldn = to.n;
		to.bag = std::move(from.bag);
		from.bag = Any();
		to.id = from.id;
		to.n = from.n;
		to.data = from.data;
		released(old, oldn, what);
	}
	static void swap(Holder &x, Holder &y) {
		using std::swap;
		if (x.bag.index() == 1 && y.bag.index() == 1)
			swap(std::get<1>(x.bag), std::get<1>(y.bag));
		else if (x.bag.index() == 3 && y.bag.index() == 3)
			swap(std::get<3>(x.bag), std::get<3>(y.bag));
		else
			swap(x.bag, y.bag);
		swap(x.id, y.id);
		swap(x.n, y.n);
		swap(x.data, y.data);
	}
	// in-place permutations assign a bag to itself
	static void self_move(Holder &h) {
		auto self = [](auto &b) {
			auto &other = b;
			b = std::move(other);
		};
		switch (h.bag.index()) {
		case 1: self(std::get<1>(h.bag)); break;
		case 2: self(std::get<2>(h.bag)); break;
		case 3: self(std::get<3>(h.bag)); break;
		}
	}
	static void transform(Holder &h) {
		if (h.bag.index() == 1) {
			auto nb = std::move(std::get<1>(h.bag)) ^ Fam::first();
			h.bag = std::move(nb);
		} else if (h.bag.index() == 2)
			h.bag = std::move(std::get<2>(h.bag)) ^ Fam::second();
	}
	static void destroy(Holder &h) {
		const void *old = h.full() ? h.data : nullptr;
		h.bag = Any();
		released(old, h.n, "destruction");
	}
	// by value through a function, as a task would take it
	static void pass(Holder &h) {
		if (h.bag.index() == 1) {
			auto task = [b = std::move(std::get<1>(h.bag))]() mutable { return std::move(b); };
			auto other = std::move(task);
			h.bag = other();
		}
	}

	// one simulated thread of the history
	struct Shared {
		std::mutex m;
		Holder box[3];
		std::uint64_t id = 0;
	};
	struct Actor {
		Shared *sh;
		int ops;
		static void run(void *p) {
			auto &me = *static_cast<Actor *>(p);
			Holder h[3];
			for (int i = 0; i < me.ops; i++) {
				Holder &x = h[sim::decide(sim::K_DATA, 3)], &y = h[sim::decide(sim::K_DATA, 3)];
				const auto op = sim::decide(sim::K_DATA, 12);
				const char *what = "";
				switch (op) {
				case 0:
				case 1:
				case 2: {
					std::uint64_t id;
					{
						const std::lock_guard<std::mutex> l(me.sh->m);
						id = ++me.sh->id;
					}
					const auto keep_id = x.id;
					try {
						create(x, id);
					} catch (const std::bad_alloc &) {
						x.id = keep_id; // the old bag, if any, is as it was
					}
					what = "construction";
					break;
				}
				case 3:
					if (&x != &y)
						move_to(y, x, what = "move assignment");
					else
						self_move(x), what = "move assignment to itself";
					break;
				case 4:
					if (&x != &y)
						swap(x, y);
					what = "swap";
					break;
				case 5:
				case 6: transform(x), what = "operator^"; break;
				case 7: destroy(x), what = "destruction"; break;
				case 8: pass(x), what = "passing by value"; break;
				case 9: { // hand over to whoever takes it
					const std::lock_guard<std::mutex> l(me.sh->m);
					Holder &b = me.sh->box[sim::decide(sim::K_DATA, 3)];
					if (x.full())
						move_to(x, b, what = "hand over");
					break;
				}
				case 10: {
					const std::lock_guard<std::mutex> l(me.sh->m);
					Holder &b = me.sh->box[sim::decide(sim::K_DATA, 3)];
					if (b.full())
						move_to(b, x, what = "take over");
					break;
				}
				case 11: { // a bag in the box is used through a reference
					const std::lock_guard<std::mutex> l(me.sh->m);
					verify(me.sh->box[sim::decide(sim::K_DATA, 3)], "sharing");
					break;
				}
				}
				verify(x, what);
				verify(y, what);
				sim::step(1);
			}
			for (auto &x : h)
				verify(x, "the last operation");
		}
	};
};

struct histories {
	static constexpr const char *name = "histories";
};

template<class Fam, class>
struct Scen {
	static void run() {
		using W = World<Fam>;
		const int n = static_cast<int>(sim::range(1, 4));
		typename W::Shared sh;
		typename W::Actor a[4];
		int tids[4];
		const auto ops = sim::range(3, 20);
		const bool faults = sim::param(2);
		sim::note("%s %d threads x %u operations%s", Fam::name, n, ops, faults ? ", allocations fail" : "");
		if (faults)
			sim::alloc_fault_plan(1 + sim::decide(sim::K_FAULT, 30), 1 + sim::decide(sim::K_FAULT, 6), 1 + sim::decide(sim::K_FAULT, 6));
		for (int i = 0; i < n; i++) {
			a[i] = typename W::Actor{&sh, static_cast<int>(ops)};
			tids[i] = sim::spawn(W::Actor::run, &a[i]);
		}
		for (int i = 0; i < n; i++)
			sim::join(tids[i]);
		sim::alloc_fault_off();
		for (auto &b : sh.box) {
			W::verify(b, "the end");
			W::destroy(b);
		}
	}
};

const bool registered = [] {
	sim::options().leak_is_violation = true;
	register_grid<Scen>(cases::List<line, grid, blocked>(), cases::List<histories>(), 1);
	return true;
}();

} // namespace
