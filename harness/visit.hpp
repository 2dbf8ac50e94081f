// Recording callbacks and the exactly-once check over the recorded history.
#ifndef VERIF_VISIT_HPP
#define VERIF_VISIT_HPP

#include "cases.hpp"

namespace hist {

enum Op : std::uint32_t { BEGIN = 1, END = 2, RETURN = 3, SEC = 4, SEC_ELEM = 5, USER = 16 };

inline void rec_key(std::uint32_t op, const Key &k) {
	sim::rec(op, k.v[0], k.v[1], k.v[2], k.v[3], k.v[4], k.v[5]);
}

inline Key ev_key(const sim::Event &e) {
	Key k;
	for (int i = 0; i < model::NK; i++)
		k.v[i] = e.v[i];
	return k;
}

// compare a multiset of visited keys with the expected one
inline void compare(std::vector<Key> got, std::vector<Key> want, const char *what) {
	std::sort(got.begin(), got.end());
	std::sort(want.begin(), want.end());
	if (got == want)
		return;
	std::size_t a = 0, b = 0;
	while (a < got.size() || b < want.size()) {
		if (b == want.size() || (a < got.size() && got[a] < want[b])) {
			const bool dup = (a > 0 && got[a - 1] == got[a]);
			sim::fail(dup ? "visited_twice" : "visited_foreign", "%s: index %s visited %s (%zu visits, %zu expected)", what,
			          model::show(got[a]).c_str(), dup ? "more than once" : "but not in the index set", got.size(),
			          want.size());
		}
		if (a == got.size() || want[b] < got[a])
			sim::fail("not_visited", "%s: index %s not visited (%zu visits, %zu expected)", what,
			          model::show(want[b]).c_str(), got.size(), want.size());
		a++;
		b++;
	}
}

inline std::vector<Key> keys(const std::vector<Ent> &e) {
	std::vector<Key> k;
	k.reserve(e.size());
	for (auto &x : e)
		k.push_back(x.k);
	return k;
}

// let whatever might still be running run
inline void drain() {
	for (int i = 0; i < 12; i++)
		sim::yield();
}

// after an operation returned: events [from, now) must be complete visits of `want`; nothing may follow
inline void check_complete(std::size_t from, const std::vector<Ent> &want, const char *what) {
	const std::size_t at_return = sim::events();
	{
		const sim::Pause p;
		std::size_t nb = 0, ne = 0;
		std::vector<Key> got;
		for (std::size_t i = from; i < at_return; i++) {
			const auto &e = sim::event(i);
			if (e.op == BEGIN) {
				nb++;
				got.push_back(ev_key(e));
			} else if (e.op == END)
				ne++;
		}
		if (nb != ne)
			sim::fail("returned_early", "%s: returned while %zu callbacks were still running", what, nb - ne);
		compare(got, keys(want), what);
	}
	drain();
	if (sim::events() != at_return)
		sim::fail("returned_early", "%s: callback started after return", what);
}

// plain (non-atomic) cells, one per expected element: written by callbacks and read after return, so that the race
// detector sees any missing happens-before edge
struct Cells {
	int *a = nullptr;
	i64 ext[model::NK];
	i64 n = 1;
	std::vector<Key> far; // sorted keys, if a dense array is out of the question
	explicit Cells(const std::vector<Ent> &want) {
		for (int i = 0; i < model::NK; i++) {
			ext[i] = 1;
			for (auto &e : want)
				ext[i] = std::max(ext[i], e.k.v[i] + 1);
			n = n > (i64(1) << 40) || ext[i] > (i64(1) << 22) ? i64(1) << 41 : n * ext[i];
		}
		if (n > (i64(1) << 22)) {
			far = keys(want);
			std::sort(far.begin(), far.end());
			n = static_cast<i64>(far.size());
		}
		a = static_cast<int *>(sim::buffer(n * sizeof(int), 0));
	}
	~Cells() { sim::buffer_free(a); }
	Cells(const Cells &) = delete;
	Cells &operator=(const Cells &) = delete;
	int *cell(const Key &k) const { // null: outside of every expected key
		if (!far.empty()) {
			const sim::Pause p;
			const auto it = std::lower_bound(far.begin(), far.end(), k);
			return it != far.end() && *it == k ? a + (it - far.begin()) : nullptr;
		}
		i64 o = 0;
		for (int i = 0; i < model::NK; i++) {
			const i64 x = k.v[i] < 0 ? 0 : k.v[i];
			if (x >= ext[i])
				return nullptr;
			o = o * ext[i] + x;
		}
		return a + o;
	}
	i64 sum() const { // instrumented reads
		i64 t = 0;
		for (i64 i = 0; i < n; i++)
			t += a[i];
		return t;
	}
};

struct Visitor {
	const Cells *cells;
	void touch(const Key &k) const {
		rec_key(BEGIN, k);
		if (int *c = cells->cell(k))
			*c = *c + 1;
		sim::step(1);
		rec_key(END, k);
	}
	template<class St>
	void operator()(const St &st) const {
		touch(key_of(st));
	}
};

} // namespace hist
#endif
