// Owner-computes writes: every visited state writes the element its structure designates; judged against the byte image
// computed by the model.
#ifndef VERIF_OWNER_HPP
#define VERIF_OWNER_HPP

#include "visit.hpp"

#include <cstring>

namespace own {

constexpr unsigned char FILL = 0xA5;
constexpr std::uint32_t WROTE = 64; // + sizeof(element)

inline std::uint64_t hash_key(const Key &k, std::uint64_t salt) {
	std::uint64_t h = salt * 0x9e3779b97f4a7c15ULL + 0x1234567;
	for (int i = 0; i < model::NK; i++)
		h = (h ^ static_cast<std::uint64_t>(k.v[i] + 2)) * 0xff51afd7ed558ccdULL, h ^= h >> 31;
	return h;
}

template<class E>
inline E value(const Key &k, std::uint64_t salt) {
	const auto h = hash_key(k, salt);
	if constexpr (std::is_floating_point_v<E>)
		return static_cast<E>(static_cast<std::int64_t>(h % 1000003));
	else
		return static_cast<E>(h);
}

constexpr std::uint32_t AT = 63;

template<class E>
inline void write(E &e, const Key &k, std::uint64_t salt, const void *base) {
	e = value<E>(k, salt);
	sim::step(1);
	// two adjacent events: recording never preempts
	sim::rec(WROTE + sizeof(E) + (std::is_floating_point_v<E> ? 32 : 0), k.v[0], k.v[1], k.v[2], k.v[3], k.v[4], k.v[5]);
	sim::rec(AT, reinterpret_cast<const char *>(&e) - static_cast<const char *>(base));
}

inline void put(unsigned char *img, std::uint32_t tag, const Key &k, std::uint64_t salt) {
	switch (tag) {
	case 1: { auto x = value<std::int8_t>(k, salt); std::memcpy(img, &x, 1); break; }
	case 2: { auto x = value<std::int16_t>(k, salt); std::memcpy(img, &x, 2); break; }
	case 4: { auto x = value<std::int32_t>(k, salt); std::memcpy(img, &x, 4); break; }
	case 8: { auto x = value<std::int64_t>(k, salt); std::memcpy(img, &x, 8); break; }
	case 36: { auto x = value<float>(k, salt); std::memcpy(img, &x, 4); break; }
	case 40: { auto x = value<double>(k, salt); std::memcpy(img, &x, 8); break; }
	default: std::abort();
	}
}

// The history since `from` must be one write per expected element, to disjoint places inside the structure (the places
// the model knows, where it knows them), and the buffer must be the image this implies.
inline void check(std::size_t from, const std::vector<Ent> &want, bool exact, unsigned char *buf, std::size_t size,
                  std::uint64_t salt, const char *what) {
	unsigned sum = 0;
	for (std::size_t i = 0; i < size; i++)
		sum += buf[i]; // instrumented: the writes must happen before this
	sim::mix(sum);
	const auto now = sim::events();
	{
		const sim::Pause p;
		struct Put {
			std::uint32_t tag;
			i64 at;
		};
		std::map<Key, Put> puts;
		std::vector<Key> got;
		for (std::size_t i = from; i < now; i++) {
			const auto &e = sim::event(i);
			if (e.op > WROTE && e.op < WROTE + 64) {
				got.push_back(hist::ev_key(e));
				puts[got.back()] = Put{e.op - WROTE, sim::event(i + 1).v[0]};
			}
		}
		hist::compare(got, hist::keys(want), what);
		std::vector<unsigned char> img(size, FILL);
		std::vector<const Key *> owner(size, nullptr);
		for (auto &e : want) {
			const auto [tag, at] = puts[e.k];
			const auto n = tag & 15;
			if (exact && at != e.off)
				sim::fail("wrong_place", "%s: element %s was written at byte %lld, it lies at byte %lld", what, model::show(e.k).c_str(),
				          (long long)at, (long long)e.off);
			if (at < 0 || at + n > static_cast<i64>(size))
				sim::fail("outside", "%s: element %s lies at byte %lld of a structure of %zu bytes", what, model::show(e.k).c_str(),
				          (long long)at, size);
			for (i64 x = at; x < at + n; x++) {
				if (owner[x])
					sim::fail("overlap", "%s: byte %lld belongs to both %s and %s", what, (long long)x, model::show(*owner[x]).c_str(),
					          model::show(e.k).c_str());
				owner[x] = &e.k;
			}
			put(img.data() + at, tag, e.k, salt);
		}
		for (std::size_t i = 0; i < size; i++)
			if (img[i] != buf[i])
				sim::fail("wrong_bytes", "%s: byte %zu is %02x, the elements written imply %02x", what, i, buf[i], img[i]);
	}
	hist::drain();
	if (sim::events() != now)
		sim::fail("returned_early", "%s: write after return", what);
}

} // namespace own
#endif
