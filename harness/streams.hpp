// Simulated transports below real iostreams, and the structure pairs that are sent over them.
#ifndef VERIF_STREAMS_HPP
#define VERIF_STREAMS_HPP

#include "cases.hpp"

#include <cstring>
#include <iostream>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>

#include <noarr/structures/interop/serialize_data.hpp>

namespace io {

enum FaultKind { NONE, FAIL, FAIL_ONCE, THROW };

struct transport_error : std::runtime_error {
	transport_error() : std::runtime_error("transport") {}
};

// a byte channel: a file (unbounded) or a pipe (bounded, blocking)
struct Channel {
	std::string data;
	std::size_t rd = 0, cap = ~std::size_t(0) / 2;
	bool wclosed = false, rclosed = false, blocking = false;
	// faults: position in the byte stream at which they strike
	FaultKind wfault = NONE, rfault = NONE;
	std::size_t wfault_at = 0, rfault_at = 0;
	bool wfired = false, rfired = false;
	std::uint32_t max_chunk = 8;
};
using ChannelP = Channel *;

inline ChannelP make_channel() {
	const sim::Pause p;
	return new Channel();
}
inline void drop(ChannelP c) {
	const sim::Pause p;
	delete c;
}
inline void close_write(ChannelP c) {
	sim::hb_release(c);
	const sim::Pause p;
	c->wclosed = true;
}

struct SinkBuf : std::streambuf {
	ChannelP ch;
	char area[16];
	int n;
	explicit SinkBuf(ChannelP c, int n) : ch(c), n(n) {
		if (n)
			setp(area, area + n);
	}
	// all or nothing from the caller's point of view; the channel keeps what was accepted before a fault
	bool push(const char *s, std::size_t len) {
		while (len) {
			std::size_t k;
			sim::step(1);
			sim::wait_until(
				[](void *a) {
					auto *c = static_cast<Channel *>(a);
					return c->rclosed || c->data.size() - c->rd < c->cap;
				},
				ch);
			sim::hb_release(ch);
			bool boom = false;
			{
				const sim::Pause p;
				if (ch->rclosed) {
					sim::fault_fired(sim::F_STREAM_ERR);
					return false;
				}
				const std::size_t room = ch->cap - (ch->data.size() - ch->rd);
				k = 1 + sim::decide(sim::K_CHUNK, ch->max_chunk);
				if (k > len)
					k = len;
				if (k > room)
					k = room;
				if (k < len)
					sim::fault_fired(sim::F_STREAM_SHORT);
				if (ch->wfault != NONE && !(ch->wfault == FAIL_ONCE && ch->wfired) && ch->data.size() + k > ch->wfault_at) {
					const std::size_t ok = ch->wfault_at > ch->data.size() ? ch->wfault_at - ch->data.size() : 0;
					ch->data.append(s, ok);
					ch->wfired = true;
					sim::fault_fired(ch->wfault == THROW ? sim::F_STREAM_THROW : ch->wfault == FAIL ? sim::F_STREAM_FULL : sim::F_STREAM_ERR);
					if (ch->wfault != THROW)
						return false;
					boom = true;
				} else
					ch->data.append(s, k);
			}
			if (boom)
				throw transport_error();
			s += k;
			len -= k;
		}
		return true;
	}
	bool flush_area() {
		if (!n)
			return true;
		const std::size_t k = static_cast<std::size_t>(pptr() - pbase());
		char tmp[16];
		std::memcpy(tmp, pbase(), k);
		setp(area, area + n); // what could not be written is lost
		return push(tmp, k);
	}
	int_type overflow(int_type c) override {
		if (!flush_area())
			return traits_type::eof();
		if (traits_type::eq_int_type(c, traits_type::eof()))
			return traits_type::not_eof(c);
		if (n)
			return sputc(traits_type::to_char_type(c));
		const char x = traits_type::to_char_type(c);
		return push(&x, 1) ? c : traits_type::eof();
	}
	int sync() override { return flush_area() ? 0 : -1; }
};

struct SourceBuf : std::streambuf {
	ChannelP ch;
	char area[16];
	int n;
	explicit SourceBuf(ChannelP c, int n) : ch(c), n(n < 1 ? 1 : n) { setg(area, area, area); }
	int_type underflow() override {
		if (gptr() < egptr())
			return traits_type::to_int_type(*gptr());
		sim::step(1);
		if (ch->blocking) {
			bool wait;
			{
				const sim::Pause p;
				wait = ch->rd == ch->data.size() && !ch->wclosed;
			}
			if (wait)
				sim::fault_fired(sim::F_STREAM_DELAY);
			sim::wait_until(
				[](void *a) {
					auto *c = static_cast<Channel *>(a);
					return c->wclosed || c->rd < c->data.size();
				},
				ch);
		}
		sim::hb_acquire(ch);
		bool boom = false;
		{
			const sim::Pause p;
			if (ch->rfault != NONE && !(ch->rfault == FAIL_ONCE && ch->rfired) && ch->rd >= ch->rfault_at) {
				ch->rfired = true;
				sim::fault_fired(ch->rfault == THROW ? sim::F_STREAM_THROW : ch->rfault == FAIL ? sim::F_STREAM_EOF : sim::F_STREAM_ERR);
				if (ch->rfault != THROW)
					return traits_type::eof();
				boom = true;
			} else {
				std::size_t k = 1 + sim::decide(sim::K_CHUNK, static_cast<std::uint32_t>(n));
				const std::size_t have = ch->data.size() - ch->rd;
				if (k > have)
					k = have;
				if (!k)
					return traits_type::eof();
				if (k < have)
					sim::fault_fired(sim::F_STREAM_SHORT);
				if (ch->rfault != NONE && !ch->rfired && ch->rd + k > ch->rfault_at)
					k = ch->rfault_at - ch->rd;
				std::memcpy(area, ch->data.data() + ch->rd, k);
				ch->rd += k;
				setg(area, area, area + k);
				return traits_type::to_int_type(*gptr());
			}
		}
		if (boom)
			throw transport_error();
		return traits_type::eof();
	}
};

struct Out : std::ostream {
	SinkBuf b;
	explicit Out(ChannelP c, int n) : std::ostream(nullptr), b(c, n) { rdbuf(&b); }
};
struct In : std::istream {
	SourceBuf b;
	explicit In(ChannelP c, int n) : std::istream(nullptr), b(c, n) { rdbuf(&b); }
};

// an element type with its own text form, whose operators may throw
struct Rec {
	int a;
	short b;
	bool operator==(const Rec &) const = default;
};
struct user_error {
	int at;
};
struct Throws {
	i64 out_at = -1, in_at = -1, outs = 0, ins = 0;
};
inline Throws &throws() {
	static Throws t;
	return t;
}
inline std::ostream &operator<<(std::ostream &o, const Rec &r) {
	bool boom;
	{
		const sim::Pause p;
		auto &t = throws();
		boom = t.outs++ == t.out_at;
	}
	if (boom) {
		sim::fault_fired(sim::F_THROW);
		throw user_error{1};
	}
	return o << r.a << ',' << r.b;
}
inline std::istream &operator>>(std::istream &i, Rec &r) {
	bool boom;
	{
		const sim::Pause p;
		auto &t = throws();
		boom = t.ins++ == t.in_at;
	}
	if (boom) {
		sim::fault_fired(sim::F_THROW);
		throw user_error{2};
	}
	char c = 0;
	Rec x{};
	if (i >> x.a >> c >> x.b) {
		if (c == ',')
			r = x;
		else
			i.setstate(std::ios::failbit);
	}
	return i;
}

// how the user set up the two streams
enum Format { PLAIN, PRECISE, SCIENTIFIC, SHOWPOS, BOOLALPHA, GROUPED, HEX };
inline int &format() {
	static int f = PLAIN;
	return f;
}
struct Grouping : std::numpunct<char> {
	char do_thousands_sep() const override { return '_'; }
	std::string do_grouping() const override { return "\3"; }
};
inline void set_up(std::ios &s) {
	const sim::Pause p;
	switch (format()) {
	case PRECISE: s.precision(17); break;
	case SCIENTIFIC:
		s.precision(17);
		s.setf(std::ios::scientific, std::ios::floatfield);
		break;
	case SHOWPOS: s.setf(std::ios::showpos); break;
	case BOOLALPHA: s.setf(std::ios::boolalpha); break;
	case GROUPED: {
		static const std::locale l(std::locale::classic(), new Grouping());
		s.imbue(l);
		break;
	}
	case HEX: s.setf(std::ios::hex, std::ios::basefield); break;
	}
}

template<class E>
E value(std::size_t pos, std::uint64_t salt) {
	std::uint64_t h = (pos + 1) * 0x9e3779b97f4a7c15ULL + salt * 0xff51afd7ed558ccdULL;
	h ^= h >> 29;
	h *= 0xbf58476d1ce4e5b9ULL;
	h ^= h >> 32;
	if constexpr (std::is_same_v<E, Rec>)
		return Rec{static_cast<int>(h), static_cast<short>(h >> 40)};
	else if constexpr (std::is_same_v<E, bool>)
		return h & 1;
	else if constexpr (sizeof(E) == 1)
		return static_cast<E>('!' + h % 90);
	else if constexpr (std::is_floating_point_v<E>) {
		if (format() == PRECISE || format() == SCIENTIFIC)
			return static_cast<E>(static_cast<std::int64_t>(h)) / static_cast<E>(static_cast<std::int64_t>(h % 1000003) * 7 + 3);
		return static_cast<E>(static_cast<int>(h % 4000) - 2000) / 4;
	}
	else {
		switch (h >> 60) { // lengths of the texts differ
		case 0: return std::numeric_limits<E>::min();
		case 1: return std::numeric_limits<E>::max();
		case 2:
		case 3:
		case 4: return static_cast<E>(h % 10);
		default: return static_cast<E>(h >> 8);
		}
	}
}

constexpr unsigned char FILL = 0xC7;
constexpr std::size_t MARGIN = 64;

// a data buffer with a margin on both sides, all filled with FILL
struct Data {
	unsigned char *raw, *p;
	std::size_t size;
	explicit Data(std::size_t size) : size(size) {
		const sim::Pause x;
		raw = static_cast<unsigned char *>(sim::buffer(size + 2 * MARGIN, FILL));
		p = raw + MARGIN;
	}
	~Data() {
		const sim::Pause x;
		sim::buffer_free(raw);
	}
	Data(const Data &) = delete;
	Data &operator=(const Data &) = delete;
};

// where the pos-th visited element lies, its size, its text
struct Slot {
	i64 at;
	std::size_t size;
	std::string text;
	std::string bytes;
};
using Slots = std::vector<Slot>;

template<class S>
Slots slots_of(const S &s, const Space &m, std::size_t size, std::uint64_t salt, const char *what) {
	const sim::Pause pause;
	Slots out;
	std::string mem(size + 16, '\0');
	noarr::traverser(s).for_each([&](auto st) {
		auto &e = s | noarr::get_at(mem.data(), st);
		using E = std::remove_cvref_t<decltype(e)>;
		const E v = value<E>(out.size(), salt);
		std::ostringstream o;
		set_up(o);
		{
			const Throws keep = throws();
			throws() = Throws();
			o << v;
			throws() = keep;
		}
		Slot sl{reinterpret_cast<const char *>(&e) - mem.data(), sizeof(E), o.str(), std::string(sizeof(E), '\0')};
		std::memset(sl.bytes.data(), 0, sizeof(E));
		std::memcpy(sl.bytes.data(), &v, sizeof(E));
		if constexpr (std::is_same_v<E, Rec>)
			std::memset(sl.bytes.data() + 6, 0, 2); // its own padding is not compared
		out.push_back(sl);
	});
	const auto all = m.all();
	if (all.size() != out.size())
		sim::fail("traversal", "%s: %zu elements are visited, %zu expected", what, out.size(), all.size());
	if (m.exact)
		for (std::size_t i = 0; i < all.size(); i++)
			if (all[i].off != out[i].at)
				sim::fail("traversal", "%s: the element visited as number %zu lies at byte %lld, expected %lld", what, i, (long long)out[i].at,
				          (long long)all[i].off);
	return out;
}

inline void fill(Data &d, const Slots &s) {
	const sim::Pause p;
	for (auto &x : s)
		std::memcpy(d.p + x.at, x.bytes.data(), x.size);
}

// states of an element after an operation
enum Expect : char { HELD = 'h', UNTOUCHED = 'u', ANY = 'a' };

inline void check_data(const Data &d, const Slots &s, const std::string &expect, const char *what) {
	unsigned sum = 0;
	for (std::size_t i = 0; i < d.size; i++)
		sum += d.p[i];
	sim::mix(sum);
	const sim::Pause p;
	std::string owned(d.size + 2 * MARGIN, 0);
	for (std::size_t i = 0; i < s.size(); i++) {
		const auto n = s[i].size == sizeof(Rec) && s[i].text.find(',') != std::string::npos ? 6 : s[i].size;
		for (std::size_t b = 0; b < s[i].size; b++)
			owned[MARGIN + s[i].at + b] = b < n || expect[i] != UNTOUCHED ? 1 : 0;
		if (expect[i] == HELD && std::memcmp(d.p + s[i].at, s[i].bytes.data(), n))
			sim::fail("wrong_element", "%s: element number %zu does not hold %s", what, i, s[i].text.c_str());
		if (expect[i] == UNTOUCHED)
			for (std::size_t b = 0; b < n; b++)
				if (d.p[s[i].at + b] != FILL)
					sim::fail("touched", "%s: element number %zu was modified", what, i);
	}
	for (std::size_t i = 0; i < owned.size(); i++)
		if (!owned[i] && d.raw[i] != FILL)
			sim::fail("stray_write", "%s: byte %lld, which belongs to no element, was modified", what, (long long)i - (long long)MARGIN);
}

inline std::vector<std::string> tokens(const std::string &s) {
	std::vector<std::string> out;
	std::istringstream in(s);
	std::string t;
	while (in >> t)
		out.push_back(t);
	return out;
}

} // namespace io

// ---- f(writer's structure, its model, reader's structure, its model): same traversal order, perhaps another layout
namespace cases {
CASE(p_int, true) {
	const auto n = L1() / 3;
	auto s = scalar<int>() ^ vector<'i'>(n);
	Space m(4);
	m.vec('i', n).seal();
	f(s, m, s, m);
}
CASE(p_transposed, true) {
	const auto n = L3(), k = L3();
	Space m(8), r(8);
	m.vec('i', n).vec('j', k).seal();
	r.vec('j', k).vec('i', n).hoist('j').seal();
	f(scalar<long long>() ^ vectors<'i', 'j'>(n, k), m, scalar<long long>() ^ vectors<'j', 'i'>(k, n) ^ hoist<'j'>(), r);
}
CASE(p_blocked, true) {
	const auto b = P(1, 4), n = b * P(0, 4), k = P(0, 4);
	Space m(2), r(2);
	m.vec('i', n).vec('j', k).seal();
	r.vec('b', b).vec('j', k).vec('B', n / b).merge_blocks('B', 'b', 'i').hoist('j').seal();
	f(scalar<short>() ^ vectors<'i', 'j'>(n, k), m,
	  scalar<short>() ^ vector<'b'>(b) ^ vector<'j'>(k) ^ vector<'B'>(n / b) ^ merge_blocks<'B', 'b', 'i'>() ^ hoist<'j'>(), r);
}
CASE(p_aos, true) {
	const auto b = P(1, 3), n = b * P(0, 3);
	Space m(1), r(1);
	m.tuple('k', {4, 8, 1}).vec('i', n).seal();
	r.tuple('k', {4, 8, 1}).vec('i', n).seal(); // only the number of elements is used
	const auto t = pack(scalar<int>(), scalar<double>(), scalar<char>()) ^ tuple<'k'>();
	f(t ^ vector<'i'>(n), m, t ^ vector<'B'>(n / b) ^ vector<'b'>(b) ^ merge_blocks<'B', 'b', 'i'>(), r);
}
CASE(p_soa, true) {
	const auto n = L3(), k = P(0, 3);
	Space m(1), r(1);
	m.tuple_vec('k', 'i', {4, 1}, {static_cast<i64>(n), static_cast<i64>(k)}).seal();
	r.tuple_vec('k', 'i', {4, 1}, {static_cast<i64>(n), static_cast<i64>(k)}).seal();
	f(pack(scalar<int>() ^ vector<'i'>(n), scalar<char>() ^ vector<'i'>(k)) ^ tuple<'k'>(), m,
	  pack(scalar<int>() ^ vector<'i'>(n) ^ reverse<'i'>(), scalar<char>() ^ vector<'i'>(k + 2) ^ slice<'i'>(1, k)) ^ tuple<'k'>(), r);
}
CASE(p_reversed, true) {
	const auto n = L1() / 3;
	Space m(4), r(4);
	m.vec('i', n).reverse('i').seal();
	r.vec('i', n).seal();
	f(scalar<unsigned>() ^ vector<'i'>(n) ^ reverse<'i'>(), m, scalar<unsigned>() ^ vector<'i'>(n), r);
}
CASE(p_part, true) { // the reader fills a part of a larger buffer
	const auto q = P(1, 4), r0 = upto(q - 1), n = L3(), len = n * q + P(0, 3);
	Space m(8), r(8);
	r.vec('i', len).step('i', r0, q);
	const auto got = static_cast<std::size_t>(r.len('i'));
	r.seal();
	m.vec('i', got).seal();
	f(scalar<double>() ^ vector<'i'>(got), m, scalar<double>() ^ vector<'i'>(len) ^ step<'i'>(r0, q), r);
}
CASE(p_window, true) { // both sides use a part
	const auto n = P(1, 12), k = P(1, 5), a1 = upto(n), l = upto(n - a1), x = upto(k - 1);
	Space m(4), r(4);
	m.vec('i', n).slice('i', a1, l).seal();
	r.vec('j', k).vec('i', l).fix('j', x).seal();
	f(scalar<int>() ^ vector<'i'>(n) ^ slice<'i'>(a1, l), m, scalar<int>() ^ vectors<'j', 'i'>(k, l) ^ fix<'j'>(x), r);
}
CASE(p_chars, true) {
	const auto n = L1() / 3;
	auto s = scalar<char>() ^ vector<'i'>(n);
	Space m(1);
	m.vec('i', n).seal();
	f(s, m, s, m);
}
CASE(p_rec, true) {
	const auto n = L3(), k = P(1, 3);
	Space m(8), r(8);
	m.vec('i', n).vec('j', k).seal();
	r.vec('j', k).vec('i', n).hoist('j').seal();
	f(scalar<io::Rec>() ^ vectors<'i', 'j'>(n, k), m, scalar<io::Rec>() ^ vectors<'j', 'i'>(k, n) ^ hoist<'j'>(), r);
}
CASE(p_dyn, true) { // guarded blocks against a plain vector
	const auto n = L1() / 3, b = P(1, 5);
	Space m(4), r(4);
	m.vec('i', n).into_blocks_dynamic('i', 'B', 'b', 'p', b).seal();
	r.vec('i', n).seal();
	f(scalar<int>() ^ vector<'i'>(n) ^ into_blocks_dynamic<'i', 'B', 'b', 'p'>(b), m, scalar<int>() ^ vector<'i'>(n), r);
}
CASE(p_static, true) {
	Space m(1);
	m.vec('j', 3).vec('i', 4).seal();
	auto s = scalar<bool>() ^ array<'j', 3>() ^ array<'i', 4>();
	f(s, m, s, m);
}
CASE(p_one, true) {
	Space m(4);
	m.seal();
	f(scalar<int>(), m, scalar<int>(), m);
}
CASE(p_zcurve, true) {
	const auto n = 4 * P(1, 2), k = 4 * P(1, 2);
	Space m(4), r(4);
	m.vec('i', n).vec('j', k).zcurve("ij", 'z').seal();
	r.vec('z', n * k).seal();
	f(scalar<int>() ^ vectors<'i', 'j'>(n, k) ^ merge_zcurve<'i', 'j', 'z'>::template maxlen_alignment<8, 4>(), m,
	  scalar<int>() ^ vector<'z'>(n * k), r);
}
using Pairs = List<p_int, p_transposed, p_blocked, p_aos, p_soa, p_reversed, p_part, p_window, p_chars, p_rec, p_dyn, p_static, p_one, p_zcurve>;
} // namespace cases
#endif
