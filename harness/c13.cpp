// C13: stream faults during (de)serialisation are reported and never corrupt
#include "streams.hpp"

using io::Data;
using io::Slots;

namespace {

// what an operation on a stream ended with
struct Outcome {
	bool threw_failure = false, threw_transport = false, threw_user = false;
	bool threw() const { return threw_failure || threw_transport || threw_user; }
};

template<class F>
Outcome attempt(F &&f) {
	Outcome o;
	try {
		f();
	} catch (const std::ios_base::failure &) {
		o.threw_failure = true;
	} catch (const io::transport_error &) {
		o.threw_transport = true;
	} catch (const io::user_error &) {
		o.threw_user = true;
	}
	return o;
}

template<class Case>
struct Setup {
	template<class F>
	static void with(F &&f) {
		Case::with([&](const auto &ws, const Space &wm, const auto &rs, const Space &rm) {
			const std::size_t wsize = ws | noarr::get_size(), rsize = rs | noarr::get_size();
			const auto salt = sim::decide(sim::K_DATA, 1000);
			Slots *wslots, *rslots;
			std::string *text;
			{
				const sim::Pause p;
				io::throws() = io::Throws();
				wslots = new Slots(io::slots_of(ws, wm, wsize, salt, "writer"));
				rslots = new Slots(io::slots_of(rs, rm, rsize, salt, "reader"));
				text = new std::string();
				for (auto &s : *wslots)
					*text += s.text + "\n";
			}
			f(ws, rs, *wslots, *rslots, *text, wsize, rsize);
			const sim::Pause p;
			io::throws() = io::Throws();
			delete wslots;
			delete rslots;
			delete text;
		});
	}
};

std::ios_base::iostate draw_mask() {
	switch (sim::param(4)) {
	case 0: return std::ios::badbit;
	case 1: return std::ios::badbit | std::ios::failbit;
	default: return std::ios::goodbit;
	}
}

// a place for a fault: anywhere in the text, or at its very end
std::size_t place(std::size_t n) { return sim::decide(sim::K_FAULT, static_cast<std::uint32_t>(n + 2)); }

template<class W>
void write(io::Out &out, const W &ws, Data &d, bool bag) {
	if (bag)
		noarr::serialize_data(out, noarr::make_bag(ws, reinterpret_cast<char *>(d.p)));
	else
		noarr::serialize_data(out, ws, d.p);
}
template<class R>
void read(io::In &in, const R &rs, Data &d, bool bag) {
	if (bag) {
		auto b = noarr::make_bag(rs, reinterpret_cast<char *>(d.p));
		noarr::deserialize_data(in, b);
	} else
		noarr::deserialize_data(in, rs, d.p);
}

void check_source(const Data &src, const Slots &s) {
	const sim::Pause p;
	for (std::size_t i = 0; i < s.size(); i++)
		if (std::memcmp(src.p + s[i].at, s[i].bytes.data(), s[i].size))
			sim::fail("source_modified", "serialize_data modified element number %zu", i);
}

// how many elements' texts lie completely in the first n bytes, followed by a separator
std::size_t whole(const Slots &s, std::size_t n) {
	std::size_t at = 0, k = 0;
	for (; k < s.size() && at + s[k].text.size() + 1 <= n; k++)
		at += s[k].text.size() + 1;
	return k;
}

// ---- the sink fails
struct sink {
	static constexpr const char *name = "sink";
};
template<class Case, class>
struct Sink {
	static void run() {
		Setup<Case>::with([](const auto &ws, const auto &, const Slots &slots, const Slots &, const std::string &text, std::size_t size, std::size_t) {
			Data src(size);
			io::fill(src, slots);
			io::ChannelP ch = io::make_channel();
			const auto kind = static_cast<io::FaultKind>(sim::decide(sim::K_FAULT, 4));
			const auto at = place(text.size());
			const auto mask = draw_mask();
			const int area = sim::param(2) ? static_cast<int>(sim::range(1, 16)) : 0;
			const bool bag = sim::param(2);
			const bool user = sim::param(4) == 0;
			{
				const sim::Pause p;
				ch->wfault = kind;
				ch->wfault_at = at;
				ch->max_chunk = sim::range(1, 12);
				if (user)
					io::throws().out_at = sim::decide(sim::K_FAULT, static_cast<std::uint32_t>(slots.size() + 1));
				sim::note("%s sink fault=%d at byte %zu of %zu, put area %d, exceptions %d, user throw at %lld", Case::name, kind, at, text.size(),
				          area, (int)mask, (long long)io::throws().out_at);
			}
			io::Out out(ch, area);
			out.exceptions(mask);
			Outcome o = attempt([&] { write(out, ws, src, bag); });
			const bool early = o.threw();
			const bool user_stop = o.threw_user;
			if (!early && out.good()) {
				const Outcome o2 = attempt([&] { out.flush(); });
				if (o2.threw())
					o = o2;
			}
			check_source(src, slots);
			const sim::Pause p;
			const bool fired = ch->wfired;
			if (user_stop) {
				// text written before the throwing element is a prefix; the put area may still hold a part of it
			} else if (fired) {
				if (!(out.rdstate() & (std::ios::badbit | std::ios::failbit)))
					sim::fail("not_reported", "the sink failed at byte %zu, the stream state is good", at);
				if ((mask & std::ios::badbit) && !o.threw())
					sim::fail("not_reported", "the sink failed at byte %zu, exceptions are enabled and none was thrown", at);
			} else {
				if (!out.good() || o.threw())
					sim::fail("false_report", "no fault fired, but the stream reports a failure (%d)", (int)out.rdstate());
				if (ch->data != text)
					sim::fail("wrong_text", "the text is '%.100s' instead of '%.100s'", ch->data.c_str(), text.c_str());
			}
			if (o.threw_user && io::throws().out_at < 0)
				sim::fail("foreign_exception", "an exception nobody threw");
			if (text.compare(0, ch->data.size(), ch->data) != 0)
				sim::fail("not_a_prefix", "written '%.100s' is not a prefix of '%.100s'", ch->data.c_str(), text.c_str());
			if (fired && mask == std::ios::goodbit && o.threw_failure)
				sim::fail("unexpected_exception", "ios_base::failure although exceptions are off");
			io::drop(ch);
		});
	}
};

// ---- the source fails
template<class Case, class>
struct Source {
	static void run() {
		Setup<Case>::with([](const auto &, const auto &rs, const Slots &, const Slots &slots, const std::string &text, std::size_t, std::size_t size) {
			Data dst(size);
			io::ChannelP ch = io::make_channel();
			// 0 none, 1 cut, 2 end of file/error, 3 transient, 4 throw, 5 malformed, 6 out of range, 7 element type throws
			const int kind = static_cast<int>(sim::decide(sim::K_FAULT, 8));
			const auto at = place(text.size());
			const auto mask = draw_mask();
			const int area = static_cast<int>(sim::range(1, 16));
			const bool bag = sim::param(2);
			std::string *expect;
			bool must_fail = false, may_fail = false, complete = false;
			{
				const sim::Pause p;
				ch->data = text;
				expect = new std::string(slots.size(), io::HELD);
				const auto n = slots.size();
				const std::size_t limit = std::min(at, text.size());
				auto stop_after = [&](std::size_t k, std::size_t touched) { // k elements arrived, `touched` more may be modified
					for (std::size_t i = k; i < n; i++)
						(*expect)[i] = i < k + touched ? io::ANY : io::UNTOUCHED;
					must_fail = true;
				};
				// the element whose text is cut: it may have been read from what arrived, then the next one is not touched
				auto cut = [&] {
					const auto k = whole(slots, limit);
					std::size_t begin = 0;
					for (std::size_t i = 0; i < k; i++)
						begin += slots[i].text.size() + 1;
					if (k == n)
						return; // everything arrived
					if (limit == begin + slots[k].text.size() && k + 1 == n) {
						may_fail = complete = true; // only the last separator is missing
						if (kind == 4)
							(*expect)[k] = io::ANY;
						return;
					}
					if (limit == begin + slots[k].text.size()) {
						stop_after(k + 1, 1);
						(*expect)[k] = io::HELD;
						if (n > k + 1)
							(*expect)[k + 1] = io::UNTOUCHED;
						if (kind == 4)
							(*expect)[k] = io::ANY; // an exception strikes within the look-ahead
						return;
					}
					stop_after(k, limit == begin ? 0 : 1);
					if (k + 1 == n && limit != begin)
						must_fail = false, may_fail = true; // a number that is cut is still a number; eofbit tells
				};
				if (kind == 1) {
					ch->data.resize(limit);
					if (limit < text.size())
						sim::fault_fired(sim::F_STREAM_EOF);
					cut();
				} else if (kind >= 2 && kind <= 4) {
					ch->rfault = kind == 2 ? io::FAIL : kind == 3 ? io::FAIL_ONCE : io::THROW;
					ch->rfault_at = at;
					if (at < text.size())
						cut();
				} else if (n && (kind == 5 || kind == 6)) {
					const std::size_t j = sim::decide(sim::K_FAULT, static_cast<std::uint32_t>(n));
					const bool number = slots[j].size > 1;
					std::size_t begin = 0;
					for (std::size_t i = 0; i < j; i++)
						begin += slots[i].text.size() + 1;
					if (number) {
						if (kind == 5)
							ch->data[begin] = 'x';
						else
							ch->data.replace(begin, slots[j].text.find(',') != std::string::npos ? slots[j].text.find(',') : slots[j].text.size(),
							                 "1" + std::string(400, '9'));
						sim::fault_fired(sim::F_STREAM_CORRUPT);
						stop_after(j, 1);
					}
				} else if (kind == 7)
					io::throws().in_at = sim::decide(sim::K_FAULT, static_cast<std::uint32_t>(n + 1));
				sim::note("%s source fault=%d at byte %zu of %zu, get area %d, exceptions %d", Case::name, kind, at, text.size(), area, (int)mask);
			}
			io::In in(ch, area);
			in.exceptions(mask);
			const Outcome o = attempt([&] { read(in, rs, dst, bag); });
			if (complete && !in.fail())
				(*expect)[slots.size() - 1] = io::HELD;
			if (o.threw_user) {
				const sim::Pause p;
				const auto k = static_cast<std::size_t>(io::throws().in_at);
				for (std::size_t i = k; i < slots.size(); i++)
					(*expect)[i] = io::UNTOUCHED;
			}
			io::check_data(dst, slots, *expect, "deserialize_data");
			const sim::Pause p;
			if (o.threw_user) {
				if (io::throws().in_at < 0)
					sim::fail("foreign_exception", "an exception nobody threw");
			} else if (must_fail) {
				if (!in.fail())
					sim::fail("not_reported", "the source failed and not all elements arrived, but the stream state is %d", (int)in.rdstate());
				if ((mask & std::ios::failbit) && !o.threw())
					sim::fail("not_reported", "the source failed, exceptions are enabled and none was thrown");
			} else if (may_fail) {
				if (!complete && kind != 4 && in.good() && io::throws().in_at < 0)
					sim::fail("not_reported", "the source ended early, but the stream state is good");
			} else if (in.fail() || o.threw())
				sim::fail("false_report", "every element arrived, but the stream reports a failure (%d)", (int)in.rdstate());
			if (mask == std::ios::goodbit && (o.threw_failure || o.threw_transport))
				sim::fail("unexpected_exception", "exception although exceptions are off");
			io::drop(ch);
			delete expect;
		});
	}
};

// ---- a pipe whose other end goes away at any moment
template<class W, class R>
struct Pipe {
	const W *ws;
	const R *rs;
	Data *src, *dst;
	io::ChannelP ch;
	int put_area, get_area;
	std::size_t die_at; // bytes after which one side goes away
	bool writer_dies;
	bool wfail, rfail;
	static void writer(void *a) {
		auto &t = *static_cast<Pipe *>(a);
		io::Out out(t.ch, t.put_area);
		noarr::serialize_data(out, *t.ws, t.src->p);
		out.flush();
		t.wfail = !out;
		io::close_write(t.ch);
	}
	static void reader(void *a) {
		auto &t = *static_cast<Pipe *>(a);
		io::In in(t.ch, t.get_area);
		noarr::deserialize_data(in, *t.rs, t.dst->p);
		t.rfail = in.fail();
	}
	static void reaper(void *a) { // the process at one end is gone
		auto &t = *static_cast<Pipe *>(a);
		sim::wait_until(
			[](void *x) {
				auto &p = *static_cast<Pipe *>(x);
				return p.ch->data.size() >= p.die_at || p.ch->wclosed;
			},
			a);
		const sim::Pause p;
		if (t.writer_dies)
			t.ch->wclosed = t.ch->rclosed = true; // nothing more is accepted, what is in the pipe can still be read
		else
			t.ch->rclosed = true;
	}
};
template<class Case, class>
struct Broken {
	static void run() {
		Setup<Case>::with([](const auto &ws, const auto &rs, const Slots &wslots, const Slots &rslots, const std::string &text, std::size_t wsize,
		                     std::size_t rsize) {
			using T = Pipe<std::remove_cvref_t<decltype(ws)>, std::remove_cvref_t<decltype(rs)>>;
			Data src(wsize), dst(rsize);
			io::fill(src, wslots);
			T t{&ws, &rs, &src, &dst, io::make_channel(), 0, 1, 0, false, false, false};
			t.put_area = sim::param(2) ? static_cast<int>(sim::range(1, 16)) : 0;
			t.get_area = static_cast<int>(sim::range(1, 16));
			t.die_at = place(text.size());
			t.writer_dies = true;
			{
				const sim::Pause p;
				t.ch->blocking = true;
				t.ch->cap = sim::range(1, 40);
				t.ch->max_chunk = sim::range(1, 12);
				sim::note("%s broken pipe after %zu of %zu bytes, cap %zu put %d get %d", Case::name, t.die_at, text.size(), t.ch->cap, t.put_area,
				          t.get_area);
			}
			const int r = sim::spawn(T::reader, &t), w = sim::spawn(T::writer, &t), k = sim::spawn(T::reaper, &t);
			sim::join(w);
			sim::join(r);
			sim::join(k);
			std::string *expect;
			bool all, tail = false;
			{
				const sim::Pause p;
				const auto n = rslots.size();
				const auto got = t.ch->data.size();
				expect = new std::string(n, io::HELD);
				const auto done = whole(rslots, got);
				std::size_t begin = 0;
				for (std::size_t i = 0; i < done; i++)
					begin += rslots[i].text.size() + 1;
				all = done == n;
				for (std::size_t i = done; i < n; i++)
					(*expect)[i] = i == done && got > begin ? io::ANY : io::UNTOUCHED;
				if (!all && got == begin + rslots[done].text.size())
					(*expect)[done] = io::HELD;
				tail = done + 1 == n && got > begin;
			}
			check_source(src, wslots);
			io::check_data(dst, rslots, *expect, "deserialize_data");
			const sim::Pause p;
			if (text.compare(0, t.ch->data.size(), t.ch->data) != 0)
				sim::fail("not_a_prefix", "written '%.100s' is not a prefix of '%.100s'", t.ch->data.c_str(), text.c_str());
			if ((t.ch->data.size() < text.size()) != t.wfail)
				sim::fail("not_reported", "%zu of %zu bytes were accepted, the writer's stream says %s", t.ch->data.size(), text.size(),
				          t.wfail ? "failed" : "good");
			if (!tail && all == t.rfail)
				sim::fail("not_reported", "%s elements arrived, the reader's stream says %s", all ? "all" : "not all", t.rfail ? "failed" : "good");
			io::drop(t.ch);
			delete expect;
		});
	}
};

struct faults {
	static constexpr const char *name = "faults";
};
template<class C, class E>
struct SinkS : Sink<C, E> {
	static constexpr const char *prefix = "sink";
};
template<class C, class E>
struct SourceS : Source<C, E> {
	static constexpr const char *prefix = "source";
};
template<class C, class E>
struct BrokenS : Broken<C, E> {
	static constexpr const char *prefix = "broken_pipe";
};

const bool registered = [] {
	register_grid<SinkS>(cases::Pairs(), cases::List<faults>(), 2);
	register_grid<SourceS>(cases::Pairs(), cases::List<faults>(), 3);
	register_grid<BrokenS>(cases::Pairs(), cases::List<faults>(), 2);
	return true;
}();

} // namespace
