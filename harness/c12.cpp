// C12: serialised data reads back intact through any chunking and interleaving
#include "streams.hpp"

using io::Data;
using io::Slots;

namespace {

template<class W>
void write_one(io::Out &out, const W &ws, Data &d, int variant) {
	void *ret;
	if (variant == 0)
		ret = &static_cast<std::ostream &>(noarr::serialize_data(out, ws, d.p));
	else if (variant == 1) {
		const auto bag = noarr::make_bag(ws, reinterpret_cast<char *>(d.p));
		ret = &static_cast<std::ostream &>(noarr::serialize_data(out, bag));
	} else if (variant == 2) { // a stream passed as a temporary
		auto &&r = noarr::serialize_data(std::move(out), ws, d.p);
		static_assert(std::is_rvalue_reference_v<decltype(noarr::serialize_data(std::move(out), ws, d.p))>);
		ret = &static_cast<std::ostream &>(r);
	} else {
		auto bag = noarr::make_bag(ws, reinterpret_cast<char *>(d.p)).get_ref();
		ret = &static_cast<std::ostream &>(noarr::serialize_data(out, bag));
	}
	if (ret != &static_cast<std::ostream &>(out))
		sim::fail("other_stream", "serialize_data returned another stream");
	if (!out)
		sim::fail("stream_failed", "serialize_data left a failed stream although no fault was injected");
}

template<class R>
void read_one(io::In &in, const R &rs, Data &d, int variant) {
	void *ret;
	if (variant == 0)
		ret = &static_cast<std::istream &>(noarr::deserialize_data(in, rs, d.p));
	else if (variant == 1) {
		auto bag = noarr::make_bag(rs, reinterpret_cast<char *>(d.p));
		ret = &static_cast<std::istream &>(noarr::deserialize_data(in, bag));
	} else if (variant == 2) {
		auto &&r = noarr::deserialize_data(std::move(in), rs, d.p);
		ret = &static_cast<std::istream &>(r);
	} else { // into an owning bag
		auto bag = noarr::make_bag(rs);
		std::memset(bag.data(), io::FILL, d.size);
		ret = &static_cast<std::istream &>(noarr::deserialize_data(in, bag));
		std::memcpy(d.p, bag.data(), d.size);
	}
	if (ret != &static_cast<std::istream &>(in))
		sim::fail("other_stream", "deserialize_data returned another stream");
	if (in.fail())
		sim::fail("stream_failed", "deserialize_data left a failed stream although no fault was injected");
}

// one transfer of up to three structures over one channel
template<class W, class R>
struct Transfer {
	const W *ws;
	const R *rs;
	io::ChannelP ch;
	int count, put_area, get_area, wvar, rvar;
	bool answer, flush_each; // the writer waits for the reader's answer after each structure
	Data *src;
	Data *dst[3];
	io::ChannelP back;
	static void writer(void *a) {
		auto &t = *static_cast<Transfer *>(a);
		io::Out out(t.ch, t.put_area);
		io::set_up(out);
		for (int i = 0; i < t.count; i++) {
			write_one(out, *t.ws, *t.src, t.wvar);
			if (t.answer || t.flush_each)
				out.flush();
			if (t.answer) {
				io::In in(t.back, 1);
				char c = 0;
				in >> c;
				if (c != '+')
					sim::fail("no_answer", "the reader did not answer");
			}
		}
		out.flush();
		io::close_write(t.ch);
	}
	static void reader(void *a) {
		auto &t = *static_cast<Transfer *>(a);
		io::In in(t.ch, t.get_area);
		io::set_up(in);
		for (int i = 0; i < t.count; i++) {
			read_one(in, *t.rs, *t.dst[i], t.rvar);
			if (t.answer) {
				io::Out out(t.back, 0);
				out << '+' << std::flush;
			}
		}
		std::string rest;
		in >> std::ws;
		char c;
		while (in.get(c)) {
			const sim::Pause p;
			rest += c;
		}
		const sim::Pause p;
		if (!rest.empty())
			sim::fail("left_over", "the reader left '%.40s' unread", rest.c_str());
	}
};

// pipe: writer and reader run at the same time; file: one after the other
struct pipe_mode {
	static constexpr const char *name = "pipe";
	static constexpr bool pipe = true, answer = false;
	static constexpr int writers = 1;
};
struct dialog_mode {
	static constexpr const char *name = "dialog";
	static constexpr bool pipe = true, answer = true;
	static constexpr int writers = 1;
};
struct file_mode {
	static constexpr const char *name = "file";
	static constexpr bool pipe = false, answer = false;
	static constexpr int writers = 1;
};
struct fan_mode { // several transfers of the same data at the same time
	static constexpr const char *name = "fan";
	static constexpr bool pipe = true, answer = false;
	static constexpr int writers = 2;
};

template<class Case, class Mode>
struct Scen {
	static void run() {
		Case::with([](const auto &ws, const Space &wm, const auto &rs, const Space &rm) {
			using T = Transfer<std::remove_cvref_t<decltype(ws)>, std::remove_cvref_t<decltype(rs)>>;
			const std::size_t wsize = ws | noarr::get_size(), rsize = rs | noarr::get_size();
			const auto salt = sim::decide(sim::K_DATA, 1000);
			Slots *wslots, *rslots;
			{
				const sim::Pause p;
				// negative numbers cannot be read back in other bases
				io::format() = sim::param(3) ? static_cast<int>(sim::param(std::string(Case::name) == "p_reversed" ? 7 : 6)) : 0;
				if (io::format())
					sim::probe("formatted_streams");
				wslots = new Slots(io::slots_of(ws, wm, wsize, salt, "writer"));
				rslots = new Slots(io::slots_of(rs, rm, rsize, salt, "reader"));
				io::throws() = io::Throws();
			}
			Data src(wsize);
			io::fill(src, *wslots);
			T t[Mode::writers];
			int tids[2 * Mode::writers];
			const int count = Mode::writers > 1 ? 1 : static_cast<int>(sim::range(1, 3));
			for (int w = 0; w < Mode::writers; w++) {
				t[w] = T{};
				t[w].ws = &ws;
				t[w].rs = &rs;
				t[w].count = count;
				t[w].put_area = sim::param(3) ? static_cast<int>(sim::range(1, 16)) : 0;
				t[w].get_area = static_cast<int>(sim::range(1, 16));
				t[w].wvar = static_cast<int>(sim::param(4));
				t[w].rvar = static_cast<int>(sim::param(4));
				t[w].answer = Mode::answer;
				t[w].flush_each = sim::param(2);
				t[w].src = &src;
				t[w].ch = io::make_channel();
				t[w].back = io::make_channel();
				const sim::Pause p;
				t[w].back->blocking = true;
				t[w].ch->blocking = Mode::pipe;
				t[w].ch->max_chunk = sim::range(1, 12);
				if (Mode::pipe)
					t[w].ch->cap = sim::range(1, 40);
				for (int i = 0; i < count; i++)
					t[w].dst[i] = new Data(rsize);
			}
			sim::note("%s %s format=%d structures=%d put=%d get=%d variants=%d/%d cap=%zu %s -> %s", Case::name, Mode::name, io::format(), count, t[0].put_area,
			          t[0].get_area, t[0].wvar, t[0].rvar, Mode::pipe ? t[0].ch->cap : 0, wm.text().c_str(), rm.text().c_str());
			bool cut = false;
			const bool spaced = !Mode::pipe && sim::param(3) == 0; // other white space between the elements
			std::string written;
			if (Mode::pipe) {
				for (int w = 0; w < Mode::writers; w++) {
					tids[2 * w] = sim::spawn(T::reader, &t[w]);
					tids[2 * w + 1] = sim::spawn(T::writer, &t[w]);
				}
				for (int i = 0; i < 2 * Mode::writers; i++)
					sim::join(tids[i]);
			} else {
				T::writer(&t[0]);
				{
					const sim::Pause p;
					auto &d = t[0].ch->data;
					if (sim::param(3) == 0 && !d.empty() && wslots->size()) { // a file without the final line break
						if (d.back() == '\n')
							d.pop_back();
						cut = true;
					}
				}
				if (cut)
					sim::probe("no_final_separator");
				if (spaced) {
					const sim::Pause p;
					std::string d;
					for (char c : t[0].ch->data)
						if (c != '\n')
							d += c;
						else
							for (auto n = 1 + sim::decide(sim::K_CHUNK, 3); n; n--)
								d += " \t\n\r"[sim::decide(sim::K_CHUNK, 4)];
					written = t[0].ch->data;
					t[0].ch->data = d;
				}
				T::reader(&t[0]);
			}
			for (int w = 0; w < Mode::writers; w++) {
				for (int i = 0; i < count; i++) {
					const std::string *expect;
					{
						const sim::Pause p;
						expect = new std::string(rslots->size(), io::HELD);
					}
					io::check_data(*t[w].dst[i], *rslots, *expect, "deserialize_data");
					const sim::Pause p;
					delete expect;
				}
				const sim::Pause p;
				// the text: one element per line, in traversal order
				std::string want;
				for (int i = 0; i < count; i++)
					for (auto &s : *wslots)
						want += s.text + "\n";
				if (cut && !want.empty())
					want.pop_back();
				if ((spaced ? written : t[w].ch->data) != want)
					sim::fail("wrong_text", "the text is '%.200s'", t[w].ch->data.c_str());
				for (std::size_t i = 0; i < wslots->size(); i++)
					if (std::memcmp(src.p + (*wslots)[i].at, (*wslots)[i].bytes.data(), (*wslots)[i].size))
						sim::fail("source_modified", "serialize_data modified element number %zu", i);
				for (int i = 0; i < count; i++)
					delete t[w].dst[i];
				io::drop(t[w].ch);
				io::drop(t[w].back);
			}
			const sim::Pause p;
			delete wslots;
			delete rslots;
		});
	}
};

const bool registered = [] {
	register_grid<Scen>(cases::Pairs(), cases::List<pipe_mode, dialog_mode, file_mode, fan_mode>(), 2);
	return true;
}();

} // namespace
