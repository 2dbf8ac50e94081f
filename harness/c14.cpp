// C14: const structures, traversers, planners, ranges, iterators and bags may be shared by threads
#include "owner.hpp"

#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/interop/planner_iter.hpp>
#include <noarr/structures/interop/serialize_data.hpp>

#include <sstream>

namespace {

struct Digest {
	std::uint64_t h = 0x243f6a8885a308d3ULL;
	void add(std::uint64_t x) {
		h = (h ^ x) * 0xff51afd7ed558ccdULL;
		h ^= h >> 29;
	}
	void add(const Key &k) {
		for (int i = 0; i < model::NK; i++)
			add(static_cast<std::uint64_t>(k.v[i] + 1));
	}
};

template<class T>
concept has_range = requires(const T &t) { typename std::enable_if_t<!decltype(t.top_struct())::signature::dependent>; };

// the objects all threads share
template<class S, class T, class B, class P>
struct Shared {
	const S *s;
	const T *t;
	const B *bag;     // read by everyone
	const B *out;     // written by everyone, distinct elements
	const P *planner; // ending: adds to the accumulator of the running thread
	Digest **acc;
	int nthreads;
	std::uint64_t salt;
	const unsigned char *outbuf;
	std::uint64_t model; // sum of offsets according to the reference model, 0 = not modelled
};

enum Query { LENGTHS, OFFSETS, SECTIONS, RANGE, ITERATORS, READS, WRITES, ORDERED, SLICED, PLANNER, PLANNER_SECTIONS, PLANNER_RANGE, TEXT, REF, NQ };
const char *const query_names[] = {"lengths", "offsets", "sections", "range", "iterators", "reads", "writes", "ordered", "sliced", "planner",
                                   "planner_sections", "planner_range", "text", "ref"};

template<class Sh>
[[gnu::noinline]] std::uint64_t offsets(const Sh &x) {
	std::uint64_t sum = 0; // in any order
	const auto &s = *x.s;
	x.t->for_each([&](auto st) {
		Digest d;
		d.add(key_of(st));
		d.add(s | noarr::offset<noarr::scalar<std::remove_cvref_t<decltype(s | noarr::get_at(static_cast<char *>(nullptr), st))>>>(st));
		sum += d.h;
	});
	return sum;
}
std::uint64_t model_offsets(const Space &m) {
	std::uint64_t sum = 0;
	for (const Ent &e : m.all()) {
		Digest d;
		d.add(e.k);
		d.add(static_cast<std::uint64_t>(e.off));
		sum += d.h;
	}
	return sum;
}
template<class Sh>
[[gnu::noinline]] std::uint64_t lengths(const Sh &x) {
	Digest d;
	const auto &s = *x.s;
	d.add(s | noarr::get_size());
	d.add(x.bag->size());
	const auto top = x.t->top_struct();
	using top_t = std::remove_cvref_t<decltype(top)>;
	if constexpr (!top_t::signature::dependent)
		d.add(top | noarr::get_length<top_t::signature::dim>());
	using s_t = std::remove_cvref_t<decltype(s)>;
	if constexpr (!s_t::signature::dependent) {
		d.add(s | noarr::get_length<s_t::signature::dim>());
		d.add(x.bag->template length<s_t::signature::dim>());
	}
	return d.h;
}
template<class Sh>
[[gnu::noinline]] std::uint64_t sections(const Sh &x) {
	Digest d;
	x.t->for_sections([&](auto sec) {
		d.add(key_of(sec.state()));
		sec.for_each([&](auto st) { d.add(key_of(st)); });
	});
	return d.h;
}
template<class Sh>
[[gnu::noinline]] std::uint64_t ranges(const Sh &x, std::uint32_t a, std::uint32_t b) {
	Digest d;
	const auto r = x.t->range();
	d.add(r.size());
	d.add(r.empty());
	d.add(r.is_divisible());
	for (auto sec : r)
		sec.for_each([&](auto st) { d.add(key_of(st)); });
	if (r.size()) {
		const auto i = a % r.size();
		r[i].for_each([&](auto st) { d.add(key_of(st)); });
		(r.begin() + static_cast<std::ptrdiff_t>(b % r.size()))[0].for_each([&](auto st) { d.add(key_of(st)); });
	}
	r.as_traverser().for_each([&](auto st) { d.add(key_of(st)); });
	return d.h;
}
template<class Sh>
[[gnu::noinline]] std::uint64_t iterators(const Sh &x, std::uint32_t a) {
	Digest d;
	auto it = x.t->begin();
	const auto end = x.t->end();
	const auto n = end - it;
	d.add(static_cast<std::uint64_t>(n));
	if (n > 0) {
		it += a % n;
		(*it).for_each([&](auto st) { d.add(key_of(st)); });
		d.add(static_cast<std::uint64_t>(end - it));
		d.add(it < end);
	}
	return d.h;
}
template<class Sh>
[[gnu::noinline]] std::uint64_t reads(const Sh &x) {
	Digest d;
	const auto &bag = *x.bag;
	x.t->for_each([&](auto st) { d.add(static_cast<std::uint64_t>(bag[st])); });
	return d.h;
}
template<class Sh>
[[gnu::noinline]] void writes(const Sh &x, int me) {
	const auto &out = *x.out;
	x.t->for_each([&](auto st) {
		const Key k = key_of(st);
		if (own::hash_key(k, 7) % static_cast<unsigned>(x.nthreads) == static_cast<unsigned>(me))
			out[st] = own::value<std::remove_reference_t<decltype(out[st])>>(k, x.salt);
	});
}
template<class Sh>
[[gnu::noinline]] std::uint64_t ordered(const Sh &x, std::uint32_t a) {
	Digest d;
	using top_t = std::remove_cvref_t<decltype(x.t->top_struct())>;
	if constexpr (!top_t::signature::dependent) {
		constexpr auto dim = top_t::signature::dim;
		const std::size_t n = x.t->top_struct() | noarr::get_length<dim>();
		const std::size_t from = a % (n + 1);
		(*x.t ^ shift<dim>(from) ^ reverse<dim>()).for_each([&](auto st) { d.add(key_of(st)); });
		if (n)
			x.t->order(fix<dim>(a % n)).for_each([&](auto st) { d.add(key_of(st)); });
	}
	return d.h;
}
template<class Sh>
[[gnu::noinline]] std::uint64_t sliced(const Sh &x, std::uint32_t a) {
	Digest d;
	using s_t = std::remove_cvref_t<decltype(*x.s)>;
	if constexpr (!s_t::signature::dependent) {
		constexpr auto dim = s_t::signature::dim;
		const std::size_t n = *x.s | noarr::get_length<dim>();
		const std::size_t from = a % (n + 1);
		const auto part = *x.s ^ slice<dim>(from, n - from);
		traverser(part).for_each([&](auto st) {
			d.add(reinterpret_cast<std::uintptr_t>(&(part | noarr::get_at(static_cast<const char *>(nullptr), st))));
		});
	}
	return d.h;
}
template<class Sh>
[[gnu::noinline]] std::uint64_t planner_run(const Sh &x, int which) {
	Digest d;
	x.acc[sim::self()] = &d;
	if (which == 0)
		x.planner->execute();
	else if (which == 1)
		(*x.planner ^ noarr::neutral_proto()).execute();
	else if constexpr (requires { range(*x.planner); }) {
		const auto r = range(*x.planner);
		for (std::size_t i = 0; i < r.size(); i++)
			r[i].execute();
	}
	x.acc[sim::self()] = nullptr;
	return d.h;
}
template<class Sh>
[[gnu::noinline]] std::uint64_t text(const Sh &x) {
	std::ostringstream o;
	noarr::serialize_data(o, *x.bag);
	Digest d;
	const std::string t = o.str();
	for (char c : t)
		d.add(static_cast<unsigned char>(c));
	return d.h;
}
template<class Sh>
[[gnu::noinline]] std::uint64_t refs(const Sh &x) {
	Digest d;
	const auto ref = x.bag->get_ref();
	x.t->for_each([&](auto st) {
		d.add(static_cast<std::uint64_t>(ref[st]));
		d.add(static_cast<std::uint64_t>(reinterpret_cast<const char *>(&ref[st]) - static_cast<const char *>(ref.data())));
	});
	return d.h;
}

template<class Sh>
std::uint64_t ask(const Sh &x, int q, std::uint32_t a, std::uint32_t b) {
	using T = std::remove_cvref_t<decltype(*x.t)>;
	constexpr bool ranged = !std::remove_cvref_t<decltype(std::declval<T>().top_struct())>::signature::dependent;
	switch (q) {
	case LENGTHS: return lengths(x);
	case OFFSETS: return offsets(x);
	case SECTIONS:
		if constexpr (ranged)
			return sections(x);
		return 0;
	case RANGE:
		if constexpr (ranged)
			return ranges(x, a, b);
		return 0;
	case ITERATORS:
		if constexpr (ranged)
			return iterators(x, a);
		return 0;
	case READS: return reads(x);
	case ORDERED: return ordered(x, a);
	case SLICED: return sliced(x, a);
	case PLANNER: return planner_run(x, 0);
	case PLANNER_SECTIONS: return planner_run(x, 1);
	case PLANNER_RANGE: return planner_run(x, 2);
	case TEXT: return text(x);
	case REF: return refs(x);
	}
	return 0;
}

struct Plan {
	int q, w; // query, of which of the two objects
	std::uint32_t a, b;
	std::uint64_t want;
};
template<class Sh>
struct Thread {
	const Sh *const *sh; // two objects of the same type and different parameters
	int me, n;
	Plan plan[8];
	std::uint64_t get(const Plan &q) const {
		const auto got = ask(*sh[q.w], q.q, q.a, q.b);
		if (q.q == OFFSETS && sh[q.w]->model && got != sh[q.w]->model)
			sim::fail("wrong_answer", "thread %d: offsets differ from the reference model", me);
		return got;
	}
	void write(const Plan &q) const { writes(*sh[q.w], me); }
	static void run(void *p) {
		auto &t = *static_cast<Thread *>(p);
		for (int i = 0; i < t.n; i++) {
			const Plan &q = t.plan[i];
			if (q.q == WRITES)
				t.write(q);
			else if (t.get(q) != q.want)
				sim::fail("other_answer", "query '%s' by thread %d gives another answer than alone", query_names[q.q], t.me);
		}
	}
	static void run_first(void *p) { // nothing asked before
		auto &x = *static_cast<Thread *>(p);
		for (int k = 0; k < x.n; k++)
			if (x.plan[k].q == WRITES)
				x.write(x.plan[k]);
			else
				x.plan[k].want = x.get(x.plan[k]);
	}
};

struct shared {
	static constexpr const char *name = "shared";
};

unsigned char in_byte(std::size_t i, std::uint64_t salt) {
	return static_cast<unsigned char>(own::hash_key(Key{{static_cast<i64>(i), 0, 0, 0, 0, 0}}, salt) % 64 + 33);
}

// one object and everything derived from it that is shared
template<class T, class S>
struct World {
	const T t;
	const S s;
	std::uint64_t salt;
	std::size_t size;
	unsigned char *in, *outbuf;
	decltype(noarr::make_bag(std::declval<const S &>(), std::declval<void *>())) bag, out;
	static auto make_planner(const auto &bag, const auto &t, Digest **acc) {
		return (noarr::planner(bag) ^ t.get_order()).for_each_elem([acc](const auto &st, auto &e) {
			Digest *d;
			{
				const sim::Pause p;
				d = acc[sim::self()];
			}
			d->add(key_of(st));
			d->add(static_cast<std::uint64_t>(e));
		});
	}
	using planner_t = decltype(make_planner(std::declval<const decltype(bag) &>(), std::declval<const T &>(), nullptr));
	using Sh = Shared<S, T, decltype(bag), planner_t>;
	static unsigned char *filled(std::size_t n, std::uint64_t salt) {
		const sim::Pause p;
		auto *b = static_cast<unsigned char *>(sim::buffer(n, own::FILL));
		if (salt)
			for (std::size_t i = 0; i < n; i++)
				b[i] = in_byte(i, salt);
		return b;
	}
	const planner_t planner;
	const Sh sh;
	World(const T &t_, const S &s_, const Space &m, std::uint64_t salt_, Digest **acc, int n)
		: t(t_), s(s_), salt(salt_), size(s | noarr::get_size()), in(filled(size, salt)), outbuf(filled(size, 0)),
		  bag(noarr::make_bag(s, static_cast<void *>(in))), out(noarr::make_bag(s, static_cast<void *>(outbuf))),
		  planner(make_planner(bag, t, acc)), sh{&s, &t, &bag, &out, &planner, acc, n, salt, outbuf, 0} {
		const sim::Pause p;
		if (m.exact)
			const_cast<std::uint64_t &>(sh.model) = model_offsets(m);
	}
	~World() {
		sim::buffer_free(in);
		sim::buffer_free(outbuf);
	}
	// everything written to distinct elements is there, the input is as it was
	void check(const Space &m, bool written) const {
		std::uint64_t sum = 0;
		t.for_each([&](auto st) {
			const Key k = key_of(st);
			auto &e = out[st];
			if (written && e != own::value<std::remove_cvref_t<decltype(e)>>(k, salt))
				sim::fail("lost_write", "element %s does not hold what was written", model::show(k).c_str());
			sum++;
		});
		const sim::Pause p;
		if (sum != m.all().size())
			sim::fail("traversal", "%llu elements visited", (unsigned long long)sum);
		for (std::size_t i = 0; i < size; i++)
			if (in[i] != in_byte(i, salt))
				sim::fail("input_modified", "byte %zu of the shared input was modified", i);
	}
};

template<class Case, class>
struct Scen {
	template<class T, class S>
	static void go(const T &t1, const S &s1, const Space &m1, const T &t2, const S &s2, const Space &m2) {
		Digest **acc;
		const auto salt = 1 + sim::decide(sim::K_DATA, 1000);
		const int n = static_cast<int>(sim::range(2, 5));
		{
			const sim::Pause p;
			acc = new Digest *[320]();
		}
		using W = World<T, S>;
		using Sh = typename W::Sh;
		using Th = Thread<Sh>;
		const bool two = sim::param(2);
		const W w1(t1, s1, m1, salt, acc, n), w2(t2, s2, m2, salt + 7, acc, n);
		const Sh *const sh[2] = {&w1.sh, &w2.sh};
		Th *th;
		int tids[8];
		{
			const sim::Pause p;
			th = new Th[static_cast<std::size_t>(n)];
			sim::note("%s shared by %d threads, space=%s", Case::name, n, m1.text().c_str());
			if (two)
				sim::note("%s shared by %d threads, space=%s and space=%s", Case::name, n, m1.text().c_str(), m2.text().c_str());
		}
		for (int i = 0; i < n; i++) {
			th[i].sh = sh;
			th[i].me = i;
			th[i].n = static_cast<int>(sim::range(1, 5));
			for (int k = 0; k < th[i].n; k++) {
				Plan &p = th[i].plan[k];
				p.q = static_cast<int>(sim::decide(sim::K_DATA, NQ));
				p.w = two ? static_cast<int>(sim::decide(sim::K_DATA, 2)) : 0;
				p.a = sim::decide(sim::K_DATA, 1000);
				p.b = sim::decide(sim::K_DATA, 1000);
			}
			for (int k = 0; k < th[i].n; k++)
				if (!Case::inj && th[i].plan[k].q == WRITES)
					th[i].plan[k].q = READS;
			if (Case::inj)
				for (int w = 0; w <= two; w++) { // once by everybody
					Plan &p = th[i].plan[th[i].n++];
					p.q = WRITES;
					p.w = w;
				}
		}
		// answers that a thread gets alone: asked before, or only after the others are done (nothing warmed up)
		const bool before = sim::param(2);
		if (before)
			for (int i = 0; i < n; i++)
				for (int k = 0; k < th[i].n; k++)
					if (th[i].plan[k].q != WRITES)
						th[i].plan[k].want = th[i].get(th[i].plan[k]);
		for (int i = 0; i < n; i++)
			tids[i] = sim::spawn(before ? Th::run : Th::run_first, &th[i]);
		for (int i = 0; i < n; i++)
			sim::join(tids[i]);
		if (!before)
			for (int i = 0; i < n; i++)
				for (int k = 0; k < th[i].n; k++)
					if (const Plan &q = th[i].plan[k]; q.q != WRITES && th[i].get(q) != q.want)
						sim::fail("other_answer", "query '%s' of thread %d gave another answer than alone", query_names[q.q], i);
		w1.check(m1, Case::inj);
		w2.check(m2, Case::inj && two);
		const sim::Pause p;
		delete[] acc;
		delete[] th;
	}
	static void run() {
		Case::with([](const auto &t1, const auto &s1, const Space &m1) {
			Case::with([&](const auto &t2, const auto &s2, const Space &m2) { go(t1, s1, m1, t2, s2, m2); });
		});
	}
};

const bool registered = [] {
	using namespace cases;
	scale().typical = 4;
	scale().big = 24;
	register_grid<Scen>(typename Cat<OneD, TwoD, List<v3, v3_reorder, v3_hoist2, v3_merge_tile, v4>, Lay>::type(), List<shared>(), 2);
	return true;
}();

} // namespace
