// C07: failing allocations surface as bad_alloc without loss, leak or corruption
#include "reduce.hpp"

#include <new>

namespace {

struct Faults {
	std::uint32_t first, gap, count;
	explicit Faults(std::uint32_t horizon)
		: first(1 + sim::decide(sim::K_FAULT, horizon)), gap(1 + sim::decide(sim::K_FAULT, 4)),
		  count(1 + sim::decide(sim::K_FAULT, 4)) {
		if (count == 4)
			count = 100000; // memory does not come back
	}
};

template<class Fn>
bool throws_bad_alloc(Fn &&fn) {
	try {
		fn();
	} catch (const std::bad_alloc &) {
		return true;
	}
	return false;
}

struct Hook {
	int *running;
	void neut() const { sim::step(1); }
	void acc(const Key &) const {
		{
			const sim::Pause p;
			++*running;
		}
		sim::step(1);
		const sim::Pause p;
		--*running;
	}
	void join() const { sim::step(1); }
};

template<class Out, bool Bag>
struct red_op {
	static constexpr bool bag = Bag;
	using type = Out;
	static constexpr const char *name = Bag ? Out::name : Out::ptr_name;
};

template<class Case, class O>
struct RedScen {
	static void run() {
		Case::with([](const auto &t, const auto &, const Space &m) {
			using Out = typename O::type;
			std::vector<Ent> *want;
			red::Job<Out> *job;
			const Faults fl(12);
			{
				const sim::Pause p;
				want = new std::vector<Ent>(m.all());
				job = new red::Job<Out>(*want);
				sim::note("%s tbb_reduce %s team=%d space=%s allocation faults: first=%u gap=%u count=%u", Case::name, O::name,
				          sim::team(), m.text().c_str(), fl.first, fl.gap, fl.count);
			}
			int running = 0;
			const Hook h{&running};
			const auto mark = sim::alloc_mark();
			const auto before = sim::alloc_faults_fired();
			sim::alloc_fault_plan(fl.first, fl.gap, fl.count);
			const bool threw = throws_bad_alloc([&] { red::reduce<Out, O::bag>(t, job->ext, job->op, job->buf, h); });
			sim::alloc_fault_off();
			const auto fired = sim::alloc_faults_fired() - before;
			if (running)
				sim::fail("returned_early", "tbb_reduce returned while %d callbacks were running", running);
			if (fired && !threw)
				sim::fail("failure_lost", "%u allocations failed, tbb_reduce did not throw", fired);
			if (!fired && threw)
				sim::fail("spurious_exception", "bad_alloc without a failed allocation");
			if (fired > 1)
				sim::probe("several_allocations_failed");
			if (!threw) {
				const sim::Pause p;
				job->expect_one();
			}
			job->check(threw ? "output after bad_alloc" : "no failure");
			hist::drain();
			if (const auto n = sim::live_blocks_since(mark))
				sim::fail("leak", "tbb_reduce: %zu blocks still allocated after bad_alloc", n);
			{
				const sim::Pause p;
				job->expect_one();
			}
			red::reduce<Out, O::bag>(t, job->ext, job->op, job->buf, h);
			job->check("repeated with memory");
			const sim::Pause p;
			delete job;
			delete want;
		});
	}
};

// ---- owning bags ----
struct mk_make_bag {
	static constexpr const char *name = "make_bag";
	static constexpr bool writable = true;
	static auto make(const auto &s) { return noarr::make_bag(s); }
};
struct mk_unique {
	static constexpr const char *name = "make_unique_bag";
	static constexpr bool writable = true;
	static auto make(const auto &s) { return noarr::make_unique_bag(s); }
};
struct mk_bag {
	static constexpr const char *name = "bag";
	static constexpr bool writable = true;
	static auto make(const auto &s) { return noarr::bag(s); }
};
struct mk_vector {
	static constexpr const char *name = "make_vector_bag";
	static constexpr bool writable = false;
	static auto make(const auto &s) { return noarr::make_vector_bag(s); }
};

template<class T, class S, class Mk>
struct BagTask {
	const T *t;
	const S *s;
	int count;
	static void go(void *arg) {
		const auto *a = static_cast<const BagTask *>(arg);
		const std::size_t size = *a->s | noarr::get_size();
		for (int i = 0; i < a->count; i++) {
			const auto fired = sim::alloc_faults_fired();
			bool threw = true;
			try {
				auto b = Mk::make(*a->s);
				threw = false;
				const char *d = static_cast<const char *>(static_cast<const void *>(b.data()));
				if (size) {
					const sim::Pause p;
					if (!d || !sim::addr_live(d, size))
						sim::fail("bad_block", "%s: the block is smaller than %zu bytes", Mk::name, size);
				}
				if constexpr (Mk::writable) {
					const auto salt = static_cast<std::uint64_t>(sim::self() * 16 + i);
					a->t->for_each([&](auto st) { b[st] = static_cast<std::remove_reference_t<decltype(b[st])>>(red::weight(key_of(st)) + salt); });
					auto c = std::move(b);
					a->t->for_each([&](auto st) {
						if (c[st] != static_cast<std::remove_cvref_t<decltype(c[st])>>(red::weight(key_of(st)) + salt))
							sim::fail("wrong_value", "%s: an element lost its value", Mk::name);
					});
				} else {
					unsigned sum = 0;
					for (std::size_t x = 0; x < size; x++)
						sum += static_cast<unsigned char>(d[x]);
					sim::mix(sum);
				}
			} catch (const std::bad_alloc &) {
				sim::probe("bag_construction_failed");
			}
			if (threw && fired == sim::alloc_faults_fired())
				sim::fail("spurious_exception", "%s: bad_alloc without a failed allocation", Mk::name);
			sim::step(1);
		}
	}
};

template<class Case, class Mk>
struct BagScen {
	static void run() {
		Case::with([](const auto &t, const auto &s, const Space &m) {
			const int threads = static_cast<int>(sim::param(4));
			const Faults fl(6);
			sim::note("%s %s space=%s threads=%d allocation faults: first=%u gap=%u count=%u", Case::name, Mk::name, m.text().c_str(),
			          threads, fl.first, fl.gap, fl.count);
			using Task = BagTask<std::remove_cvref_t<decltype(t)>, std::remove_cvref_t<decltype(s)>, Mk>;
			Task task{&t, &s, static_cast<int>(1 + sim::param(4))};
			int tid[4];
			const auto mark = sim::alloc_mark();
			sim::alloc_fault_plan(fl.first, fl.gap, fl.count);
			for (int i = 0; i < threads; i++)
				tid[i] = sim::spawn(Task::go, &task);
			Task::go(&task);
			for (int i = 0; i < threads; i++)
				sim::join(tid[i]);
			sim::alloc_fault_off();
			if (const auto n = sim::live_blocks_since(mark))
				sim::fail("leak", "%s: %zu blocks still allocated", Mk::name, n);
		});
	}
};

// ---- sizes that no machine has: the request must fail, never be cut down ----
struct beyond {
	static constexpr const char *name = "beyond_4GiB";
};
template<class Mk, class>
struct HugeBag {
	static void run() {
		const std::size_t n = (std::size_t(1) << (29 + sim::param(18))) * (1 + sim::param(3)) + sim::param(9);
		const auto s = scalar<double>() ^ vector<'i'>(n);
		sim::note("%s of %zu doubles", Mk::name, n);
		const auto mark = sim::alloc_mark();
		bool threw = true;
		try {
			const auto b = Mk::make(s);
			threw = false;
			const sim::Pause p;
			const char *d = static_cast<const char *>(static_cast<const void *>(b.data()));
			if (!d || !sim::addr_live(d, n * sizeof(double)))
				sim::fail("bad_block", "%s: constructed with a block smaller than %zu bytes", Mk::name, n * sizeof(double));
		} catch (const std::bad_alloc &) {
		}
		if (!threw)
			sim::fail("internal", "the simulated heap served an impossible request");
		if (const auto k = sim::live_blocks_since(mark))
			sim::fail("leak", "%s: %zu blocks still allocated", Mk::name, k);
	}
};
template<class, class>
struct HugeReduce {
	static void run() {
		const std::size_t n = (std::size_t(1) << (30 + sim::param(18))) * (1 + sim::param(3)) + sim::param(9);
		const std::size_t k = 1 + sim::param(12);
		const auto in = scalar<int>() ^ vector<'i'>(k);
		const auto out = scalar<int>() ^ vector<'j'>(n);
		sim::note("tbb_reduce of %zu elements into %zu team=%d", k, n, sim::team());
		const auto mark = sim::alloc_mark();
		const bool threw = throws_bad_alloc([&] {
			noarr::tbb_reduce(
				traverser(in), [&](auto st, void *p) { (out | noarr::get_at(p, st)) = 0; },
				[&](auto st, void *p) { (out | noarr::get_at(p, noarr::idx<'j'>(noarr::get_index<'i'>(st)))) += 1; },
				[&](auto, void *, const void *) { sim::fail("partial_join", "joined although no private copy can exist"); }, out, nullptr);
		});
		if (!threw)
			sim::fail("failure_lost", "tbb_reduce: an impossible allocation was not reported");
		hist::drain(); // the workers let go of the exception
		if (const auto b = sim::live_blocks_since(mark))
			sim::fail("leak", "tbb_reduce: %zu blocks still allocated", b);
	}
};

using namespace red;
const bool registered = [] {
	sim::options().leak_is_violation = true;
	register_grid<RedScen>(cases::Cat<cases::Core, cases::List<cases::v1_slice, cases::v2_zcurve, cases::v3_hoist2>>::type(),
	                       cases::List<red_op<out_scalar, true>, red_op<out_hist, false>, red_op<out_unrelated_B, true>>(), 4);
	register_grid<RedScen>(cases::List<cases::v1, cases::v2, cases::v2_hoist, cases::v2_tiles, cases::v2_merge>(),
	                       cases::List<red_op<out_i, true>, red_op<out_ij, false>, red_op<out_tuple_i, true>>(), 2);
	register_grid<BagScen>(cases::List<cases::v1, cases::v2_tuple, cases::v2_zcurve, cases::lay_tiled, cases::v2_soa>(),
	                       cases::List<mk_make_bag, mk_unique, mk_bag, mk_vector>(), 3);
	register_grid<HugeBag>(cases::List<mk_make_bag, mk_unique, mk_bag, mk_vector>(), cases::List<beyond>(), 1);
	register_grid<HugeReduce>(cases::List<beyond>(), cases::List<beyond>(), 3);
	return true;
}();

} // namespace
