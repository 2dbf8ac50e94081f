// A CUDA device as simulated threads: thread/block coordinates, launches without barriers (any number of CUDA threads,
// executed in any order by a few simulated threads) and launches with __syncthreads (one simulated thread each).
#ifndef VERIF_CUDA_STUB_HPP
#define VERIF_CUDA_STUB_HPP

#include "../../sim/core.hpp"

#include <vector>

#define __device__
#define __host__
#define __global__

using uint = unsigned;
struct dim3 {
	uint x = 1, y = 1, z = 1;
};

namespace cuda_stub {

inline sim::ThreadLocalSlot &tls() { return sim::tls_of_self(); }
inline dim3 of(const unsigned (&a)[3]) { return dim3{a[0], a[1], a[2]}; }

inline void place(const dim3 &g, const dim3 &b, std::uint64_t block, std::uint64_t thread) {
	auto &t = tls();
	t.grid_dim[0] = g.x, t.grid_dim[1] = g.y, t.grid_dim[2] = g.z;
	t.block_dim[0] = b.x, t.block_dim[1] = b.y, t.block_dim[2] = b.z;
	t.thread_idx[0] = static_cast<unsigned>(thread % b.x);
	t.thread_idx[1] = static_cast<unsigned>(thread / b.x % b.y);
	t.thread_idx[2] = static_cast<unsigned>(thread / b.x / b.y);
	t.block_idx[0] = static_cast<unsigned>(block % g.x);
	t.block_idx[1] = static_cast<unsigned>(block / g.x % g.y);
	t.block_idx[2] = static_cast<unsigned>(block / g.x / g.y);
}

inline std::uint64_t volume(const dim3 &d) { return std::uint64_t(d.x) * d.y * d.z; }

template<class Kernel>
struct Launch {
	dim3 g, b;
	const Kernel *kernel;
	std::vector<std::uint32_t> *todo;
	static void worker(void *arg) {
		const auto *l = static_cast<const Launch *>(arg);
		for (;;) {
			std::uint32_t x;
			{
				const sim::Pause p;
				auto &v = *l->todo;
				if (v.empty())
					return;
				const auto i = sim::decide(sim::K_TASK, static_cast<std::uint32_t>(v.size()));
				x = v[i];
				v[i] = v.back();
				v.pop_back();
			}
			place(l->g, l->b, x / volume(l->b), x % volume(l->b));
			(*l->kernel)();
			sim::step(1);
		}
	}
};

// no barriers: every CUDA thread runs once, in any order, on `workers` simulated threads
template<class Kernel>
void launch(const dim3 &g, const dim3 &b, const Kernel &kernel, int workers) {
	Launch<Kernel> l{g, b, &kernel, nullptr};
	const auto n = volume(g) * volume(b);
	{
		const sim::Pause p;
		l.todo = new std::vector<std::uint32_t>();
		for (std::uint64_t i = 0; i < n; i++)
			l.todo->push_back(static_cast<std::uint32_t>(i));
	}
	std::vector<int> *tids;
	{
		const sim::Pause p;
		tids = new std::vector<int>();
		tids->reserve(workers);
	}
	for (int i = 0; i < workers; i++) {
		const int t = sim::spawn(Launch<Kernel>::worker, &l);
		const sim::Pause p;
		tids->push_back(t);
	}
	for (int i = 0; i < workers; i++)
		sim::join((*tids)[i]);
	const sim::Pause p;
	delete tids;
	delete l.todo;
}

// ---- one block with barriers
struct Block {
	unsigned total, arrived = 0, generation = 0, exited = 0;
};
inline Block *&block_of_self() {
	static Block *b[sim::MAXT];
	return b[sim::self()];
}
inline void syncthreads() {
	Block *b = block_of_self();
	sim::hb_release(b);
	struct W {
		Block *b;
		unsigned gen;
	} w{b, 0};
	{
		const sim::Pause p;
		w.gen = b->generation;
		if (++b->arrived == b->total) {
			b->arrived = 0;
			b->generation++;
		}
	}
	sim::wait_until(
		[](void *a) {
			const W *x = static_cast<const W *>(a);
			return x->b->generation != x->gen;
		},
		&w);
	sim::hb_acquire(b);
}

template<class Kernel>
struct BlockLaunch {
	dim3 g, b;
	std::uint64_t block;
	const Kernel *kernel;
	Block *state;
	struct One {
		const BlockLaunch *l;
		std::uint64_t thread;
	};
	static void run(void *arg) {
		const One *o = static_cast<const One *>(arg);
		place(o->l->g, o->l->b, o->l->block, o->thread);
		block_of_self() = o->l->state;
		(*o->l->kernel)();
	}
};

// one block of g x b with barriers, one simulated thread per CUDA thread
template<class Kernel>
void launch_block(const dim3 &g, const dim3 &b, std::uint64_t block, const Kernel &kernel) {
	using L = BlockLaunch<Kernel>;
	const auto n = static_cast<unsigned>(volume(b));
	Block *state;
	typename L::One *ones;
	int *tids;
	L l{g, b, block, &kernel, nullptr};
	{
		const sim::Pause p;
		state = new Block{n};
		ones = new typename L::One[n];
		tids = new int[n];
		l.state = state;
		for (unsigned i = 0; i < n; i++)
			ones[i] = typename L::One{&l, i};
	}
	for (unsigned i = 0; i < n; i++)
		tids[i] = sim::spawn(L::run, &ones[i]);
	for (unsigned i = 0; i < n; i++)
		sim::join(tids[i]);
	const sim::Pause p;
	delete state;
	delete[] ones;
	delete[] tids;
}

} // namespace cuda_stub

#define threadIdx (::cuda_stub::of(::cuda_stub::tls().thread_idx))
#define blockIdx (::cuda_stub::of(::cuda_stub::tls().block_idx))
#define blockDim (::cuda_stub::of(::cuda_stub::tls().block_dim))
#define gridDim (::cuda_stub::of(::cuda_stub::tls().grid_dim))

#endif
