// Stand-in for CUDA's cooperative_groups.h: the groups noarr uses, over the simulated grid.
#ifndef VERIF_COOPERATIVE_GROUPS_H
#define VERIF_COOPERATIVE_GROUPS_H
#include "cuda_stub.hpp"

namespace cooperative_groups {

struct thread_block {
	static unsigned thread_rank() {
		const auto &t = cuda_stub::tls();
		return (t.thread_idx[2] * t.block_dim[1] + t.thread_idx[1]) * t.block_dim[0] + t.thread_idx[0];
	}
	static unsigned num_threads() {
		const auto &t = cuda_stub::tls();
		return t.block_dim[0] * t.block_dim[1] * t.block_dim[2];
	}
};

struct grid_group {
	static unsigned long long thread_rank() {
		const auto &t = cuda_stub::tls();
		const unsigned long long b = (t.block_idx[2] * 1ULL * t.grid_dim[1] + t.block_idx[1]) * t.grid_dim[0] + t.block_idx[0];
		return b * thread_block::num_threads() + thread_block::thread_rank();
	}
	static unsigned long long num_threads() {
		const auto &t = cuda_stub::tls();
		return 1ULL * t.grid_dim[0] * t.grid_dim[1] * t.grid_dim[2] * thread_block::num_threads();
	}
};

// tiles of N consecutive threads of a block
template<unsigned N>
struct thread_block_tile {
	unsigned thread_rank() const { return thread_block::thread_rank() % N; }
	unsigned num_threads() const {
		const unsigned first = thread_block::thread_rank() / N * N, total = thread_block::num_threads();
		return total - first < N ? total - first : N;
	}
	unsigned meta_group_rank() const { return thread_block::thread_rank() / N; }
};

} // namespace cooperative_groups
#endif
