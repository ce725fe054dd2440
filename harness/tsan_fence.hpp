// ThreadSanitizer does not model stand-alone fences, which Taskflow's queue
// relies on. Replace each by a read-modify-write of one global atomic: it
// synchronises at least as much as the fence, so the scheduler itself is not
// reported, while steps that really overlap remain unordered.
#pragma once
#include <atomic>
namespace std {
inline std::atomic<unsigned> verif_fence_word{0};
inline void verif_fence(std::memory_order) { verif_fence_word.fetch_add(1, std::memory_order_seq_cst); }
} // namespace std
#define atomic_thread_fence verif_fence
