// Forced into every source of the race-detector build, before Taskflow.  ThreadSanitizer does not model stand-alone fences, which Taskflow's
// work-stealing queue uses; a fence becomes a read-modify-write of one atomic and relaxed accesses become sequentially consistent.  Both only
// add happens-before edges, so no race is reported that the original would not have.
#pragma once
#include <bits/stdc++.h>
namespace std {
inline void verif_fence(int) {
  static atomic<int> x{0};
  x.fetch_add(1, memory_order_acq_rel);
}
} // namespace std
#define atomic_thread_fence(o) verif_fence(0)
#define memory_order_relaxed memory_order_seq_cst
#define memory_order_acquire memory_order_seq_cst
#define memory_order_release memory_order_seq_cst
#define memory_order_consume memory_order_seq_cst
