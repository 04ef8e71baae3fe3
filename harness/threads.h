// Multi-threaded workloads. The order in which operations of the threads took effect is recorded through a relaxed ticket
// counter (which creates no happens-before edge, so ThreadSanitizer still sees every missing synchronisation).
#pragma once
#include "util.h"
#include <thread>
#include <memory>
#include <mutex>
namespace H
{
	struct Interleaving
	{
		std::vector<unsigned char> order; std::atomic<size_t> at{ 0 };
		Interleaving(size_t n) : order(n) {}
		void step(int tid) { size_t i = at.fetch_add(1, std::memory_order_relaxed); if (i < order.size()) order[i] = (unsigned char)tid; }
		// fold into the history hash (after all threads joined); returns the number of context switches seen
		long fold() { long sw = 0; size_t n = std::min(order.size(), at.load()); for (size_t i = 0; i < n; i++) { op(order[i]); if (i && order[i] != order[i - 1]) sw++; } return sw; }
	};
	inline void jitter(Rng& r) { switch (r.below(24)) { case 0: case 1: sched_yield(); break; case 2: for (volatile int i = 0; i < 200; i = i + 1) {} break; case 3: if (r.chance(1, 12)) { timespec t{ 0, 20000 }; nanosleep(&t, nullptr); } break; } }
	template<typename F> long parallel(Rng& rng, int n, size_t steps, F body)
	{
		Interleaving il(steps * n); std::atomic<int> ready{ 0 }; std::vector<std::thread> ts; u64 seed = rng.next();
		for (int t = 0; t < n; t++) ts.emplace_back([&, t] { Rng r(mix(seed + t)); ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield(); body(t, r, il); });
		for (auto& t : ts) t.join();
		long sw = il.fold(); count("context_switches", sw); count("thread_operations", std::min(il.order.size(), il.at.load())); if (sw > n) nontrivial(); return sw;
	}
	// rounds in which all threads start from one fresh common original (made by thread 0, which also disposes of it)
	struct Rendezvous
	{
		int n; std::atomic<long> in{ 0 };
		Rendezvous(int _n) : n(_n) {}
		void meet(long k) { in.fetch_add(1, std::memory_order_acq_rel); int spins = 0; while (in.load(std::memory_order_acquire) < (k + 1) * n) if (++spins > 300) sched_yield(); }
	};
}
