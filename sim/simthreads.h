// Deterministic thread scheduler.  The code under test is compiled with
// -fsanitize=thread; simthreads.cpp supplies the runtime: every memory access and every
// synchronisation operation is a point at which the plan can switch threads, and a
// happens-before detector reports conflicting accesses that nothing orders.
#pragma once
#include "sim.h"
namespace sched {
	/// one entry: after `delay` further points, go on with thread `to`
	struct Switch {
		long delay;
		int to;
	};
	struct Body {
		int id; // 1..3; names the thread's random stream
		std::function<void()> run;
	};
	/// run the bodies to completion, interleaved as the switches say
	void run(const std::vector<Body>& bodies, const std::vector<Switch>& switches);
	int self();
	/// a scheduling point of the harness itself (a callback seam)
	void point();
	/// code in its scope belongs to the harness: not interleaved, not watched
	struct Outside {
		Outside();
		~Outside();
	};
	/// the current thread's random stream starts again
	void stream(sim::u64 seed);
	struct Stats {
		long points = 0, preemptions = 0, blocked = 0, locks = 0, threads = 0;
	};
	const Stats& stats();
	/// order-sensitive signature of the interleaving so far (switch positions by point kind)
	sim::u64 signature();
}
