// C13: measured durations are those of the monotone clock, whatever happens to the
// system time, however often a timer is read or restarted.
#include "sim.h"
#include "disk.h"
#include <cstring>
#include "trace.h"
#include "core/timer.h"
#include "debug/profiler.h"
#include <memory>
using namespace Planner;
using namespace sim;

static void generate(Rng& r, Plan& p)
{
	double jumps = r.pick(std::vector<double> { 0, 0.2, 0.5 });
	long style = r.below(3);
	for (long i = r.range(3, 24); i > 0; i--) {
		double u = r.real();
		if (r.chance(jumps * 0.6)) p.ops.push_back(Op("jump", { std::floor((r.chance(0.5) ? -1 : 1) * std::pow(10.0, r.real(3, 17))) }));
		if (u < 0.35) p.ops.push_back(Op("pass", { std::floor(std::pow(10.0, style == 0 ? r.real(0, 7) : style == 1 ? r.real(6, 12) : r.real(0, 16.5))) }));
		else if (u < 0.45) p.ops.push_back(Op("timer"));
		else if (u < 0.55) p.ops.push_back(Op("reset", { (double)r.below(6) }));
		else if (u < 0.75) p.ops.push_back(Op("read", { (double)r.below(6) }));
		else if (u < 0.9) p.ops.push_back(Op("begin"));
		else p.ops.push_back(Op(r.chance(0.7) ? "end" : "stop"));
	}
}

static void execute(const Plan& p)
{
	clockUse(true);
	diskUse(true);
	struct T {
		Timer t;
		long long start;
	};
	std::vector<std::unique_ptr<T>> timers;
	struct S {
		std::unique_ptr<ProfilingTimer> t;
		long long start;
	};
	std::vector<S> scopes;
	std::vector<std::pair<long long, long long>> done;
	auto judge = [&](size_t k, double got, double want, double abs, const char* what) {
		if (!(std::fabs(got - want) <= abs + 1e-5 * std::fabs(want))) violate("wrong-time", "operation %zu: %s reports %.9g, %.9g have passed on the monotone clock", k, what, got, want);
	};
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		if (op.name == "pass") clockAdvance((long long)std::min(std::fabs(op.arg(0)), 1e17));
		else if (op.name == "jump") { wallJump((long long)op.arg(0)); fired("clock:jump"); }
		else if (op.name == "timer") {
			timers.push_back(std::make_unique<T>());
			timers.back()->start = clockMono();
		} else if (op.name == "reset" || op.name == "read") {
			if (timers.empty()) continue;
			T& t = *timers[std::labs(op.iarg(0)) % timers.size()];
			if (op.name == "reset") {
				t.t.Reset();
				t.start = clockMono();
			}
			double ns = (double)(clockMono() - t.start);
			double s = t.t.Elapsed(), ms = t.t.ElapsedMillis();
			judge(k, s, ns * 1e-9, 1e-9, "Elapsed");
			judge(k, ms, ns * 1e-6, 1e-6, "ElapsedMillis");
			double again = t.t.Elapsed();
			if (again != s) violate("not-repeatable", "operation %zu: two readings without time passing differ: %.9g, %.9g", k, s, again);
			if (ns > 0) nontrivial();
			if (ns > 1e15) probe("long-interval");
			if (ns > 0 && ns < 1e3) probe("short-interval");
			Hash h;
			h.addd(s);
			state(h.h);
			ev("%zu read %.9g %.9g", k, s, ms);
		} else if (op.name == "begin") {
			S s;
			s.start = clockMono();
			s.t = std::make_unique<ProfilingTimer>("h:scope");
			scopes.push_back(std::move(s));
		} else if (!scopes.empty()) {
			S s = std::move(scopes.back());
			scopes.pop_back();
			done.push_back({ s.start, clockMono() });
			if (op.name == "stop") s.t->Stop();
			s.t.reset();
			const std::string* f = diskFile("profiling.json");
			if (!f) violate("no-trace", "operation %zu: no trace was written", k);
			auto d = trace::read(*f);
			if (d.events.size() != done.size()) violate("no-trace", "operation %zu: %zu events recorded, %zu scopes ended", k, d.events.size(), done.size());
			auto& e = d.events.back();
			double dur = (double)(done.back().second - done.back().first) / 1000;
			if (std::fabs(e.dur - dur) > 1.001) violate("wrong-time", "operation %zu: a profiled scope of %.3f microseconds was recorded as %lld", k, dur, e.dur);
			if (d.events.size() > 1) { // starting points are comparable
				auto& q = d.events[d.events.size() - 2];
				double want = (double)(done.back().first - done[done.size() - 2].first) / 1000;
				if (std::fabs((double)(e.ts - q.ts) - want) > 1.001) violate("wrong-time", "operation %zu: two profiled scopes began %.3f microseconds apart, recorded as %lld", k, want, e.ts - q.ts);
			}
			probe("scopes");
			ev("%zu scope %lld %lld", k, e.ts, e.dur);
		}
	}
}

const Property sim::property = { "C13", generate, execute };
