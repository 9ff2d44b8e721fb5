// C08: what a path returned by Hybrid A* guarantees.
#include "hybrid.h"
using namespace hybrid;

static void generate(Rng& r, Plan& p)
{
	generateHybrid(r, p, false);
	if (r.chance(0.4)) {
		auto& v = p.cfg["rngx"];
		for (long i = r.range(1, 6); i > 0; i--) { v.push_back(r.below(40)); v.push_back(r.below(4)); }
	}
}
static void execute(const Plan& p)
{
	Sim s(p);
	bool stale = true; // map changed since the last update
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		if (s.w.apply(op) != MapWorld::NotMine) {
			stale = op.name != "update" && (stale || op.name != "move");
			continue;
		}
		if (op.name == "reinit") s.init(*s.planner);
		if (op.name != "search") continue;
		if (stale) probe("search-updates-map");
		Pose2d start(op.arg(0), op.arg(1), op.arg(2)), goal(op.arg(3), op.arg(4), op.arg(5));
		auto o = s.search(*s.planner, op, true);
		state(o.hash);
		ev("%zu search status %d aborted %d smoothing %d path %zu segments %zu cost %.9g %016llx", k, (int)o.status, o.aborted, o.smoothing, o.path.size(), o.segments.size(), o.cost, (unsigned long long)o.hash);
		if (!o.aborted) stale = false;
		if (o.aborted) {
			probe("aborted");
			continue;
		}
		if (o.status == Status::Success) {
			probe("success");
			checkResult(s, o, start, goal);
			continue;
		}
		probe("failure");
		// progress: when the direct manoeuvre is free and always tried, the search arrives
		if (op.arg(7) != 0) {
			Quiet q;
			auto seg = ReedsShepp::Solver::GetOptimalPath(start, goal, s.radius, (float)s.rev, (float)s.fwd, (float)s.sw);
			PathReedsShepp direct(start, seg, s.radius);
			auto d = direct.GetFinalState() - goal;
			if (d.position.norm() < 1e-4 && std::fabs(wrap(d.theta)) < 1e-6 && s.validator->IsPathValid(direct))
				violate("no-progress", "no path found although the direct manoeuvre of length %.6g is free", direct.GetLength());
		}
	}
}
const sim::Property sim::property = { "C08", generate, execute };
