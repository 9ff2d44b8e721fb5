// C09: a search depends on nothing but the current workspace, parameters,
// start, goal and random stream, and leaves nothing of an earlier one visible.
#include "hybrid.h"
using namespace hybrid;

static void generate(Rng& r, Plan& p) { generateHybrid(r, p, true); }
static void execute(const Plan& p)
{
	Sim s(p);
	bool stale = true;
	long done = 0, aborted = 0;
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		if (s.w.apply(op) != MapWorld::NotMine) {
			stale = op.name != "update" && (stale || op.name != "move");
			continue;
		}
		if (op.name == "reinit") s.init(*s.planner);
		if (op.name != "search") continue;
		if (stale) probe("search-updates-map");
		auto o = s.search(*s.planner, op, true);
		state(o.hash);
		ev("%zu search status %d aborted %d smoothing %d path %zu segments %zu cost %.9g %016llx", k, (int)o.status, o.aborted, o.smoothing, o.path.size(), o.segments.size(), o.cost, (unsigned long long)o.hash);
		if (o.aborted || o.status != Status::Success) {
			if (!o.path.empty()) violate("stale-path", "%s still returns a path of %zu states", o.aborted ? "an aborted search" : "a failed search", o.path.size());
		}
		if (!o.aborted) stale = false;
		if (o.aborted) {
			aborted++;
			probe("aborted");
			continue;
		}
		if ((o.status == Status::Success) != (o.graph >= 0)) violate("stale-stats", "the search ended with status %d, its statistics say %d", (int)o.status, o.graph);
		if (o.status != Status::Success) {
			if (!o.segments.empty()) violate("stale-path", "a failed search still returns %zu manoeuvres", o.segments.size());
			if (std::isfinite(o.cost)) violate("stale-cost", "a failed search reports a cost of %g", o.cost);
			if (o.smoothing >= 0) violate("stale-stats", "a failed search reports a successful smoothing (%d)", o.smoothing);
		}
		// the same search on a planner without a past
		if (done + aborted > 0) {
			auto fresh = s.make();
			auto f = s.search(*fresh, op, false);
			probe("compared");
			if (aborted) probe("compared-after-abort");
			if (f.aborted || f.status != o.status) violate("history", "status %d, a new planner says %d", (int)o.status, (int)f.status);
			if (f.path.size() != o.path.size() || f.segments.size() != o.segments.size()) violate("history", "%zu states in %zu manoeuvres, a new planner finds %zu in %zu", o.path.size(), o.segments.size(), f.path.size(), f.segments.size());
			if (f.cost != o.cost) violate("history", "cost %.9g, a new planner finds %.9g", o.cost, f.cost);
			if (f.hash != o.hash) violate("history", "a new planner finds a different path");
			if (f.smoothing != o.smoothing) violate("history", "smoothing status %d, a new planner says %d", o.smoothing, f.smoothing);
			if (o.segments.size() > 1) nontrivial();
		}
		done++;
	}
}
const sim::Property sim::property = { "C09", generate, execute };
