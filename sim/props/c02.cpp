// C02: after every update the clearance map agrees with the occupied cells,
// through every history of additions, removals, moves and failed operations.
#include "world.h"
using namespace world;
using namespace sim;

static void generate(Rng& r, Plan& p)
{
	genMap(r, p, 3, r.chance(0.75) ? 16 : 48, true);
	double faultRate = r.pick(std::vector<double> { 0, 0, 0.1, 0.3 });
	genMapHistory(r, p, r.range(3, r.chance(0.7) ? 16 : 80), faultRate, true, r.real(0.1, 0.5));
	p.ops.push_back(Op("update"));
	p.cfg["gvd"] = { (double)r.below(3) }; // Voronoi diagram: absent, from the start, attached halfway
}

static void execute(const Plan& p)
{
	MapWorld w;
	w.createFlat(p);
	auto& map = *w.map;
	Ref<GVD> gvd;
	long mode = p.ci("gvd");
	if (mode == 1) gvd = makeRef<GVD>(w.map);
	stepBudget(4000000000ull);
	int R = map.Rows(), C = map.Columns();
	double res = map.resolution, diag = std::sqrt((double)R * R + (double)C * C) * res;
	bool hadObstacles = false;
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		if (mode == 2 && !gvd && k >= p.ops.size() / 2) gvd = makeRef<GVD>(w.map);
		if (op.name != "update") {
			auto out = w.apply(op);
			ev("%zu %s %ld -> %d", k, op.name.c_str(), w.idx(op), (int)out);
			if (out == MapWorld::Failed) probe("failed-change");
			continue;
		}
		if (gvd && (k & 1)) {
			Armed a(op);
			gvd->Update();
		} else
			w.apply(op);
		auto dm = map.GetObstacleDistanceMap();
		Cells occ = occupied(map);
		Hash h;
		long stale = 0;
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++) {
				float d = dm->GetDistanceToNearestObstacle(r, c);
				auto n = dm->GetNearestObstacleCell(r, c);
				h.addd(d);
				if (occ.empty()) {
					if (n.IsValid()) violate("ghost-obstacle", "cell (%d,%d): the nearest obstacle is (%d,%d) on an empty map", r, c, n.row, n.col);
					if (!(d > diag)) violate("ghost-obstacle", "cell (%d,%d): clearance %g on an empty map of diagonal %g", r, c, d, diag);
					continue;
				}
				double best = 1e18;
				for (auto& o : occ) best = std::min(best, (double)(o.first - r) * (o.first - r) + (double)(o.second - c) * (o.second - c));
				double want = std::sqrt(best) * res;
				if (occ.count({ r, c }) && d != 0) violate("occupied-clearance", "occupied cell (%d,%d) has clearance %g", r, c, d);
				if (!occ.count({ r, c }) && d == 0) violate("free-clearance", "free cell (%d,%d) has clearance 0", r, c);
				// the wave-front computation is allowed a fifth of a cell
				if (std::fabs(d - want) > 0.2 * res + 1e-5 * want)
					violate(d > want ? "clearance-too-large" : "clearance-too-small", "cell (%d,%d): clearance %.6g where the nearest occupied cell is %.6g away", r, c, d, want);
				if (n.row < 0 || n.col < 0 || n.row >= R || n.col >= C) violate("nearest-outside", "cell (%d,%d): nearest obstacle (%d,%d) is not in the map", r, c, n.row, n.col);
				double nd = std::sqrt((double)(n.row - r) * (n.row - r) + (double)(n.col - c) * (n.col - c)) * res;
				if (std::fabs(nd - d) > 1e-4 * (1 + nd)) violate("nearest-distance", "cell (%d,%d): nearest obstacle (%d,%d) is %.6g away, clearance %.6g", r, c, n.row, n.col, nd, d);
				if (!occ.count({ n.row, n.col })) stale++;
			}
		if (stale) probe("nearest-cell-freed");
		if (stale > 3) violate("nearest-free", "%ld cells name a free cell as their nearest obstacle", stale);
		state(h.h);
		ev("%zu update %016llx", k, (unsigned long long)h.h);
		if (!occ.empty()) {
			nontrivial();
			hadObstacles = true;
		} else if (hadObstacles)
			probe("emptied-again");
		probe("snapshots");
	}
}

const Property sim::property = { "C02", generate, execute };
