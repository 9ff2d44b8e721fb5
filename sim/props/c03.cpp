// C03: after every update the Voronoi diagram and the cost field derived from
// it agree with the obstacles, through every history.
#include "world.h"
using namespace world;
using namespace sim;

static void generate(Rng& r, Plan& p)
{
	genMap(r, p, 5, r.chance(0.75) ? 18 : 48, true);
	double faultRate = r.pick(std::vector<double> { 0, 0, 0.1, 0.3 });
	genMapHistory(r, p, r.range(3, r.chance(0.7) ? 16 : 60), faultRate, true, r.real(0.1, 0.5));
	p.ops.push_back(Op("update"));
	double n = (double)p.ops.size();
	p.cfg["gvd"] = { r.chance(0.6) ? 0.0 : std::floor(r.real(0, n)) }; // created before this operation
}

static void execute(const Plan& p)
{
	MapWorld w;
	w.createFlat(p);
	auto& map = *w.map;
	Ref<GVD> gvd;
	std::map<long, Cells> foot;
	long when = p.ci("gvd");
	stepBudget(4000000000ull);
	int R = map.Rows(), C = map.Columns();
	double res = map.resolution;
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		if (!gvd && (long)k >= std::min<long>(when, p.ops.size() - 1)) {
			gvd = makeRef<GVD>(w.map);
			if (k && map.GetNumObstacles()) probe("attached-late");
		}
		if (op.name != "update" || !gvd) {
			Cells fp;
			if (op.name == "add" && w.count()) fp = footprint(w.obs[w.idx(op)], map);
			auto out = w.apply(op);
			if (op.name == "add" && out == MapWorld::True) foot[w.idx(op)] = fp;
			if (op.name == "remove" && !w.registered.count(w.idx(op))) foot.erase(w.idx(op));
			ev("%zu %s %ld -> %d", k, op.name.c_str(), w.idx(op), (int)out);
			continue;
		}
		{
			Armed a(op);
			gvd->Update();
		}
		Cells occ = occupied(map);
		std::map<long, Cells> byId; // registered obstacles that lie on the map
		for (auto& [i, f] : foot)
			if (!f.empty()) byId[i] = f;
		Cells edges;
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++)
				if (gvd->GetDistanceToNearestVoronoiEdge(r, c) == 0) edges.insert({ r, c });
		auto dist = [](const Cell& a, int r, int c) { return std::sqrt((double)(a.first - r) * (a.first - r) + (double)(a.second - c) * (a.second - c)); };
		if (verbose())
			for (int r = 0; r < R; r++) {
				std::string line;
				for (int c = 0; c < C; c++) {
					auto n = gvd->GetNearestObstacleCell(r, c);
					line += occ.count({ r, c }) ? (char)('0' + map.GetOccupancyValue(r, c) % 10) : edges.count({ r, c }) ? 'e' : n.IsValid() && !occ.count({ n.row, n.col }) ? '!' : '.';
				}
				printf("  %s\n", line.c_str());
			}
		// --- edges lie between two different obstacles
		long odd = 0;
		for (auto& e : edges) {
			double d1 = 1e9, d2 = 1e9; // to the nearest and second nearest obstacle
			for (auto& [id, cells] : byId) {
				double d = 1e9;
				for (auto& o : cells) d = std::min(d, dist(o, e.first, e.second));
				if (d < d1) { d2 = d1; d1 = d; } else d2 = std::min(d2, d);
			}
			if (d2 - d1 > 1.5) odd++;
		}
		if (odd > 3) violate("edge-not-equidistant", "%ld of %zu edge cells do not lie halfway between two obstacles", odd, edges.size());
		if (odd) probe("odd-edge-cells", odd);
		if (edges.empty() && byId.size() == 2) {
			// two separate obstacles must be separated by an edge
			double gap = 1e9;
			for (auto& a : byId.begin()->second)
				for (auto& b : byId.rbegin()->second) gap = std::min(gap, dist(a, b.first, b.second));
			if (gap >= 4) violate("edge-missing", "no edge between two obstacles %.3g cells apart", gap);
		}
		if (byId.size() == 2 && !edges.empty()) probe("two-obstacles-separated");
		// --- distances and the cost field
		Hash h;
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++) {
				float dv = gvd->GetDistanceToNearestVoronoiEdge(r, c), dO = gvd->GetDistanceToNearestObstacle(r, c), cost = gvd->GetPathCost(r, c);
				auto n = gvd->GetNearestVoronoiEdgeCell(r, c);
				h.addd(dv);
				h.addd(cost);
				if (dO != map.GetObstacleDistanceMap()->GetDistanceToNearestObstacle(r, c)) violate("clearance-differs", "cell (%d,%d)", r, c);
				if (edges.empty()) {
					if (n.IsValid()) violate("ghost-edge", "cell (%d,%d): nearest edge (%d,%d) although there is none", r, c, n.row, n.col);
				} else {
					double want = 1e9;
					for (auto& e : edges) want = std::min(want, dist(e, r, c));
					want *= res;
					if (std::fabs(dv - want) > 0.2 * res + 1e-5 * want)
						violate("edge-distance", "cell (%d,%d): edge distance %.6g where the nearest edge cell is %.6g away", r, c, dv, want);
					if (n.row < 0 || n.col < 0 || n.row >= R || n.col >= C) violate("edge-outside", "cell (%d,%d): nearest edge (%d,%d)", r, c, n.row, n.col);
					double nd = dist({ n.row, n.col }, r, c) * res;
					if (std::fabs(nd - dv) > 1e-4 * (1 + nd)) violate("edge-cell", "cell (%d,%d): nearest edge (%d,%d) is %.6g away, distance %.6g", r, c, n.row, n.col, nd, dv);
				}
				double al = gvd->alpha, dm = gvd->dMax;
				double want = dO >= dm ? 0 : (al / (al + dO)) * ((double)dv / ((double)dO + dv)) * ((dO - dm) * (dO - dm) / (dm * dm));
				if (!(cost >= 0 && cost <= 1 + 1e-6)) violate("cost-range", "cell (%d,%d): cost %.9g (obstacle %.6g, edge %.6g)", r, c, cost, dO, dv);
				bool ok = std::fabs(cost - want) <= 1e-4 || (edges.empty() && cost == 0);
				if (!ok) violate("cost-formula", "cell (%d,%d): cost %.9g, the field is %.9g (obstacle %.6g, edge %.6g)", r, c, cost, want, dO, dv);
				if (occ.count({ r, c }) && !edges.empty() && !(cost > 0.9)) violate("cost-obstacle", "occupied cell (%d,%d) has cost %.9g", r, c, cost);
				// --- the same answers by world position (centre of the cell)
				Point2d pos = map.GridCellToWorldPosition(r, c) + Point2d(res / 2, res / 2);
				float f1 = -1, f2 = -1, f3 = -1;
				Point2d q1(1e9, 1e9), q2(1e9, 1e9);
				if (!gvd->GetDistanceToNearestObstacle(pos, f1) || !gvd->GetDistanceToNearestVoronoiEdge(pos, f2) || !gvd->GetPathCost(pos, f3)
					|| !gvd->GetNearestObstaclePosition(pos, q1) || !gvd->GetNearestVoronoiEdgePosition(pos, q2))
					violate("query-refused", "the centre of cell (%d,%d) is said to be outside the map", r, c);
				if (f1 != dO || f2 != dv || f3 != cost) violate("query-differs", "the centre of cell (%d,%d) is answered with another cell's values", r, c);
				auto on = gvd->GetNearestObstacleCell(r, c);
				if (on.IsValid()) {
					Point2d o = map.GridCellToWorldPosition(on);
					if ((q1 - o).norm() > 1e-6) violate("query-differs", "nearest obstacle position of cell (%d,%d)", r, c);
				}
			}
		for (int s = 0; s < 4; s++) {
			Point2d lo = map.GridCellToWorldPosition(0, 0), hi = map.GridCellToWorldPosition(R, C);
			double e = 0.3 * res;
			Point2d out = s == 0 ? Point2d(lo.x() - e, (lo.y() + hi.y()) / 2) : s == 1 ? Point2d(hi.x() + e, (lo.y() + hi.y()) / 2) : s == 2 ? Point2d((lo.x() + hi.x()) / 2, lo.y() - e) : Point2d((lo.x() + hi.x()) / 2, hi.y() + e);
			float f;
			Point2d q;
			if (gvd->GetDistanceToNearestObstacle(out, f) || gvd->GetDistanceToNearestVoronoiEdge(out, f) || gvd->GetPathCost(out, f) || gvd->GetNearestObstaclePosition(out, q) || gvd->GetNearestVoronoiEdgePosition(out, q))
				violate("query-outside", "a position outside the map (side %d) is answered", s);
		}
		state(h.h);
		ev("%zu update %zu edges %016llx", k, edges.size(), (unsigned long long)h.h);
		if (!edges.empty()) nontrivial();
		probe("snapshots");
	}
}

const Property sim::property = { "C03", generate, execute };
