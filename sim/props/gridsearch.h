// Workload and oracle shared by the grid searches (C04: A*, C05: bidirectional A*).
#pragma once
#include "world.h"
#include "algo/a_star_n2.h"
#include <queue>
#include <limits>

namespace grid {
	using namespace world;
	using namespace sim;

	inline double euclid(const GridCellPosition& a, const GridCellPosition& b)
	{
		return std::sqrt((double)(a.row - b.row) * (a.row - b.row) + (double)(a.col - b.col) * (a.col - b.col));
	}
	inline double octile(const GridCellPosition& a, const GridCellPosition& b)
	{
		double dr = std::abs(a.row - b.row), dc = std::abs(a.col - b.col);
		return std::max(dr, dc) + (std::sqrt(2.0) - 1) * std::min(dr, dc);
	}
	/// symmetric edge cost, at least the Euclidean length
	inline double edgeCost(int kind, u64 seed, const GridCellPosition& a, const GridCellPosition& b)
	{
		double e = euclid(a, b);
		if (kind == 0) return e;
		u64 ka = (u64)a.row * 65536 + a.col, kb = (u64)b.row * 65536 + b.col;
		u64 h = mix(seed ^ mix(std::min(ka, kb)) ^ mix(mix(std::max(ka, kb))));
		if (kind == 1) return e * (1 + 0.5 * (h % 4));
		return e * (1 + (h % 1000) * 0.01); // wide spread
	}

	inline bool squeezed(OccupancyMap& m, const GridCellPosition& a, const GridCellPosition& b)
	{
		return a.row != b.row && a.col != b.col && m.IsOccupied({ b.row, a.col }) && m.IsOccupied({ a.row, b.col });
	}

	/// cheapest cost from start to every cell (plain Dijkstra)
	inline double reference(OccupancyMap& m, int kind, u64 seed, const GridCellPosition& s, const GridCellPosition& g)
	{
		Quiet q;
		int R = m.Rows(), C = m.Columns();
		std::vector<double> d(R * C, std::numeric_limits<double>::infinity());
		using E = std::pair<double, int>;
		std::priority_queue<E, std::vector<E>, std::greater<E>> pq;
		d[s.row * C + s.col] = 0;
		pq.push({ 0, s.row * C + s.col });
		while (!pq.empty()) {
			auto [dist, k] = pq.top();
			pq.pop();
			if (dist > d[k]) continue;
			GridCellPosition a(k / C, k % C);
			if (a == g) return dist;
			for (int dr = -1; dr <= 1; dr++)
				for (int dc = -1; dc <= 1; dc++) {
					if (!dr && !dc) continue;
					GridCellPosition b(a.row + dr, a.col + dc);
					if (b.row < 0 || b.col < 0 || b.row >= R || b.col >= C || m.IsOccupied(b) || squeezed(m, a, b)) continue;
					double nd = dist + edgeCost(kind, seed, a, b);
					if (nd < d[b.row * C + b.col]) {
						d[b.row * C + b.col] = nd;
						pq.push({ nd, b.row * C + b.col });
					}
				}
		}
		return std::numeric_limits<double>::infinity();
	}

	/// the path is a legal, collision-free walk from s to g; returns its cost
	inline double validatePath(OccupancyMap& m, int kind, u64 seed, const std::vector<GridCellPosition>& path, const GridCellPosition& s, const GridCellPosition& g)
	{
		Quiet q;
		if (path.front() != s) violate("path-start", "the path starts at (%d,%d), not at (%d,%d)", path.front().row, path.front().col, s.row, s.col);
		if (path.back() != g) violate("path-end", "the path ends at (%d,%d), not at (%d,%d)", path.back().row, path.back().col, g.row, g.col);
		double cost = 0;
		for (size_t i = 1; i < path.size(); i++) {
			auto &a = path[i - 1], &b = path[i];
			if (b.row < 0 || b.col < 0 || b.row >= m.Rows() || b.col >= m.Columns()) violate("path-outside", "the path leaves the map at (%d,%d)", b.row, b.col);
			if (std::max(std::abs(a.row - b.row), std::abs(a.col - b.col)) != 1)
				violate("path-jump", "step %zu of the path goes from (%d,%d) to (%d,%d)", i, a.row, a.col, b.row, b.col);
			if (m.IsOccupied(b)) violate("path-collision", "the path enters the occupied cell (%d,%d)", b.row, b.col);
			if (squeezed(m, a, b)) violate("path-squeeze", "the path squeezes between two obstacles from (%d,%d) to (%d,%d)", a.row, a.col, b.row, b.col);
			cost += edgeCost(kind, seed, a, b);
		}
		return cost;
	}

	inline void generateSearches(Rng& r, Plan& p, double dens)
	{
		genMap(r, p, 2, r.chance(0.75) ? 12 : 28, false);
		Geo g(p);
		double faultRate = r.pick(std::vector<double> { 0, 0.15, 0.4 });
		genMapHistory(r, p, r.range(0, 8), faultRate * 0.5, false, 0.1);
		p.cfg["maze"] = { (double)r.below(1 << 30), r.chance(0.3) ? 0.0 : r.real(0.05, dens) };
		p.cfg["cost"] = { (double)r.below(3), (double)r.below(1 << 20) };
		p.cfg["heur"] = { (double)r.below(4) };
		std::vector<Op> all;
		auto base = p.ops;
		p.ops.clear();
		long rows = (long)std::ceil(g.w / g.res), cols = (long)std::ceil(g.h / g.res);
		long n = r.range(1, 6);
		size_t k = 0;
		bool sticky = r.chance(0.3);
		double s0 = 0, s1 = 0;
		for (long i = 0; i < n; i++) {
			for (long j = r.range(0, 3); j > 0 && k < base.size(); j--) p.ops.push_back(base[k++]);
			if (r.chance(0.25)) p.ops.push_back(Op("overlay", { (double)r.below(1 << 30), r.real(0, dens) }));
			if (r.chance(0.15)) p.ops.push_back(Op("renew"));
			if (!sticky || i == 0) { s0 = r.below(rows); s1 = r.below(cols); }
			Op op("search", { s0, s1, (double)r.below(rows), (double)r.below(cols) });
			if (r.chance(0.06)) { op.a[2] = op.a[0]; op.a[3] = op.a[1]; }
			if (r.chance(faultRate)) {
				static const std::vector<std::string> kinds = { "throw:cost", "throw:heur", "throw:occ", "alloc" };
				long at = r.chance(0.4) ? r.below(12) : r.below(rows * cols * 8);
				op.f.push_back({ r.pick(kinds), at });
			}
			p.ops.push_back(op);
		}
	}

	/// Runs the history against a planner with SetInitState/SetGoalState/SearchPath/GetPath/GetOptimalCost.
	template <typename Planner, typename Init>
	void runSearches(const Plan& p, Init init, bool goalMustBeFree)
	{
		MapWorld w;
		auto map = w.createSim(p);
		int kind = (int)p.ci("cost");
		u64 cseed = p.cv("cost").size() > 1 ? (u64)p.cv("cost")[1] : 0;
		auto planner = makeRef<Planner>();
		init(*planner, map, kind, cseed);
		bool hadAbort = false, hadSuccess = false;
		for (size_t k = 0; k < p.ops.size(); k++) {
			const Op& op = p.ops[k];
			if (op.name == "overlay") {
				map->mazeSeed = (u64)op.arg(0);
				map->density = op.arg(1);
				continue;
			}
			if (op.name == "renew") { // same object, fresh configuration
				init(*planner, map, kind, cseed);
				continue;
			}
			if (op.name != "search") {
				w.apply(op);
				continue;
			}
			GridCellPosition s((int)(std::abs(op.iarg(0)) % map->Rows()), (int)(std::abs(op.iarg(1)) % map->Columns()));
			GridCellPosition g((int)(std::abs(op.iarg(2)) % map->Rows()), (int)(std::abs(op.iarg(3)) % map->Columns()));
			if (goalMustBeFree && map->IsOccupied(g)) continue;
			planner->SetInitState(s);
			planner->SetGoalState(g);
			Status st = Status::Failure;
			bool aborted = false;
			stepBudget(1000000000ull);
			{
				Armed a(op);
				try {
					st = planner->SearchPath();
				} catch (const Injected&) {
					aborted = true;
				} catch (const std::bad_alloc&) {
					aborted = true;
				}
				if (aborted && firedInOp() == 0) violate("unexpected-failure", "the search threw although nothing was injected");
			}
			auto path = planner->GetPath();
			double cost = planner->GetOptimalCost();
			Hash h;
			for (int r = 0; r < map->Rows(); r++)
				for (int c = 0; c < map->Columns(); c++) h.add(map->IsOccupied({ r, c }));
			h.add(s.row * 4096 + s.col);
			h.add(g.row * 4096 + g.col);
			state(h.h);
			ev("%zu search (%d,%d)->(%d,%d) status %d aborted %d len %zu cost %.9g", k, s.row, s.col, g.row, g.col, (int)st, aborted, path.size(), cost);
			if (aborted) {
				hadAbort = true;
				probe("aborted");
				// whatever is left behind must not be mistaken for a solution of something else
				if (!path.empty()) validatePath(*map, kind, cseed, path, s, g);
				continue;
			}
			double best = reference(*map, kind, cseed, s, g);
			double tol = 1e-7 * (1 + (std::isfinite(best) ? best : 0));
			if (st == Status::Success) {
				if (!std::isfinite(best)) violate("false-success", "success reported although the goal cannot be reached");
				if (path.empty()) violate("empty-success", "success reported with an empty path");
				double c = validatePath(*map, kind, cseed, path, s, g);
				if (std::fabs(c - cost) > tol) violate("cost-mismatch", "the reported cost %.12g is not the cost %.12g of the path", cost, c);
				if (cost > best + tol) violate("suboptimal", "the path costs %.12g, the cheapest costs %.12g", cost, best);
				if (cost < best - tol) violate("oracle", "the path costs %.12g, less than the cheapest %.12g", cost, best);
				if (hadAbort) probe("success-after-abort");
				if (hadSuccess) probe("success-on-reuse");
				if (path.size() > 3) nontrivial();
				hadSuccess = true;
			} else {
				if (std::isfinite(best)) violate("false-failure", "failure reported although a path of cost %.12g exists", best);
				if (!path.empty()) violate("stale-path", "a failed search still returns a path of %zu states", path.size());
				if (std::isfinite(cost)) violate("stale-cost", "a failed search still reports the cost %.12g", cost);
				probe("unreachable");
				if (hadSuccess) probe("unreachable-after-success");
			}
		}
	}
}
