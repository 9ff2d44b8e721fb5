// C17: the obstacle-aware cost-to-go is the cheapest grid cost to the goal,
// through every history of map changes, goals and aborted computations.
#include "world.h"
#include "algo/heuristics.h"
#include <queue>
#include <limits>
using namespace world;
using namespace sim;

struct Heur : ObstaclesHeuristic {
	using ObstaclesHeuristic::ObstaclesHeuristic;
	void Goal(const Pose2d& g) { SetGoal(g); }
};

static void generate(Rng& r, Plan& p)
{
	genMap(r, p, 2, r.chance(0.75) ? 14 : 34, true);
	Geo g(p);
	double faultRate = r.pick(std::vector<double> { 0, 0.2, 0.4 });
	genMapHistory(r, p, r.range(0, 10), 0.1, false, 0.1);
	p.cfg["maze"] = { (double)r.below(1 << 30), r.chance(0.25) ? 0.0 : r.real(0.05, 0.5) };
	p.cfg["mult"] = { 1 + std::floor(r.real(0, 4)) / 2, 1 + std::floor(r.real(0, 4)) / 2 };
	auto base = p.ops;
	p.ops.clear();
	size_t k = 0;
	for (long i = r.range(1, 6); i > 0; i--) {
		for (long j = r.range(0, 3); j > 0 && k < base.size(); j--) p.ops.push_back(base[k++]);
		if (r.chance(0.3)) p.ops.push_back(Op("overlay", { (double)r.below(1 << 30), r.real(0, 0.5) }));
		Op op("goal", { std::round((g.ox + g.w * r.real(-0.55, 0.55)) * 1024) / 1024, std::round((g.oy + g.h * r.real(-0.55, 0.55)) * 1024) / 1024 });
		if (r.chance(faultRate)) {
			long rows = (long)std::ceil(g.w / g.res), cols = (long)std::ceil(g.h / g.res);
			op.f.push_back({ r.chance(0.5) ? "throw:occ" : "alloc", r.chance(0.3) ? r.below(10) : r.below(rows * cols * 8) });
		}
		p.ops.push_back(op);
	}
}

static void execute(const Plan& p)
{
	MapWorld w;
	auto map = w.createSim(p);
	auto mult = p.cv("mult");
	double m1 = mult.size() > 0 ? std::max(1.0, mult[0]) : 1, m2 = mult.size() > 1 ? std::max(1.0, mult[1]) : 1;
	auto h = makeRef<Heur>(map, m1, m2);
	double res = map->resolution, scale = std::min(m1, m2) * res;
	int R = map->Rows(), C = map->Columns();
	bool hadAbort = false;
	stepBudget(4000000000ull);
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		if (op.name == "overlay") {
			map->mazeSeed = (u64)op.arg(0);
			map->density = op.arg(1);
			continue;
		}
		if (op.name != "goal") {
			w.apply(op);
			continue;
		}
		Pose2d goal(op.arg(0), op.arg(1), 0);
		bool aborted = false;
		h->Goal(goal);
		{
			Armed a(op);
			try {
				h->Update(goal);
			} catch (const Injected&) {
				aborted = true;
			} catch (const std::bad_alloc&) {
				aborted = true;
			}
		}
		if (aborted && firedInOp() == 0) violate("unexpected-failure", "the computation failed although nothing was injected");
		// reference
		const double inf = std::numeric_limits<double>::infinity();
		std::vector<double> d(R * C, inf);
		Geo g(p);
		int gr = (int)std::floor((goal.x() - (g.ox - (double)g.w / 2)) / res), gc = (int)std::floor((goal.y() - (g.oy - (double)g.h / 2)) / res);
		bool inside = gr >= 0 && gc >= 0 && gr < R && gc < C;
		if (inside) {
			using E = std::pair<double, int>;
			std::priority_queue<E, std::vector<E>, std::greater<E>> pq;
			d[gr * C + gc] = 0;
			pq.push({ 0, gr * C + gc });
			while (!pq.empty()) {
				auto [dist, q] = pq.top();
				pq.pop();
				if (dist > d[q]) continue;
				int r = q / C, c = q % C;
				for (int dr = -1; dr <= 1; dr++)
					for (int dc = -1; dc <= 1; dc++) {
						int nr = r + dr, nc = c + dc;
						if ((!dr && !dc) || nr < 0 || nc < 0 || nr >= R || nc >= C || map->IsOccupied({ nr, nc })) continue;
						if (dr && dc && map->IsOccupied({ nr, c }) && map->IsOccupied({ r, nc })) continue;
						double nd = dist + (dr && dc ? std::sqrt(2.0) : 1.0);
						if (nd < d[nr * C + nc] - 1e-12) {
							d[nr * C + nc] = nd;
							pq.push({ nd, nr * C + nc });
						}
					}
			}
		}
		Hash hh;
		long reached = 0, detours = 0;
		for (int r = 0; r < R; r++)
			for (int c = 0; c < C; c++) {
				Point2d pos(g.ox - (double)g.w / 2 + (r + 0.5) * res, g.oy - (double)g.h / 2 + (c + 0.5) * res);
				double euclid = (goal.position - pos).norm();
				double v = h->GetHeuristicValue(Pose2d(pos, 0));
				double cost = d[r * C + c];
				double want = std::isfinite(cost) ? std::max(cost * scale - std::sqrt(2.0) * res, euclid) : euclid;
				hh.addd(v);
				double tol = 1e-4 * (1 + want);
				if (std::fabs(v - want) > tol && !(aborted && std::fabs(v - euclid) <= tol))
					violate(v > want ? "too-high" : "too-low", "cell (%d,%d): estimate %.8g, the cheapest grid cost gives %.8g (straight line %.8g)%s", r, c, v, want, euclid, aborted ? " after an aborted computation" : "");
				reached += std::isfinite(cost);
				detours += std::isfinite(cost) && want > euclid + tol;
			}
		if (inside) {
			// positions outside the map get the straight line
			Point2d out(g.ox - g.w, g.oy + 2 * g.h);
			double v = h->GetHeuristicValue(Pose2d(out, 0)), e = (goal.position - out).norm();
			if (std::fabs(v - e) > 1e-6 * (1 + e)) violate("outside", "estimate %.8g outside the map, straight line %.8g", v, e);
		}
		state(hh.h);
		ev("%zu goal (%d,%d) aborted %d reached %ld %016llx", k, gr, gc, aborted, reached, (unsigned long long)hh.h);
		if (aborted) { hadAbort = true; probe("aborted"); }
		else if (hadAbort) probe("complete-after-abort");
		if (detours > 3) nontrivial();
		if (!inside) probe("goal-outside");
	}
}

const Property sim::property = { "C17", generate, execute };
