// C04: every completed grid A* search is valid, collision-free, complete and
// optimal, whatever happened to the map and to earlier searches.
#include "gridsearch.h"
using namespace grid;

static void generate(Rng& r, Plan& p) { generateSearches(r, p, 0.5); }

static Ref<AStarHeuristic<GridCellPosition>> makeHeuristic(int kind)
{
	using F = std::function<double(const GridCellPosition&, const GridCellPosition&)>;
	auto fcn = [](int k) -> F {
		return [k](const GridCellPosition& a, const GridCellPosition& b) {
			if (due("throw:heur")) throw Injected("heur");
			return k == 0 ? 0.0 : k == 1 ? euclid(a, b) : octile(a, b);
		};
	};
	if (kind < 3) return makeRef<AStarHeuristicFcnN2>(fcn(kind));
	auto c = makeRef<AStarCombinedHeuristic<GridCellPosition>>();
	c->Add(makeRef<AStarHeuristicFcnN2>(fcn(1)), makeRef<AStarHeuristicFcnN2>(fcn(0)), makeRef<AStarHeuristicFcnN2>(fcn(2)));
	return c;
}

static void execute(const Plan& p)
{
	int heur = (int)p.ci("heur");
	runSearches<AStarN2>(p, [&](AStarN2& a, const Ref<SimMap>& map, int kind, u64 seed) {
		auto prop = makeRef<AStarStatePropagatorFcnN2>(map, [kind, seed](const GridCellPosition& x, const GridCellPosition& y) {
			if (due("throw:cost")) throw Injected("cost");
			return edgeCost(kind, seed, x, y);
		});
		a.Initialize(prop, makeHeuristic(heur));
	}, false);
}

const Property sim::property = { "C04", generate, execute };
