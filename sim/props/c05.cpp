// C05: every completed bidirectional search is valid, collision-free, complete
// and optimal, whatever happened to the map and to earlier searches.
#include "gridsearch.h"
using namespace grid;

static void generate(Rng& r, Plan& p) { generateSearches(r, p, 0.4); }

static void execute(const Plan& p)
{
	int heur = (int)p.ci("heur");
	using F = std::function<double(const GridCellPosition&, const GridCellPosition&)>;
	auto fcn = [](int k) -> F {
		return [k](const GridCellPosition& a, const GridCellPosition& b) {
			if (due("throw:heur")) throw Injected("heur");
			return k == 0 ? 0.0 : k == 1 ? euclid(a, b) : octile(a, b);
		};
	};
	runSearches<BidirectionalAStarN2>(p, [&](BidirectionalAStarN2& a, const Ref<SimMap>& map, int kind, u64 seed) {
		auto cost = [kind, seed](const GridCellPosition& x, const GridCellPosition& y) {
			if (due("throw:cost")) throw Injected("cost");
			return edgeCost(kind, seed, x, y);
		};
		auto f = makeRef<AStarStatePropagatorFcnN2>(map, cost), r = makeRef<AStarStatePropagatorFcnN2>(map, cost);
		auto hf = makeRef<AStarHeuristicFcnN2>(fcn(heur % 3)), hr = makeRef<AStarHeuristicFcnN2>(fcn(heur == 3 ? 2 : heur));
		if (heur == 0) a.Initialize(f, r, hf, hr); // zero heuristics form a consistent pair by themselves
		else {
			auto [af, ar] = BidirectionalAStarN2::GetAverageHeuristicPair(hf, hr);
			a.Initialize(f, r, af, ar);
		}
	}, true);
}

const Property sim::property = { "C05", generate, execute };
