// C11: planners in different threads do not influence each other.  Every thread
// runs its own script; whatever the interleaving, each script gives the result it
// gives alone, nothing is accessed unordered, and the trace of all of them is whole.
#include "world.h"
#include "simthreads.h"
#include "disk.h"
#include <cstring>
#include "trace.h"
#include "debug/profiler.h"
#include "core/timer.h"
#include "algo/a_star_n2.h"
#include "algo/rrt.h"
#include "algo/rrt_star.h"
#include "algo/heuristics.h"
#include "algo/hybrid_a_star.h"
#include "algo/smoother.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_r2.h"
#include "paths/path_reeds_shepp.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace world;
using namespace sim;

static const int kKinds = 9;

static void generate(Rng& r, Plan& p)
{
	genMap(r, p, 4, 10, true); // the map that threads may share
	long n = r.chance(0.7) ? 2 : 3;
	p.cfg["threads"] = { (double)n };
	double faultRate = r.pick(std::vector<double> { 0, 0.3 });
	long same = r.chance(0.5) ? r.below(kKinds) : -1;
	bool heavy = r.chance(0.06);
	for (long t = 0; t < n; t++)
		for (long j = r.range(1, 2); j > 0; j--) {
			long kind = same >= 0 ? same : r.below(kKinds);
			if (heavy) kind = 8;
			else if (kind == 8) kind = r.below(8);
			p.ops.push_back(Op("job", { (double)t, (double)kind, (double)r.below(1 << 30), (double)r.range(2, 8), r.chance(faultRate) ? (double)r.below(25) : -1.0 }));
		}
	// the schedule: mixed grain, from single accesses to long runs
	double lo = r.real(0, 3), hi = lo + r.real(0.3, 3);
	for (long i = r.range(1, r.chance(0.5) ? 12 : 120); i > 0; i--) p.ops.push_back(Op("sw", { std::floor(std::pow(10.0, r.real(lo, hi))), (double)r.below(n) }));
}

struct Fail {
	long at, seen = 0;
	void due()
	{
		if (at >= 0 && seen++ == at) {
			fired("throw:callback");
			throw Injected("callback");
		}
	}
};
static void add(Hash& h, const Point2d& p) { h.addd(p.x()); h.addd(p.y()); }
static void add(Hash& h, const Pose2d& p) { h.addd(p.x()); h.addd(p.y()); h.addd(p.theta); }

struct DiscValidator : StateValidator<Point2d, 2, double> {
	std::vector<std::array<double, 3>> discs;
	Fail* fail;
	DiscValidator(const Ref<StateSpace<Point2d, 2, double>>& s, Fail* f) : StateValidator<Point2d, 2, double>(s), fail(f) { }
	bool IsStateValid(const Point2d& s) override
	{
		for (auto& d : discs)
			if ((s - Point2d(d[0], d[1])).norm() < d[2]) return false;
		return true;
	}
	bool IsPathValid(const PathR2Base& path, float* last = nullptr) override
	{
		sched::point();
		fail->due();
		for (int i = 0; i <= 8; i++)
			if (!IsStateValid(path.Interpolate(i / 8.0))) return false;
		if (last) *last = 1;
		return true;
	}
};

struct Heur : ObstaclesHeuristic {
	using ObstaclesHeuristic::ObstaclesHeuristic;
	void Goal(const Pose2d& g) { SetGoal(g); } // what a search does first
};

struct Shared {
	Ref<SimMap> map;
	Ref<GVD> gvd;
	Ref<StateValidatorOccupancyMap> validator;
};

template <typename P>
static void grow(Hash& h, Rng& r, Fail& f, long size)
{
	auto space = makeRef<StateSpaceR2>(Point2d(0, 0), Point2d(10, 10));
	auto v = makeRef<DiscValidator>(space, &f);
	for (long i = 0; i < size / 2; i++) v->discs.push_back({ r.real(2, 8), r.real(2, 8), r.real(0.2, 1.2) });
	P planner(space, v, makeRef<PathConnectionR2>());
	auto par = planner.GetParameters();
	par.maxIteration = (unsigned)(10 * size);
	par.maxConnectionDistance = 2;
	planner.SetParameters(par);
	planner.SetInitState(Point2d(0.5, 0.5));
	planner.SetGoalState(Point2d(r.real(3, 9), r.real(3, 9)));
	h.add((u64)planner.SearchPath());
	for (auto& q : planner.GetPath()) add(h, q);
}

static u64 job(int kind, u64 seed, long size, long throwAt, Shared& shared)
{
	Rng r(seed);
	sched::stream(seed + 5);
	Fail f { throwAt };
	Hash h;
	try {
		switch (kind) {
		case 0: grow<RRT<Point2d, 2>>(h, r, f, size); break;
		case 1: grow<RRTStar<Point2d, 2>>(h, r, f, size); break;
		case 2:
		case 3: { // grid searches on a map of their own
			auto map = makeRef<SimMap>(1.0f);
			map->InitializeSize((float)size + 2, (float)size + 2);
			map->mazeSeed = seed;
			map->density = r.real(0, 0.4);
			auto cost = [&](const GridCellPosition& a, const GridCellPosition& b) { f.due(); return std::hypot(a.row - b.row, a.col - b.col); };
			auto heur = [](const GridCellPosition& a, const GridCellPosition& b) { return std::hypot(a.row - b.row, a.col - b.col); };
			auto prop = makeRef<AStarStatePropagatorFcnN2>(map, cost);
			GridCellPosition s(0, 0), g((int)size, (int)r.below(size));
			if (kind == 2) {
				AStarN2 a;
				a.Initialize(prop, makeRef<AStarHeuristicFcnN2>(heur));
				a.SetInitState(s);
				a.SetGoalState(g);
				h.add((u64)a.SearchPath());
				for (auto& c : a.GetPath()) { h.add(c.row); h.add(c.col); }
				h.addd(a.GetOptimalCost());
			} else {
				BidirectionalAStarN2 a;
				auto [fh, rh] = BidirectionalAStarN2::GetAverageHeuristicPair(makeRef<AStarHeuristicFcnN2>(heur), makeRef<AStarHeuristicFcnN2>(heur));
				a.Initialize(prop, prop, fh, rh);
				a.SetInitState(s);
				a.SetGoalState(g);
				h.add((u64)a.SearchPath());
				for (auto& c : a.GetPath()) { h.add(c.row); h.add(c.col); }
				h.addd(a.GetOptimalCost());
			}
			break;
		}
		case 4: { // a map of its own
			auto map = makeRef<ObstacleListOccupancyMap>(1.0f);
			map->InitializeSize((float)size + 3, (float)size + 3);
			auto gvd = makeRef<GVD>(map);
			std::vector<Ref<Obstacle>> obs;
			Plan pl;
			pl.cfg["map"] = { 1, (double)size + 3, (double)size + 3, 0, 0 };
			Geo g(pl);
			for (int k = 0; k < 3; k++) {
				obs.push_back(makeObstacle(genObstacle(r, g)));
				map->AddObstacle(obs.back());
				if (k == 1) map->RemoveObstacle(obs[0]);
				gvd->Update();
			}
			for (int i = 0; i < map->Rows(); i++)
				for (int j = 0; j < map->Columns(); j++) {
					h.addd(map->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(i, j));
					h.addd(gvd->GetPathCost(GridCellPosition(i, j)));
				}
			auto heu = makeRef<Heur>(map, 1.0, 1.0);
			heu->Goal(Pose2d(0, 0, 0));
			heu->Update(Pose2d(0, 0, 0));
			for (int i = 0; i < 5; i++) h.addd(heu->GetHeuristicValue(Pose2d(r.real(-2, 2), r.real(-2, 2), 0)));
			break;
		}
		case 5: // paths
			for (long k = 0; k < size; k++) {
				Pose2d a(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)), b(r.real(-3, 3), r.real(-3, 3), r.real(-3, 3));
				PathReedsShepp path(a, ReedsShepp::Solver::GetShortestPath(a, b, 1.0), 1.0);
				h.addd(path.GetLength());
				path.Truncate(0.6);
				for (int i = 0; i <= 4; i++) add(h, path.Interpolate(i / 4.0));
				add(h, path.GetFinalState());
				h.add((u64)path.GetDirection(0.5));
			}
			break;
		case 6: { // samples
			StateSpaceSE2 se2(Pose2d(-1, -2, -3), Pose2d(4, 5, 3));
			StateSpaceR2 r2(Point2d(-1, -2), Point2d(4, 5));
			for (long k = 0; k < size; k++) {
				add(h, se2.SampleUniform());
				add(h, r2.SampleGaussian(Point2d(1, 1), Point2d(2, 2)));
				add(h, se2.SampleGaussian(Pose2d(1, 1, 1), Pose2d(2, 2, 1)));
				for (auto& q : ((StateSpace<Point2d, 2, double>&)r2).SampleUniform(2u)) add(h, q);
			}
			break;
		}
		case 7: { // read-only use of a map that other threads use as well
			auto& v = *shared.validator;
			auto& map = *shared.map;
			auto at = [&] {
				auto c = GridCellPosition((int)r.below(map.Rows()), (int)r.below(map.Columns()));
				auto q = map.GridCellToWorldPosition(c);
				return Pose2d(q, r.real(-3, 3));
			};
			for (long k = 0; k < size; k++) {
				Pose2d a = at(), b = at();
				PathReedsShepp path(a, ReedsShepp::Solver::GetShortestPath(a, b, 1.0), 1.0);
				float last = -1, cost = -1, dist = -1;
				h.add(v.IsPathValid(path, &last));
				h.addd(last);
				h.add(v.IsStateValid(a));
				h.add(shared.gvd->GetPathCost(a.position, cost));
				h.add(shared.gvd->GetDistanceToNearestVoronoiEdge(b.position, dist));
				h.addd(cost);
				h.addd(dist);
			}
			AStarN2 a;
			a.Initialize(makeRef<AStarStatePropagatorFcnN2>(shared.map, [](const GridCellPosition& x, const GridCellPosition& y) { return std::hypot(x.row - y.row, x.col - y.col); }),
				makeRef<AStarHeuristicFcnN2>([](const GridCellPosition&, const GridCellPosition&) { return 0.0; }));
			a.SetInitState(GridCellPosition(0, 0));
			a.SetGoalState(GridCellPosition(map.Rows() - 1, map.Columns() - 1));
			h.add((u64)a.SearchPath());
			h.addd(a.GetOptimalCost());
			break;
		}
		default: { // a whole Hybrid A* planner
			auto map = makeRef<ObstacleListOccupancyMap>(0.5f);
			auto space = makeRef<StateSpaceSE2>(Pose2d(-3, -3, -M_PI), Pose2d(3, 3, M_PI));
			auto v = makeRef<StateValidatorOccupancyMap>(space, map);
			v->minSafeRadius = 0.3f;
			v->minPathInterpolationDistance = 0.2f;
			HybridAStar::SearchParameters par(1.0, 0.5, 1.5, 1.0, 0.0, 5, 1.5, 1.0);
			HybridAStar a(par);
			if (!a.Initialize(v)) return 1;
			map->AddObstacle(makeObstacle({ 0, 0.5, 2.0, 0, r.real(-1, 1), 0 }));
			auto sp = a.GetSmootherParameters();
			sp.maxIterations = 5;
			a.SetSmootherParameters(sp);
			a.SetInitState(Pose2d(-2, r.real(-1, 1), 0));
			a.SetGoalState(Pose2d(2, r.real(-1, 1), r.real(-1, 1)));
			h.add((u64)a.SearchPath());
			for (auto& q : a.GetPath()) add(h, q);
			h.addd(a.GetGraphSearchOptimalCost());
			break;
		}
		}
	} catch (const Injected&) {
		h.add(0xdead);
	}
	return h.h;
}

static const char* kNames[3] = { "h:1", "h:2", "h:3" };

static void execute(const Plan& p)
{
	clockUse(true);
	diskUse(true);
	Profiler::Init();
	Shared shared;
	shared.map = makeRef<SimMap>(Geo(p).res);
	{
		Geo g(p);
		shared.map->SetPosition({ g.ox, g.oy });
		// the validator gives the map the size of its state space
		shared.validator = makeRef<StateValidatorOccupancyMap>(makeRef<StateSpaceSE2>(Pose2d(-g.w / 2, -g.h / 2, -M_PI), Pose2d(g.w / 2, g.h / 2, M_PI)), shared.map);
		shared.validator->minSafeRadius = g.res;
		shared.validator->minPathInterpolationDistance = g.res;
		Rng r(p.seed);
		for (int i = 0; i < 3; i++) shared.map->AddObstacle(makeObstacle(genObstacle(r, g)));
		shared.gvd = makeRef<GVD>(shared.map);
		shared.gvd->Update();
	}
	int n = (int)std::clamp(p.ci("threads", 2), 1l, 3l);
	std::vector<std::vector<Op>> jobs(n);
	std::vector<sched::Switch> sw;
	for (auto& op : p.ops) {
		if (op.name == "job") jobs[std::labs(op.iarg(0)) % n].push_back(op);
		else if (op.name == "sw") sw.push_back({ op.iarg(0), (int)op.iarg(1) });
	}
	stepBudget(400000000ull);
	std::vector<std::vector<u64>> together(n), alone(n);
	auto body = [&](int t, std::vector<std::vector<u64>>& out) {
		return sched::Body { t + 1, [&, t] {
			for (auto& op : jobs[t]) {
				Timer timer;
				ProfilingTimer scope(kNames[t]);
				out[t].push_back(job((int)(std::labs(op.iarg(1)) % kKinds), (u64)op.arg(2), std::clamp(op.iarg(3, 4), 2l, 12l), op.iarg(4, -1), shared));
				if (timer.Elapsed() < 0) violate("time", "negative time");
			}
		} };
	};
	std::vector<sched::Body> all;
	for (int t = 0; t < n; t++) all.push_back(body(t, together));
	sched::run(all, sw);
	u64 sig = sched::signature();
	long pre = sched::stats().preemptions;
	for (int t = 0; t < n; t++) sched::run({ body(t, alone) }, {});
	long total = 0;
	for (int t = 0; t < n; t++)
		for (size_t j = 0; j < jobs[t].size(); j++) {
			total++;
			if (together[t][j] != alone[t][j])
				violate("interference", "thread %d, job %zu (kind %ld): the result differs from that of the same job alone", t + 1, j, jobs[t][j].iarg(1) % kKinds);
		}
	Profiler::Release();
	auto d = trace::read(*diskFile("profiling.json"));
	if (d.malformed || !d.complete) violate("trace", "the trace of the threads cannot be read: %s", d.why.c_str());
	for (int t = 0; t < n; t++) {
		size_t c = 0;
		for (auto& e : d.events) c += e.name == kNames[t];
		if (c != 2 * jobs[t].size()) violate("trace", "%zu events of thread %d in the trace, %zu were recorded", c, t + 1, 2 * jobs[t].size());
	}
	state(sig);
	probe("points", sched::stats().points);
	if (sched::stats().blocked) probe("waited-for-a-lock");
	if (pre > 0 && total > 1) nontrivial();
	for (int t = 0; t < n; t++)
		for (size_t j = 0; j < jobs[t].size(); j++) ev("thread %d job %zu %016llx", t + 1, j, (unsigned long long)together[t][j]);
	ev("preemptions %ld points %ld events %zu sig %016llx", pre, sched::stats().points, d.events.size(), (unsigned long long)sig);
}

const Property sim::property = { "C11", generate, execute };
