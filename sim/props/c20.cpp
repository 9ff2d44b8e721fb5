// C20: the Python interface.  A history of calls is executed twice: natively, and by
// a Python program through the module pyplanning inside an embedded interpreter.
// Everything observable must agree.  The simulator decides which Python references
// are dropped and when the garbage collector runs (also inside callbacks), and which
// callback raises or returns something unusable.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "world.h"
#include "algo/a_star_n2.h"
#include "algo/hybrid_a_star.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_constant_steer.h"
#include "paths/path_se2.h"
#include "models/kinematic_bicycle_model.h"
#include "state_space/state_space_se2.h"
#include "state_validator/gvd.h"
#include "state_validator/obstacle.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_validator/state_validator_free.h"
using namespace world;
using namespace sim;

extern "C" PyObject* PyInit_pyplanning();

static double q(double v) { return std::round(v * 256) / 256; }
static const int N = 3; // slots of each kind

// ---------------------------------------------------------------- generation
static void generate(Rng& r, Plan& p)
{
	auto slot = [&] { return (double)r.below(N); };
	auto pose = [&](std::vector<double>& a, double w) { a.push_back(q(r.real(-w, w))); a.push_back(q(r.real(-w, w))); a.push_back(q(r.real(-3.1, 3.1))); };
	double maps[N] = {};
	auto newMap = [&](double s, bool hyb) {
		double res = (float)r.pick(std::vector<double> { 0.25, 0.5, 1.0 }), w = r.range(3, 10), h = r.range(3, 10);
		if (hyb) { res = 0.5; w = r.range(6, 10); h = r.range(6, 10); }
		maps[(int)s] = std::min(w, h);
		p.ops.push_back(Op("map", { s, (double)r.chance(hyb ? 0.25 : 0.35), res, w, h, q(r.real(-3, 3)), q(r.real(-3, 3)), (double)r.below(1000), (double)r.below(40) }));
	};
	bool hybrid = r.chance(0.12);
	double focus = slot();
	newMap(focus, hybrid);
	if (hybrid) p.ops.push_back(Op("val", { 0, focus, 8, 8, (float)0.2, (float)0.1 }));
	long n = r.range(4, 28);
	double faultRate = r.pick(std::vector<double> { 0, 0.3, 0.6 }), dropRate = r.pick(std::vector<double> { 0, 0.15, 0.3 });
	auto search = [&](double s) {
		Op op("srch", { s, (double)r.below(1000), (double)r.below(1000), (double)r.below(1000), (double)r.below(1000) });
		if (r.chance(faultRate)) {
			static const std::vector<std::string> kinds = { "throw:cost", "throw:heur", "throw:occ", "bad:cost", "bad:heur", "bad:occ", "gc:callback", "drop:callback", "gc:callback", "drop:callback" };
			for (long k = r.range(1, 2); k > 0; k--) op.f.push_back({ r.pick(kinds), r.chance(0.5) ? r.below(10) : r.below(200), (double)r.below(8) });
		}
		return op;
	};
	for (long i = 0; i < n; i++) {
		double m = r.chance(0.8) ? focus : slot();
		double u = r.real();
		if (r.chance(dropRate)) {
			if (r.chance(0.75)) p.ops.push_back(Op("drop", { (double)r.below(8), r.chance(0.5) ? focus : slot() }));
			else p.ops.push_back(Op("gc"));
		}
		Op op;
		if (u < 0.05) { newMap(slot(), false); continue; }
		else if (u < 0.20) {
			op = Op("obst", { slot(), (double)r.below(6), q(r.real(0.2, 2)), q(r.real(0.2, 2)) });
			pose(op.a, 4);
		} else if (u < 0.24) { op = Op("pose", { slot() }); pose(op.a, 4); }
		else if (u < 0.34) op = Op("add", { m, slot() });
		else if (u < 0.39) op = Op("rem", { m, slot() });
		else if (u < 0.43) op = Op("upd", { m });
		else if (u < 0.47) op = Op("qmap", { m });
		else if (u < 0.51) op = Op("conv", { m, q(r.real(-6, 6)), q(r.real(-6, 6)), (double)r.below(12), (double)r.below(12) });
		else if (u < 0.54) op = Op("gvd", { slot(), m });
		else if (u < 0.58) op = Op("qgvd", { slot(), (double)r.below(1000), (double)r.chance(0.7) });
		else if (u < 0.61) op = Op("val", { slot(), m, (double)r.range(3, 8), (double)r.range(3, 8), (float)r.real(0, 1), (float)r.real(0.05, 0.3) });
		else if (u < 0.65) { op = Op("qval", { slot(), slot() }); pose(op.a, 5); }
		else if (u < 0.70) {
			op = Op("path", { slot(), (double)r.below(4), q(r.real(0.5, 3)), q(r.real(0, 2)), q(r.real(1, 2)), q(r.real(1, 2)), q(r.real(-0.5, 0.5)), (double)r.below(2) });
			pose(op.a, 4);
			pose(op.a, 4);
		} else if (u < 0.75) op = Op("qpath", { slot(), q(r.real()), q(r.real()) });
		else if (u < 0.77) op = Op("trunc", { slot(), q(r.real()) });
		else if (u < 0.80) { op = Op("space", { (double)r.below(1000) }); pose(op.a, 5); }
		else if (u < 0.86) op = Op("astar", { slot(), (double)r.below(2), m, (double)r.below(100), (double)r.below(3) });
		else if (u < 0.87) op = Op("none", { m });
		else if (u < 0.88 || r.chance(0.04)) {
			op = Op("sub", { slot(), q(r.real(-3, 3)) });
			pose(op.a, 4);
			pose(op.a, 4);
			if (r.chance(0.5)) {
				static const std::vector<std::string> kinds = { "throw:state", "throw:valid", "throw:connect", "throw:plan", "bad:state", "bad:valid", "bad:connect", "bad:plan", "gc:callback" };
				op.f.push_back({ r.pick(kinds), r.below(2), (double)r.below(8) });
			}
		}
		else if (hybrid && u < 0.90) op = Op("hyb", { 0, 0, q(r.real(1, 2)), q(r.real(0, 2)), q(r.real(1, 2)), q(r.real(1, 2)), 0, (double)r.range(3, 6), 1.0, 0.3, (float)0.25, (double)r.range(0, 20), (double)r.below(2) });
		else if (hybrid && u < 0.95) { op = Op("hs", { 0 }); pose(op.a, 3.5); pose(op.a, 3.5); }
		else {
			op = search(slot());
		}
		p.ops.push_back(op);
		if (op.name == "astar")
			for (long k = r.range(1, 2); k > 0; k--) p.ops.push_back(search(op.a[0]));
		if (op.name == "gvd" && r.chance(0.7)) p.ops.push_back(Op("qgvd", { op.a[0], (double)r.below(1000), 1 }));
		if (op.name == "path") {
			p.ops.push_back(Op("qpath", { op.a[0], q(r.real()), q(r.real()) }));
			if (r.chance(0.15)) {
				Op t("sub", { op.a[0], q(r.real(-3, 3)) });
				pose(t.a, 4);
				pose(t.a, 4);
				p.ops.push_back(t);
			}
			if (r.chance(0.3)) p.ops.push_back(Op("trunc", { op.a[0], q(r.real()), q(r.real()) }));
		}
		if (op.name == "val")
			for (int k = 0; k < 3; k++) {
				Op s("qval", { op.a[0], slot() });
				pose(s.a, 4);
				p.ops.push_back(s);
			}
		if (op.name == "obst" && r.chance(0.6)) p.ops.push_back(Op("add", { m, op.a[0] }));
		if (op.name == "hyb" && r.chance(0.4)) {
			p.ops.push_back(Op("drop", { 0, focus }));
			p.ops.push_back(Op("drop", { 3, 0 }));
			p.ops.push_back(Op("gc"));
		}
		if (op.name == "hyb") { Op s("hs", { 0 }); pose(s.a, 3.5); pose(s.a, 3.5); p.ops.push_back(s); }
	}
}

// ---------------------------------------------------------------- native execution
using Obs = std::vector<double>;
static const double Aborted = -99;

/// The faults of the current operation, as the native execution sees them (not counted as injected).
static const Op* n_op = nullptr;
static std::map<size_t, long> n_seen;
static bool n_dropped = false;
static bool nativeDue(const std::string& kind)
{
	bool hit = false;
	for (size_t i = 0; n_op && i < n_op->f.size(); i++)
		if (n_op->f[i].kind == kind) hit |= n_seen[i]++ == n_op->f[i].at;
	return hit;
}
static void nativeSeam(const std::string& kind)
{
	if (nativeDue("drop:callback")) n_dropped = true;
	if (nativeDue("throw:" + kind) || nativeDue("bad:" + kind)) throw Injected(kind);
}

static bool maze(long row, long col, long seed, long dens) { return (((row * 73 + col * 151 + seed) * 2654435761ll) % 4294967296ll / 7) % 100 < dens; }
struct NativeMap : OccupancyMap {
	long seed, dens;
	NativeMap(float res, long s, long d) : OccupancyMap(res), seed(s), dens(d) { }
	bool IsOccupied(const GridCellPosition& c) override
	{
		nativeSeam("occ");
		return maze(c.row, c.col, seed, dens);
	}
};
static double euclid(const GridCellPosition& a, const GridCellPosition& b) { return std::sqrt((double)((a.row - b.row) * (a.row - b.row) + (a.col - b.col) * (a.col - b.col))); }
static double edge(const GridCellPosition& a, const GridCellPosition& b, long seed)
{
	long x = a.row * 64 + a.col, y = b.row * 64 + b.col;
	return euclid(a, b) * (1 + 0.25 * ((std::min(x, y) * 31 + std::max(x, y) * 17 + seed) % 5));
}
struct NativeHeur : AStarHeuristic<GridCellPosition> {
	GridCellPosition goal;
	double GetHeuristicValue(const GridCellPosition& s) override
	{
		nativeSeam("heur");
		return euclid(s, goal);
	}
	void SetGoal(const GridCellPosition& g) override { goal = g; }
};
struct AStarX : AStarN2 {
	size_t explored() const { return m_explored.size(); }
};

struct Native {
	struct M { Ref<OccupancyMap> map; Ref<ObstacleListOccupancyMap> list; bool fresh = true; };
	struct G { Scope<GVD> gvd; Ref<OccupancyMap> map; };
	struct A { Scope<AStarX> a; Scope<BidirectionalAStarN2> b; Ref<OccupancyMap> map; };
	M maps[N];
	Ref<Obstacle> obst[N];
	G gvds[N];
	Ref<StateValidatorOccupancyMap> vals[N];
	Ref<PathSE2Base> paths[N];
	A astars[N];
	Scope<HybridAStar> hyb;
	std::map<OccupancyMap*, std::vector<Ref<Obstacle>>> registered;
	std::map<OccupancyMap*, std::map<Obstacle*, Cells>> footprints;
	std::set<OccupancyMap*> tie; // the order of equal obstacles depends on addresses

	static void add(Obs& o, const Pose2d& p) { o.push_back(p.x()); o.push_back(p.y()); o.push_back(p.theta); }
	static void add(Obs& o, const Point2d& p) { o.push_back(p.x()); o.push_back(p.y()); }
	static void add(Obs& o, const GridCellPosition& c) { o.push_back(c.row); o.push_back(c.col); }
	static Pose2d pose(const Op& op, size_t i) { return Pose2d(op.arg(i), op.arg(i + 1), op.arg(i + 2)); }
	static Ref<Shape> shape(int kind, double a, double b)
	{
		switch (kind) {
		case 0: return makeRef<RectangleShape>(a, b);
		case 1: return makeRef<CircleShape>(a, 8);
		case 2: return makeRef<RegularPolygonShape>(a, 5);
		case 3: return makeRef<PolygonShape>(std::vector<Point2d> { { 0, 0 }, { a, 0 }, { 0, b } });
		default: {
			auto c = makeRef<CompositeShape>();
			c->Add(shape(0, a, b));
			c->Add(shape(kind == 4 ? 1 : 3, b, a));
			return c;
		}
		}
	}

	Obs step(const Op& op, size_t k)
	{
		Obs o;
		auto S = [&](size_t i) { return (int)(std::abs(op.iarg(i)) % N); };
		rngReset(mix(k + 77));
		const std::string& n = op.name;
		if (n == "map") {
			M& m = maps[S(0)];
			m = M();
			float res = (float)std::max(0.2, op.arg(2, 1));
			if (op.iarg(1)) m.map = makeRef<NativeMap>(res, op.iarg(7), op.iarg(8));
			else m.map = m.list = makeRef<ObstacleListOccupancyMap>(res);
			m.map->InitializeSize((float)std::max(1.0, op.arg(3, 4)), (float)std::max(1.0, op.arg(4, 4)));
			m.map->SetPosition({ op.arg(5), op.arg(6) });
			o = { (double)m.map->Rows(), (double)m.map->Columns() };
			add(o, m.map->GetPosition());
		} else if (n == "obst" || n == "pose") {
			auto& ob = obst[S(0)];
			if (n == "obst") {
				ob = makeRef<Obstacle>();
				ob->SetShape(shape((int)op.iarg(1), op.arg(2), op.arg(3)));
				ob->SetPose(pose(op, 4));
			} else if (ob)
				ob->SetPose(pose(op, 1));
			if (ob)
				for (auto& v : ob->GetBoundaryWorldPosition()) add(o, v);
		} else if (n == "add" || n == "rem") {
			M& m = maps[S(0)];
			auto& ob = obst[S(1)];
			if (!m.list || !ob) return o;
			m.fresh = false;
			auto& foot = footprints[m.map.get()];
			if (n == "add") {
				auto cells = ob->GetBoundaryGridCellPosition(*m.map);
				o.push_back(m.list->AddObstacle(ob));
				if (o[0]) {
					registered[m.map.get()].push_back(ob);
					for (auto& c : cells) foot[ob.get()].insert({ c.row, c.col });
				}
				o.push_back((double)cells.size());
				for (auto& c : cells) add(o, c);
			} else {
				o.push_back(m.list->RemoveObstacle(ob));
				if (o[0]) {
					auto gone = foot[ob.get()];
					foot.erase(ob.get());
					int sharing = 0;
					for (auto& [x, cells] : foot)
						for (auto& c : cells)
							if (gone.count(c)) { sharing++; break; }
					if (sharing > 1) tie.insert(m.map.get());
				}
			}
			o.push_back(m.list->GetNumObstacles());
		} else if (n == "upd") {
			M& m = maps[S(0)];
			if (m.map) m.map->Update();
		} else if (n == "qmap") {
			M& m = maps[S(0)];
			if (!m.map) return o;
			for (int r = 0; r < m.map->Rows(); r++)
				for (int c = 0; c < m.map->Columns(); c++) {
					o.push_back(m.map->GetOccupancyValue(r, c) >= 0);
					o.push_back(m.map->GetOccupancyValue(GridCellPosition(r, c)) >= 0);
					o.push_back(m.map->IsOccupied({ r, c }));
				}
		} else if (n == "conv") {
			M& m = maps[S(0)];
			if (!m.map) return o;
			Point2d x(op.arg(1), op.arg(2));
			GridCellPosition c((int)op.iarg(3), (int)op.iarg(4));
			add(o, m.map->GridCellToLocalPosition(c));
			add(o, m.map->GridCellToWorldPosition(c));
			for (bool b : { true, false }) {
				add(o, m.map->LocalPositionToGridCell(x, b));
				add(o, m.map->WorldPositionToGridCell(x, b));
			}
			add(o, m.map->LocalPositionToWorldPosition(x));
			add(o, m.map->WorldPositionToLocalPosition(x));
			o.push_back(m.map->IsInsideMap(x));
			o.push_back(m.map->IsInsideMap(c));
			add(o, x + Point2d(c.row, c.col));
			add(o, x - Point2d(c.row, c.col));
			add(o, Pose2d(x, 3.0) + Pose2d(1, 2, 3));
			add(o, Pose2d(x, 3.0) - Pose2d(1, 2, 3));
			o.push_back(Pose2d(x, 1.0) == Pose2d(x.x(), x.y(), 1.0));
			o.push_back(Pose2d(x, 1.0) != Pose2d(x.x(), x.y(), 1.5));
		} else if (n == "gvd") {
			M& m = maps[S(1)];
			if (!m.map) return o;
			m.fresh = false;
			gvds[S(0)].gvd = makeScope<GVD>(m.map);
			gvds[S(0)].map = m.map;
		} else if (n == "qgvd") {
			G& g = gvds[S(0)];
			if (!g.gvd) return o;
			if (op.iarg(2)) g.gvd->Update();
			if (tie.count(g.map.get())) return { Aborted };
			Rng r((u64)op.arg(1));
			for (int i = 0; i < 12; i++) {
				int row = (int)((op.iarg(1) + i * 7) % g.map->Rows()), col = (int)((op.iarg(1) + i * 5) % g.map->Columns());
				GridCellPosition c(row, col);
				o.push_back(g.gvd->GetDistanceToNearestObstacle(row, col));
				o.push_back(g.gvd->GetDistanceToNearestObstacle(c));
				o.push_back(g.gvd->GetDistanceToNearestVoronoiEdge(row, col));
				o.push_back(g.gvd->GetDistanceToNearestVoronoiEdge(c));
				o.push_back(g.gvd->GetPathCost(row, col));
				o.push_back(g.gvd->GetPathCost(c));
			}
			float x;
			for (Point2d y : { Point2d(0.3, 0.2), Point2d(50, 50) }) {
				o.push_back(g.gvd->GetDistanceToNearestObstacle(y, x));
				o.push_back(g.gvd->GetDistanceToNearestVoronoiEdge(y, x));
				o.push_back(g.gvd->GetPathCost(y, x));
			}
		} else if (n == "val") {
			M& m = maps[S(1)];
			if (!m.map || !m.fresh) return o;
			m.fresh = false;
			auto s = makeRef<StateSpaceSE2>(Pose2d(-op.arg(2) / 2, -op.arg(3) / 2, -M_PI), Pose2d(op.arg(2) / 2, op.arg(3) / 2, M_PI));
			auto v = makeRef<StateValidatorOccupancyMap>(s, m.map);
			v->minSafeRadius = (float)op.arg(4);
			v->minPathInterpolationDistance = (float)std::max(0.05, op.arg(5));
			vals[S(0)] = v;
			o = { (double)m.map->Rows(), (double)m.map->Columns() };
			add(o, v->GetStateSpace()->bounds[0]);
			add(o, v->GetStateSpace()->bounds[1]);
		} else if (n == "qval") {
			auto& v = vals[S(0)];
			if (!v) return o;
			auto pz = pose(op, 2);
			o = { (double)v->IsStateValid(pz), v->minSafeRadius, v->minPathInterpolationDistance, (double)v->GetOccupancyMap()->Rows(), (double)v->GetStateSpace()->ValidateBounds(pz) };
			auto& path = paths[S(1)];
			if (path) {
				o.push_back(v->IsPathValid(*path));
				o.push_back(StateValidatorSE2Free(v->GetStateSpace()).IsPathValid(*path));
			}
		} else if (n == "path") {
			auto& path = paths[S(0)];
			Pose2d a = pose(op, 8), b = pose(op, 11);
			double r = std::max(0.3, op.arg(2, 1));
			switch (op.iarg(1) % 4) {
			case 0: path = makeRef<PathSE2>(a, b); break;
			case 1: path = PathConnectionSE2().Connect(a, b); break;
			case 2: path = PathConnectionReedsShepp(r, op.arg(3), op.arg(4, 1), op.arg(5, 1)).Connect(a, b); break;
			default: path = makeRef<PathConstantSteer>(makeRef<KinematicBicycleModel>(r, 0.0), a, op.arg(6), op.arg(3), op.iarg(7) ? Direction::Forward : Direction::Backward); break;
			}
			o.push_back(path->GetLength());
			add(o, path->GetInitialState());
			add(o, path->GetFinalState());
		} else if (n == "qpath" || n == "trunc") {
			auto& path = paths[S(0)];
			if (!path) return o;
			double ratio = std::clamp(op.arg(1), 0.0, 1.0);
			if (n == "trunc") path->Truncate(ratio);
			o.push_back(path->GetLength());
			add(o, path->GetInitialState());
			add(o, path->GetFinalState());
			add(o, path->Interpolate(ratio));
			for (auto& x : path->Interpolate(std::vector<double> { 0, std::clamp(op.arg(2), 0.0, 1.0), 1 })) add(o, x);
			if (auto nh = std::dynamic_pointer_cast<PathNonHolonomicSE2Base>(path)) {
				o.push_back((double)(int)nh->GetDirection(ratio));
				for (double c : nh->GetCuspPointRatios()) o.push_back(c);
				if (auto cs = std::dynamic_pointer_cast<PathConstantSteer>(path)) o.push_back(cs->GetSteeringAngle());
				if (auto rs = std::dynamic_pointer_cast<PathReedsShepp>(path)) o.push_back(rs->GetMinTurningRadius());
			}
		} else if (n == "space") {
			StateSpaceSE2 s(std::array<Pose2d, 2> { Pose2d(-3, -2, -3), Pose2d(4, 3, 3) });
			Pose2d x = pose(op, 1);
			o.push_back(s.ValidateBounds(x));
			s.EnforceBounds(x);
			add(o, x);
			for (int i = 0; i < 4; i++) {
				add(o, s.SampleUniform());
				add(o, s.SampleGaussian(x, Pose2d(1, 2, 0.5)));
			}
		} else if (n == "astar") {
			M& m = maps[S(2)];
			if (!m.map) return o;
			A& a = astars[S(0)];
			a.map = m.map;
			m.fresh = false;
			long seed = op.iarg(3), hk = op.iarg(4) % 3;
			auto prop = makeRef<AStarStatePropagatorFcnN2>(m.map, [seed](const GridCellPosition& x, const GridCellPosition& y) {
				nativeSeam("cost");
				return edge(x, y, seed);
			});
			auto heur = [&]() -> Ref<AStarHeuristic<GridCellPosition>> {
				if (hk == 1) return makeRef<NativeHeur>();
				return makeRef<AStarHeuristicFcnN2>([](const GridCellPosition& x, const GridCellPosition& y) {
					nativeSeam("heur");
					return euclid(x, y);
				});
			};
			if (op.iarg(1) % 2 == 0) {
				a.b.reset();
				if (!a.a || hk == 2) a.a = makeScope<AStarX>();
				o.push_back(a.a->Initialize(prop, heur()));
			} else {
				hk = 0;
				a.a.reset();
				a.b = makeScope<BidirectionalAStarN2>();
				auto [f, r] = BidirectionalAStarN2::GetAverageHeuristicPair(heur(), heur());
				o.push_back(a.b->Initialize(prop, prop, f, r));
			}
		} else if (n == "srch") {
			A& a = astars[S(0)];
			if (!a.a && !a.b) return o;
			PathPlannerN2Base* pl = a.a ? (PathPlannerN2Base*)a.a.get() : a.b.get();
			int R = a.map->Rows(), C = a.map->Columns();
			pl->SetInitState({ (int)(op.iarg(1) % R), (int)(op.iarg(2) % C) });
			pl->SetGoalState({ (int)(op.iarg(3) % R), (int)(op.iarg(4) % C) });
			Status st;
			n_op = &op;
			n_seen.clear();
			n_dropped = false;
			bool aborted = false;
			try {
				st = pl->SearchPath();
			} catch (const Injected&) {
				aborted = true;
			}
			n_op = nullptr;
			if (n_dropped)
				for (int i = 0; i < N; i++) {
					maps[i] = M();
					vals[i].reset();
					obst[i].reset();
				}
			if (aborted) return { Aborted };
			o.push_back(st == Status::Success);
			for (auto& c : pl->GetPath()) add(o, c);
			o.push_back(a.a ? a.a->GetOptimalCost() : a.b->GetOptimalCost());
			if (a.a) o.push_back((double)a.a->explored());
			else {
				auto [f, r] = a.b->GetExploredStates();
				o.push_back((double)f.size());
				o.push_back((double)r.size());
			}
		} else if (n == "hyb") {
			if (!vals[S(1)]) return o;
			hyb = makeScope<HybridAStar>(HybridAStar::SearchParameters(op.arg(2, 1), op.arg(3), op.arg(4, 1), op.arg(5, 1), op.arg(6), (unsigned)op.iarg(7, 3), op.arg(8, 1), op.arg(9, 0.3)));
			o.push_back(hyb->Initialize(vals[S(1)]));
			hyb->pathInterpolation = (float)op.arg(10, 0.25);
			auto sp = hyb->GetSmootherParameters();
			sp.maxIterations = (int)op.iarg(11);
			sp.pathWeight = (float)op.arg(12);
			hyb->SetSmootherParameters(sp);
			auto& s = hyb->GetSearchParameters();
			for (double x : { s.wheelbase, s.minTurningRadius, s.directionSwitchingCost, s.reverseCostMultiplier, s.forwardCostMultiplier, s.voronoiCostMultiplier, (double)s.numGeneratedMotion, s.spatialResolution, s.angularResolution }) o.push_back(x);
			for (double x : { (double)sp.stepTolerance, (double)sp.maxIterations, (double)sp.learningRate, (double)sp.pathWeight, (double)sp.smoothWeight, (double)sp.voronoiWeight, (double)sp.collisionWeight, (double)sp.curvatureWeight, (double)sp.collisionRatio, (double)sp.maxCurvature }) o.push_back(x);
		} else if (n == "hs") {
			if (!hyb) return o;
			auto map = hyb->GetStateValidator()->GetOccupancyMap();
			hyb->SetInitState(pose(op, 1));
			hyb->SetGoalState(pose(op, 4));
			o.push_back(hyb->SearchPath() == Status::Success);
			if (tie.count(map.get())) return { Aborted };
			o.push_back((double)(int)hyb->GetStats().graphSearchStatus);
			o.push_back((double)(int)hyb->GetStats().smoothingStatus);
			o.push_back(hyb->GetGraphSearchOptimalCost());
			for (auto& x : hyb->GetPath()) add(o, x);
			for (auto& x : hyb->GetSmoothedPath()) add(o, x);
			for (auto& x : hyb->GetGraphSearchPath()) o.push_back(x->GetLength());
			o.push_back((double)hyb->GetGraphSearchExploredPathSet().size());
		} else if (n == "sub") {
			// validators, planners and connections defined by the program
			Pose2d a = pose(op, 2), b = pose(op, 5);
			double limit = op.arg(1);
			n_op = &op;
			n_seen.clear();
			try {
				for (auto& z : { a, b }) {
					nativeSeam("state");
					o.push_back(z.x() > limit);
				}
				if (auto& path = paths[S(0)]) {
					nativeSeam("valid");
					o.push_back(path->GetFinalState().x() > limit);
				}
				nativeSeam("connect");
				o.push_back(PathSE2(a, b).GetLength());
				for (int i = 0; i < 2; i++) {
					nativeSeam("plan");
					o.push_back(limit > 0);
					nativeSeam("plan");
					if (i == 0) {
						add(o, a);
						add(o, b);
					} else
						add(o, GridCellPosition((int)(limit * 10), 3));
				}
			} catch (const Injected&) { o = { Aborted }; }
			n_op = nullptr;
		} else if (n == "drop") {
			drop(op);
		}
		return o;
	}
	void drop(const Op& op)
	{
		int s = (int)(std::abs(op.iarg(1)) % N);
		switch (op.iarg(0) % 8) {
		case 0: maps[s] = M(); break;
		case 1: obst[s].reset(); break;
		case 2: gvds[s] = G(); break;
		case 3: vals[s].reset(); break;
		case 4: paths[s].reset(); break;
		case 5: astars[s] = A(); break;
		case 6: hyb.reset(); break;
		default: break; // keeps everything: drops what only Python has (see there)
		}
	}
};

// ---------------------------------------------------------------- Python execution
static const char* kProgram = R"PY(
import gc, math, sim
import pyplanning as pp
gc.disable()
N = 3
P = pp.Point2d
C = pp.GridCellPosition
class Boom(Exception): pass
KINDS = [ValueError, Boom, KeyboardInterrupt, StopIteration, MemoryError, SystemExit, RuntimeError, TypeError]
class World:
    def __init__(self):
        self.maps = [None] * N; self.obst = [None] * N; self.gvds = [None] * N; self.vals = [None] * N
        self.paths = [None] * N; self.astars = [None] * N; self.hyb = None
        self.extra = []      # references the program keeps to parts of what it built
        self.raised = None   # the exception a callback raised
        self.bad = False
        self.dropnow = None
W = World()
def seam(kind):
    if sim.due('gc:callback'): gc.collect()
    if sim.due('drop:callback'):
        W.extra.clear()
        W.maps = [None] * N; W.vals = [None] * N; W.obst = [None] * N
        W.dropped = True
        gc.collect()
    if sim.due('throw:' + kind):
        W.raised = KINDS[int(sim.arg())]('injected')
        raise W.raised
    if sim.due('bad:' + kind):
        W.bad = True
        return True
    return False
def unusable(): return [None, 'x', [], {}, object(), (1, 2), b'', len][int(sim.arg())]
def maze(row, col, seed, dens): return (((row * 73 + col * 151 + seed) * 2654435761) % 4294967296 // 7) % 100 < dens
class Maze(pp.OccupancyMap):
    def __init__(self, res, seed, dens):
        pp.OccupancyMap.__init__(self, res)
        self.seed = seed; self.dens = dens
    def IsOccupied(self, c):
        if seam('occ'): return unusable2()
        return maze(c.row, c.col, self.seed, self.dens)
def unusable2(): return ['x', [1], {}, object(), (1, 2), b'', len, 'true'][int(sim.arg())]
def euclid(a, b): return math.sqrt((a.row - b.row) ** 2 + (a.col - b.col) ** 2)
def edge(a, b, seed):
    x = a.row * 64 + a.col; y = b.row * 64 + b.col
    return euclid(a, b) * (1 + 0.25 * ((min(x, y) * 31 + max(x, y) * 17 + seed) % 5))
class Heur(pp.AStarHeuristicN2):
    def __init__(self):
        pp.AStarHeuristicN2.__init__(self)
        self.goal = None
    def GetHeuristicValue(self, s):
        if seam('heur'): return unusable()
        return euclid(s, self.goal)
    def SetGoal(self, g):
        self.goal = C(g.row, g.col)
class Val(pp.StateValidatorSE2Base):
    def __init__(self, s, limit):
        pp.StateValidatorSE2Base.__init__(self, s)
        self.limit = limit
    def IsStateValid(self, z):
        if seam('state'): return unusable2()
        return z.x() > self.limit
    def IsPathValid(self, p, last):
        if seam('valid'): return unusable2()
        return p.get_final_state().x() > self.limit
class Con(pp.PathConnectionSE2Base):
    def __init__(self): pp.PathConnectionSE2Base.__init__(self)
    def Connect(self, a, b):
        if seam('connect'): return unusable2()
        return pp.PathSE2(a, b)
def planner(base, good, path):
    class Planner(base):
        def __init__(self): base.__init__(self)
        def SearchPath(self):
            if seam('plan'): return unusable2()
            return pp.Status.SUCCESS if good else pp.Status.FAILURE
        def GetPath(self):
            if seam('plan'): return sim
            return path
    return Planner()
class Map:
    def __init__(self, m, custom):
        self.m = m; self.custom = custom; self.fresh = True
def pose(a, i): return pp.Pose2d(a[i], a[i + 1], a[i + 2])
def flat(x):
    if isinstance(x, pp.Pose2d): return [x.x(), x.y(), x.theta]
    if isinstance(x, P): return [x.x(), x.y()]
    if isinstance(x, C): return [float(x.row), float(x.col)]
    return [float(x)]
def flats(*xs):
    o = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            for y in x: o += flat(y)
        else: o += flat(x)
    return o
def shape(kind, a, b):
    if kind == 0: return pp.RectangleShape(a, b)
    if kind == 1: return pp.CircleShape(a, 8)
    if kind == 2: return pp.RegularPolygonShape(a, 5)
    if kind == 3: return pp.PolygonShape([P(0, 0), P(a, 0), P(0, b)])
    c = pp.CompositeShape()
    c.add(shape(0, a, b)); c.add(shape(1 if kind == 4 else 3, b, a))
    return c
def good(s): return 1.0 if s == pp.Status.SUCCESS else 0.0 if s == pp.Status.FAILURE else -5.0

def step(n, a, k):
    def S(i): return abs(int(a[i])) % N if i < len(a) else 0
    def A(i, d=0.0): return a[i] if i < len(a) else d
    def I(i, d=0): return int(a[i]) if i < len(a) else d
    if n == 'map':
        res = max(0.2, A(2, 1.0))
        custom = I(1) != 0
        m = Maze(res, I(7), I(8)) if custom else pp.ObstacleListOccupancyMap(res)
        m.initialize_size(max(1.0, A(3, 4.0)), max(1.0, A(4, 4.0)))
        m.set_position(P(A(5), A(6)))
        W.maps[S(0)] = Map(m, custom)
        return flats(m.rows(), m.columns(), m.get_position())
    if n in ('obst', 'pose'):
        ob = W.obst[S(0)]
        if n == 'obst':
            ob = pp.Obstacle()
            s = shape(min(max(I(1), 0), 5), A(2), A(3))
            ob.set_shape(s)
            W.extra.append(s)
            ob.set_pose(pp.Pose2d(A(4), A(5), A(6)))
            W.obst[S(0)] = ob
        elif ob is not None: ob.set_pose(pp.Pose2d(A(1), A(2), A(3)))
        return [] if ob is None else flats(ob.get_boundary_world_position())
    if n in ('add', 'rem'):
        m = W.maps[S(0)]; ob = W.obst[S(1)]
        if m is None or m.custom or ob is None: return []
        m.fresh = False
        if n == 'add':
            cells = ob.get_boundary_grid_cell_position(m.m)
            r = m.m.add_obstacle(ob)
            return flats(r, len(cells), cells, m.m.get_num_obstacles())
        return flats(m.m.remove_obstacle(ob), m.m.get_num_obstacles())
    if n == 'upd':
        m = W.maps[S(0)]
        if m is not None: m.m.update()
        return []
    if n == 'qmap':
        m = W.maps[S(0)]
        if m is None: return []
        o = []
        for r in range(m.m.rows()):
            for c in range(m.m.columns()):
                o += [float(m.m.get_occupancy_value(r, c) >= 0), float(m.m.get_occupancy_value(C(r, c)) >= 0), float(m.m.is_occupied(C(r, c)))]
        return o
    if n == 'conv':
        m = W.maps[S(0)]
        if m is None: return []
        m = m.m
        x = P(A(1), A(2)); c = C(I(3), I(4)); d = P(float(c.row), float(c.col))
        o = flats(m.grid_cell_to_local_position(c), m.grid_cell_to_world_position(c))
        for b in (True, False): o += flats(m.local_position_to_grid_cell(x, b), m.world_position_to_grid_cell(x, b))
        o += flats(m.local_position_to_world_position(x), m.world_position_to_local_position(x), m.is_inside_map(x), m.is_inside_map(c), x + d, x - d)
        o += flats(pp.Pose2d(x, 3.0) + pp.Pose2d(1, 2, 3), pp.Pose2d(x, 3.0) - pp.Pose2d(1, 2, 3))
        o += flats(pp.Pose2d(x, 1.0) == pp.Pose2d(x.x(), x.y(), 1.0), pp.Pose2d(x, 1.0) != pp.Pose2d(x.x(), x.y(), 1.5))
        for e, names in ((pp.SmoothingStatus, 'MAX_ITERATION STEP_TOLERANCE PATH_SIZE COLLISION'), (pp.Status, 'SUCCESS FAILURE'), (pp.Steer, 'LEFT STRAIGHT RIGHT'), (pp.Direction, 'FORWARD BACKWARD NO_MOTION')):
            for x in names.split():
                if int(getattr(e, x)) != int(sim.const(x)): raise Exception('%s means something else' % x)
        if int(pp.SmoothingStatus.FAILURE) != int(sim.const('SFAILURE')): raise Exception('FAILURE means something else')
        if repr(c) != '<GridCellPosition: row %d, col: %d>' % (c.row, c.col): raise Exception('repr ' + repr(c))
        return o
    if n == 'gvd':
        m = W.maps[S(1)]
        if m is None: return []
        m.fresh = False
        W.gvds[S(0)] = (pp.GVD(m.m), m.m.rows(), m.m.columns())
        return []
    if n == 'qgvd':
        g = W.gvds[S(0)]
        if g is None: return []
        g, rows, cols = g
        if I(2): g.update()
        o = []
        for i in range(12):
            r = (I(1) + i * 7) % rows; c = (I(1) + i * 5) % cols
            o += flats(g.get_distance_to_nearest_obstacle(r, c), g.get_distance_to_nearest_obstacle(C(r, c)), g.get_distance_to_nearest_voronoi_edge(r, c),
                g.get_distance_to_nearest_voronoi_edge(C(r, c)), g.get_path_cost(r, c), g.get_path_cost(C(r, c)))
        for y in (P(0.3, 0.2), P(50.0, 50.0)):
            o += flats(g.get_distance_to_nearest_obstacle(y, 0.0), g.get_distance_to_nearest_voronoi_edge(y, 0.0), g.get_path_cost(y, 0.0))
        return o
    if n == 'val':
        m = W.maps[S(1)]
        if m is None or not m.fresh: return []
        m.fresh = False
        s = pp.StateSpaceSE2(pp.Pose2d(-A(2) / 2, -A(3) / 2, -math.pi), pp.Pose2d(A(2) / 2, A(3) / 2, math.pi))
        v = pp.StateValidatorOccupancyMap(s, m.m)
        W.extra.append(s)
        v.min_safe_radius = A(4)
        v.min_path_interpolation_distance = max(0.05, A(5))
        if v.get_occupancy_map() is not m.m: raise Exception('another map object')
        if v.state_space is not s: raise Exception('another state space object')
        W.vals[S(0)] = v
        return flats(m.m.rows(), m.m.columns(), v.state_space.bounds[0], v.state_space.bounds[1])
    if n == 'qval':
        v = W.vals[S(0)]
        if v is None: return []
        z = pp.Pose2d(A(2), A(3), A(4))
        o = flats(v.is_state_valid(z), v.min_safe_radius, v.min_path_interpolation_distance, v.get_occupancy_map().rows(), v.state_space.validate_bounds(z))
        p = W.paths[S(1)]
        if p is not None: o += flats(v.is_path_valid(p, 0.0), pp.StateValidatorSE2Free(v.state_space).is_path_valid(p, 0.0))
        return o
    if n == 'path':
        x = pp.Pose2d(A(8), A(9), A(10)); y = pp.Pose2d(A(11), A(12), A(13)); r = max(0.3, A(2, 1.0))
        kind = I(1) % 4
        if kind == 0: p = pp.PathSE2(x, y)
        elif kind == 1: p = pp.PathConnectionSE2().connect(x, y)
        elif kind == 2: p = pp.PathConnectionReedsShepp(r, A(3), A(4, 1.0), A(5, 1.0)).connect(x, y)
        else: p = pp.PathConstantSteer(pp.KinematicBicycleModel(r, 0.0), x, A(6), A(3), pp.Direction.FORWARD if I(7) else pp.Direction.BACKWARD)
        W.paths[S(0)] = p
        return flats(p.get_length(), p.get_initial_state(), p.get_final_state())
    if n in ('qpath', 'trunc'):
        p = W.paths[S(0)]
        if p is None: return []
        ratio = min(max(A(1), 0.0), 1.0)
        if n == 'trunc': p.truncate(ratio)
        o = flats(p.get_length(), p.get_initial_state(), p.get_final_state(), p.interpolate(ratio), p.interpolate([0.0, min(max(A(2), 0.0), 1.0), 1.0]))
        if isinstance(p, pp.PathNonHolonomicSE2Base):
            o += flats({pp.Direction.FORWARD: sim.const('FORWARD'), pp.Direction.BACKWARD: sim.const('BACKWARD'), pp.Direction.NO_MOTION: sim.const('NO_MOTION')}[p.get_direction(ratio)])
            o += flats(sorted(p.get_cusp_point_ratios()))
            if isinstance(p, pp.PathConstantSteer): o += flats(p.steering)
            if isinstance(p, pp.PathReedsShepp): o += flats(p.min_turning_radius)
        return o
    if n == 'space':
        s = pp.StateSpaceSE2([pp.Pose2d(-3, -2, -3), pp.Pose2d(4, 3, 3)])
        x = pp.Pose2d(A(1), A(2), A(3))
        o = flats(s.validate_bounds(x))
        s.enforce_bounds(x)
        o += flats(x)
        for i in range(4): o += flats(s.sample_uniform(), s.sample_gaussian(x, pp.Pose2d(1, 2, 0.5)))
        return o
    if n == 'astar':
        m = W.maps[S(2)]
        if m is None: return []
        m.fresh = False
        seed = I(3); hk = I(4) % 3
        def cost(x, y):
            if seam('cost'): return unusable()
            return edge(x, y, seed)
        def guess(x, y):
            if seam('heur'): return unusable()
            return euclid(x, y)
        prop = pp.AStarStatePropagatorFcnN2(m.m, cost)
        W.extra.append(prop)
        def heur(): return Heur() if hk == 1 else pp.AStarHeuristicFcnN2(guess)
        if I(1) % 2 == 0:
            old = W.astars[S(0)]
            pl = pp.AStarN2() if old is None or old[3] or hk == 2 else old[0]
            r = pl.initialize(prop, heur())
            W.astars[S(0)] = (pl, m.m.rows(), m.m.columns(), False)
        else:
            hk = 0
            pl = pp.BidirectionalAStarN2()
            f, b = pp.BidirectionalAStarN2.get_average_heuristic_pair(heur(), heur())
            r = pl.initialize(prop, prop, f, b)
            W.astars[S(0)] = (pl, m.m.rows(), m.m.columns(), True)
        return flats(r)
    if n == 'srch':
        t = W.astars[S(0)]
        if t is None: return []
        pl, rows, cols, bi = t
        pl.set_init_state(C(I(1) % rows, I(2) % cols))
        pl.set_goal_state(C(I(3) % rows, I(4) % cols))
        W.raised = None; W.bad = False; W.dropped = False
        sim.arm(k)
        try:
            st = pl.search_path()
        except BaseException as e:
            sim.disarm()
            if W.raised is not None:
                if e is not W.raised: raise Exception('the callback raised %r, the search %r' % (W.raised, e))
                sim.probe('python-exception')
                W.raised = None
                return [-99.0]
            if W.bad:
                if not isinstance(e, RuntimeError): raise
                sim.probe('unusable-answer')
                return [-99.0]
            raise
        finally:
            sim.disarm()
        if W.raised is not None or W.bad: raise Exception('the search ignored a callback that failed')
        o = flats(good(st), pl.get_path(), pl.get_optimal_cost())
        ex = pl.get_explored_states()
        if bi: o += [float(len(ex[0])), float(len(ex[1]))]
        else: o += [float(len(ex))]
        sim.nontrivial()
        return o
    if n == 'hyb':
        v = W.vals[S(1)]
        if v is None: return []
        s = pp.HybridAStarSearchParameters(A(2, 1.0), A(3), A(4, 1.0), A(5, 1.0), A(6), I(7, 3), A(8, 1.0), A(9, 0.3))
        h = pp.HybridAStar(s)
        r = h.initialize(v)
        h.path_interpolation = A(10, 0.25)
        sp = h.smoother_parameters
        sp.max_iterations = I(11)
        sp.path_weight = A(12)
        h.smoother_parameters = sp
        W.hyb = h
        s = h.get_search_parameters(); sp = h.smoother_parameters
        return flats(r, s.wheelbase, s.min_turning_radius, s.direction_switching_cost, s.reverse_cost_multiplier, s.forward_cost_multiplier, s.voronoi_cost_multiplier, s.num_generated_motion, s.spatial_resolution, s.angular_resolution,
            sp.step_tolerance, sp.max_iterations, sp.learning_rate, sp.path_weight, sp.smooth_weight, sp.voronoi_weight, sp.collision_weight, sp.curvature_weight, sp.collision_ratio, sp.max_curvature)
    if n == 'hs':
        h = W.hyb
        if h is None: return []
        h.set_init_state(pp.Pose2d(A(1), A(2), A(3)))
        h.set_goal_state(pp.Pose2d(A(4), A(5), A(6)))
        r = good(h.search_path())
        st = h.get_stats()
        T = pp.SmoothingStatus
        o = flats(r, sim.const('SUCCESS' if st.graph_search_status == pp.Status.SUCCESS else 'FAILURE'),
            {T.MAX_ITERATION: sim.const('MAX_ITERATION'), T.STEP_TOLERANCE: sim.const('STEP_TOLERANCE'), T.PATH_SIZE: sim.const('PATH_SIZE'), T.FAILURE: sim.const('SFAILURE'), T.COLLISION: sim.const('COLLISION')}[st.smoothing_status],
            h.get_graph_search_optimal_cost(), h.get_path(), h.get_smoothed_path())
        o += flats([x.get_length() for x in h.get_graph_search_path()], len(h.get_graph_search_explored_path_set()))
        if r: sim.probe('hybrid-path')
        return o
    if n == 'none':
        m = W.maps[S(0)]
        if m is None or m.custom: return []
        for f in (lambda: m.m.add_obstacle(None), lambda: m.m.remove_obstacle(None), lambda: pp.HybridAStar().initialize(None), lambda: pp.AStarN2().initialize(None, None)):
            try:
                if f(): raise Exception('None accepted')
            except (TypeError, RuntimeError, ValueError): pass
        sim.probe('none')
        return []
    if n == 'sub':
        x = pp.Pose2d(A(2), A(3), A(4)); y = pp.Pose2d(A(5), A(6), A(7)); limit = A(1)
        W.raised = None; W.bad = False
        v = Val(pp.StateSpaceSE2(pp.Pose2d(-3, -3, -3), pp.Pose2d(3, 3, 3)), limit)
        o = []
        sim.arm(k)
        try:
            o += flats(v.is_state_valid(x), v.is_state_valid(y))
            p = W.paths[S(0)]
            if p is not None: o += flats(v.is_path_valid(p, 0.0))
            o += flats(Con().connect(x, y).get_length())
            for pl in (planner(pp.PathPlannerSE2Base, limit > 0, [x, y]), planner(pp.PathPlannerN2Base, limit > 0, [C(int(limit * 10), 3)])):
                o += flats(good(pl.search_path()), pl.get_path())
        except BaseException as e:
            sim.disarm()
            if W.raised is not None:
                if e is not W.raised: raise Exception('the callback raised %r, the caller sees %r' % (W.raised, e))
                sim.probe('subclass-exception')
                return [-99.0]
            if W.bad and isinstance(e, RuntimeError):
                sim.probe('subclass-unusable')
                return [-99.0]
            raise
        finally:
            sim.disarm()
        if W.raised is not None or W.bad: raise Exception('a callback that failed was ignored')
        return o
    if n == 'drop':
        s = S(1)
        kind = I(0) % 8
        if kind == 0: W.maps[s] = None
        elif kind == 1: W.obst[s] = None
        elif kind == 2: W.gvds[s] = None
        elif kind == 3: W.vals[s] = None
        elif kind == 4: W.paths[s] = None
        elif kind == 5: W.astars[s] = None
        elif kind == 6: W.hyb = None
        W.extra.clear()
        return []
    if n == 'gc':
        gc.collect()
        return []
    return []
)PY";

static const Plan* g_plan = nullptr;
static Armed* g_arm = nullptr;
static double g_arg = 0;
extern "C" {
static PyObject* py_due(PyObject*, PyObject* a)
{
	const char* k = PyUnicode_AsUTF8(a);
	return PyBool_FromLong(k && g_arm && due(k, &g_arg));
}
static PyObject* py_arg(PyObject*, PyObject*) { return PyFloat_FromDouble(std::fmod(std::fabs(g_arg), 8)); }
static PyObject* py_arm(PyObject*, PyObject* a)
{
	g_arm = new Armed(g_plan->ops[PyLong_AsLong(a)]);
	Py_RETURN_NONE;
}
static PyObject* py_disarm(PyObject*, PyObject*)
{
	if (g_arm) delete g_arm;
	g_arm = nullptr;
	Py_RETURN_NONE;
}
static PyObject* py_probe(PyObject*, PyObject* a)
{
	probe(PyUnicode_AsUTF8(a));
	Py_RETURN_NONE;
}
static PyObject* py_nontrivial(PyObject*, PyObject*)
{
	nontrivial();
	Py_RETURN_NONE;
}
static PyObject* py_const(PyObject*, PyObject* a)
{
	static const std::map<std::string, double> t = { { "FORWARD", (double)(int)Direction::Forward }, { "BACKWARD", (double)(int)Direction::Backward }, { "NO_MOTION", (double)(int)Direction::NoMotion },
		{ "SUCCESS", (double)(int)Status::Success }, { "FAILURE", (double)(int)Status::Failure }, { "MAX_ITERATION", Smoother::MaxIteration }, { "STEP_TOLERANCE", Smoother::StepTolerance },
		{ "PATH_SIZE", Smoother::PathSize }, { "SFAILURE", Smoother::Failure }, { "COLLISION", Smoother::Collision }, { "LEFT", (double)(int)Steer::Left }, { "STRAIGHT", (double)(int)Steer::Straight }, { "RIGHT", (double)(int)Steer::Right } };
	return PyFloat_FromDouble(t.at(PyUnicode_AsUTF8(a)));
}
static PyMethodDef g_methods[] = { { "due", py_due, METH_O, "" }, { "arg", py_arg, METH_NOARGS, "" }, { "arm", py_arm, METH_O, "" }, { "disarm", py_disarm, METH_NOARGS, "" },
	{ "probe", py_probe, METH_O, "" }, { "nontrivial", py_nontrivial, METH_NOARGS, "" }, { "const", py_const, METH_O, "" }, { nullptr, nullptr, 0, nullptr } };
static PyModuleDef g_module = { PyModuleDef_HEAD_INIT, "sim", "", -1, g_methods };
static PyObject* initSim() { return PyModule_Create(&g_module); }
}

static PyObject* g_step = nullptr;
static std::string pyError()
{
	PyObject *t, *v, *tb;
	PyErr_Fetch(&t, &v, &tb);
	PyErr_NormalizeException(&t, &v, &tb);
	std::string s = t ? ((PyTypeObject*)t)->tp_name : "?";
	if (PyObject* str = v ? PyObject_Str(v) : nullptr) s += std::string(": ") + (PyUnicode_AsUTF8(str) ? PyUnicode_AsUTF8(str) : "?");
	for (auto* f = (PyTracebackObject*)tb; f; f = f->tb_next) s += " @" + std::to_string(f->tb_lineno);
	return s;
}

/// Called once, before any run is forked: every run starts from this interpreter.
extern "C" void sim_prepare()
{
	PyPreConfig pre;
	PyPreConfig_InitIsolatedConfig(&pre);
	pre.allocator = PYMEM_ALLOCATOR_MALLOC;
	pre.utf8_mode = 1;
	Py_PreInitialize(&pre);
	PyImport_AppendInittab("sim", initSim);
	PyImport_AppendInittab("pyplanning", PyInit_pyplanning);
	PyConfig c;
	PyConfig_InitIsolatedConfig(&c);
	c.site_import = 0;
	c.use_hash_seed = 1;
	c.hash_seed = 1;
	c.install_signal_handlers = 0;
	c.write_bytecode = 0;
	auto st = Py_InitializeFromConfig(&c);
	if (PyStatus_Exception(st)) {
		fprintf(stderr, "python: %s\n", st.err_msg);
		_exit(3);
	}
	PyObject* g = PyDict_New();
	PyDict_SetItemString(g, "__builtins__", PyEval_GetBuiltins());
	PyDict_SetItemString(g, "__name__", PyUnicode_FromString("program"));
	if (!PyRun_String(kProgram, Py_file_input, g, g)) {
		fprintf(stderr, "python: %s\n", pyError().c_str());
		_exit(3);
	}
	g_step = PyDict_GetItemString(g, "step");
}

static void execute(const Plan& p)
{
	g_plan = &p;
	stepBudget(3000000000ull);
	{ // the engine is seeded by its first use, and Gaussian draws come in pairs
		StateSpaceSE2 s(Pose2d(0, 0, 0), Pose2d(1, 1, 1));
		s.SampleUniform();
		for (int i = 0; i < 2; i++) s.SampleGaussian(Pose2d(0, 0, 0), Pose2d(1, 1, 1));
	}
	std::vector<Obs> want;
	{
		Native n;
		for (size_t k = 0; k < p.ops.size(); k++) want.push_back(n.step(p.ops[k], k));
	}
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		rngReset(mix(k + 77));
		PyObject* args = PyList_New(op.a.size());
		for (size_t i = 0; i < op.a.size(); i++) PyList_SetItem(args, i, PyFloat_FromDouble(op.a[i]));
		PyObject* r = PyObject_CallFunction(g_step, "sNn", op.name.c_str(), args, (Py_ssize_t)k);
		if (!r) violate("python-error", "%s: %s", op.name.c_str(), pyError().c_str());
		Obs got;
		for (Py_ssize_t i = 0; i < PyList_Size(r); i++) got.push_back(PyFloat_AsDouble(PyList_GetItem(r, i)));
		Py_DECREF(r);
		Hash h;
		for (double d : got) h.addd(d);
		state(h.h);
		ev("%zu %s %zu observations %016llx", k, op.name.c_str(), got.size(), (unsigned long long)h.h);
		if (want[k].size() == 1 && want[k][0] == Aborted && op.name != "srch" && op.name != "sub") continue;
		bool same = got.size() == want[k].size();
		size_t i = 0;
		for (; same && i < got.size(); i++) same = got[i] == want[k][i] || (std::isnan(got[i]) && std::isnan(want[k][i]));
		if (!same) violate("differs", "%s: observation %zu of %zu is %.9g, natively %.9g of %zu", op.name.c_str(), i, got.size(), i && i <= got.size() ? got[i - 1] : 0, i && i <= want[k].size() ? want[k][i - 1] : 0, want[k].size());
		if (!got.empty()) probe(("op:" + op.name).c_str());
	}
}
const Property sim::property = { "C20", generate, execute };
