// Simulated workspace shared by the property modules: map geometry, obstacles
// with failing shapes, and the random generation of their histories.
#pragma once
#include "sim.h"
#include "core/base.h"
#include "geometry/2dplane.h"
#include "utils/grid.h"
#include "state_validator/occupancy_map.h"
#include "state_validator/obstacle.h"
#include "state_validator/obstacle_list_occupancy_map.h"
#include <set>
#include <array>

namespace world {
	using namespace Planner;
	using sim::Op;
	using sim::Plan;
	using sim::Rng;
	using Cell = std::pair<int, int>;
	using Cells = std::set<Cell>;

	/// A shape whose callbacks can fail: before producing anything, or after
	/// part of the footprint has already been produced.
	class FaultShape : public Shape {
	public:
		explicit FaultShape(const Ref<Shape>& inner) : m_inner(inner) { }
		void GetGridCellsPosition(const OccupancyMap& map, const Pose2d& pose, std::vector<GridCellPosition>& cells) override
		{
			if (sim::due("throw:shape")) throw sim::Injected("shape");
			m_inner->GetGridCellsPosition(map, pose, cells);
			if (sim::due("throw:shape-late")) throw sim::Injected("shape-late");
		}
		void GetVerticesPosition(const Pose2d& pose, std::vector<Point2d>& points) override { m_inner->GetVerticesPosition(pose, points); }

	private:
		Ref<Shape> m_inner;
	};

	/// cfg map = resolution width height originX originY
	struct Geo {
		float res = 1, w = 10, h = 10;
		double ox = 0, oy = 0;
		explicit Geo(const Plan& p)
		{
			auto& v = p.cv("map");
			if (v.size() >= 5) {
				res = (float)v[0];
				w = (float)v[1];
				h = (float)v[2];
				ox = v[3];
				oy = v[4];
				if (!(res >= 0.02f)) res = 1;
				w = std::max(w, res);
				h = std::max(h, res);
			}
		}
	};

	inline void genMap(Rng& r, Plan& p, long minCells, long maxCells, bool moved)
	{
		static const std::vector<double> ress = { 1.0, 0.5, 0.25, 0.1, 0.3, 2.0 };
		double res = (float)r.pick(ress);
		double w = res * r.range(minCells, maxCells), h = res * r.range(minCells, maxCells);
		if (r.chance(0.3)) w += res * r.real(0.1, 0.9);
		double ox = 0, oy = 0;
		if (moved && r.chance(0.6)) {
			ox = std::round(r.real(-30, 30) * 4) / 4;
			oy = std::round(r.real(-30, 30) * 4) / 4;
		}
		p.cfg["map"] = { res, w, h, ox, oy };
	}

	/// obstacle spec: kind a b x y theta
	inline std::vector<double> genObstacle(Rng& r, const Geo& g, double scale = 1.0)
	{
		int kind = (int)r.below(7);
		double big = std::min(g.w, g.h);
		double a = g.res * r.real(0.3, 3.0) * scale, b = g.res * r.real(0.3, 3.0) * scale;
		if (r.chance(0.25)) a = big * r.real(0.2, 0.9);
		if (r.chance(0.1)) b = big * r.real(0.2, 0.9);
		if (kind == 1 || kind == 2) {
			b = (double)r.range(3, 9);
			a = std::min(a, big * 0.3);
		}
		double x = g.ox + g.w * r.real(-0.55, 0.55), y = g.oy + g.h * r.real(-0.55, 0.55);
		double th = r.chance(0.4) ? 0.0 : r.real(-3.1, 3.1);
		if (r.chance(0.3)) {
			// aligned with the cells
			x = g.ox - g.w / 2 + (std::floor((x - g.ox + g.w / 2) / g.res) + 0.5) * g.res;
			y = g.oy - g.h / 2 + (std::floor((y - g.oy + g.h / 2) / g.res) + 0.5) * g.res;
		}
		if (r.chance(0.04)) {
			// much larger than the map, with one side running across it
			kind = r.chance(0.5) ? 4 : 0;
			a = big * r.real(3, 40);
			if (kind == 0) {
				b = big * r.real(0.3, 3);
				x += (r.chance(0.5) ? a : -a) / 2;
				th = 0;
			}
		}
		auto q = [](double v) { return std::round(v * 1024) / 1024; };
		if (std::fabs(g.ox) < g.w / 2 && std::fabs(g.oy) < g.h / 2 && std::fmod(std::fabs(a) * 4096, 1.0) < 0.04) x = y = th = 0;
		return { (double)kind, q(a), kind == 1 || kind == 2 ? b : q(b), q(x), q(y), q(th) };
	}

	inline Ref<Shape> makeShape(const std::vector<double>& s)
	{
		int kind = s.size() > 0 ? (int)s[0] : 0;
		double a = s.size() > 1 ? std::fabs(s[1]) : 1, b = s.size() > 2 ? std::fabs(s[2]) : 1;
		int n = std::max(3, std::min(12, (int)b));
		switch (kind) {
		case 0: return makeRef<RectangleShape>(a, b);
		case 1: return makeRef<RegularPolygonShape>(a, n);
		case 2: return makeRef<CircleShape>(a, n);
		case 3: {
			auto c = makeRef<CompositeShape>();
			c->Add(makeRef<RectangleShape>(a, b));
			c->Add(makeRef<RegularPolygonShape>(b, 5));
			return c;
		}
		case 4: return makeRef<PolygonShape>(std::vector<Point2d>({ Point2d(-a, -b / 2), Point2d(a, b / 2) }));
		case 5: return makeRef<PolygonShape>(std::vector<Point2d>({ Point2d(0, 0) }));
		default: return makeRef<PolygonShape>(std::vector<Point2d>({ Point2d(a, 0), Point2d(a / 3, b), Point2d(-a, b / 2), Point2d(-a / 2, -b), Point2d(a / 4, -b / 3) }));
		}
	}
	/// closed outlines of the shape (polygons of vertices, in the obstacle frame order)
	inline std::vector<int> outlineSizes(const std::vector<double>& s)
	{
		int kind = s.size() > 0 ? (int)s[0] : 0;
		int n = std::max(3, std::min(12, (int)(s.size() > 2 ? std::fabs(s[2]) : 1)));
		switch (kind) {
		case 0: return { 4 };
		case 1: return { n };
		case 2: return { n };
		case 3: return { 4, 5 };
		case 4: return { 2 };
		case 5: return { 1 };
		default: return { 5 };
		}
	}

	inline Ref<Obstacle> makeObstacle(const std::vector<double>& s)
	{
		auto o = makeRef<Obstacle>();
		o->SetShape(makeRef<FaultShape>(makeShape(s)));
		Pose2d at(s.size() > 3 ? s[3] : 0, s.size() > 4 ? s[4] : 0, s.size() > 5 ? s[5] : 0);
		if (at.x() != 0 || at.y() != 0 || at.theta != 0) o->SetPose(at); // an obstacle that was never placed is at the origin
		else sim::probe("never-placed");
		return o;
	}

	/// The real obstacle map behind a seam: an occupancy query can fail, and a
	/// random overlay turns small maps into mazes.
	class SimMap : public ObstacleListOccupancyMap {
	public:
		explicit SimMap(float res) : ObstacleListOccupancyMap(res) { }
		bool IsOccupied(const GridCellPosition& cell) override
		{
			if (sim::due("throw:occ")) throw sim::Injected("occ");
			if (density > 0 && (double)(sim::mix(mazeSeed ^ sim::mix((sim::u64)cell.row * 65536 + cell.col)) >> 11) * (1.0 / 9007199254740992.0) < density)
				return true;
			return ObstacleListOccupancyMap::IsOccupied(cell);
		}
		double density = 0;
		sim::u64 mazeSeed = 0;
	};

	inline std::string oname(long i) { return "o" + std::to_string(i); }

	inline Cells footprint(const Ref<Obstacle>& o, const OccupancyMap& map)
	{
		sim::Quiet q;
		Cells out;
		for (auto& c : o->GetBoundaryGridCellPosition(map)) out.insert({ c.row, c.col });
		return out;
	}

	inline Cells occupied(OccupancyMap& map)
	{
		sim::Quiet q;
		Cells out;
		for (int r = 0; r < map.Rows(); r++)
			for (int c = 0; c < map.Columns(); c++)
				if (map.IsOccupied({ r, c })) out.insert({ r, c });
		return out;
	}

	/// Applies one map operation of a history to the real map.
	/// add i | remove i | move i x y th | update
	struct MapWorld {
		Ref<ObstacleListOccupancyMap> map;
		std::vector<Ref<Obstacle>> obs;
		std::vector<std::vector<double>> spec;
		std::set<long> registered; // according to the returned values

		void create(const Plan& p, const Ref<ObstacleListOccupancyMap>& m)
		{
			map = m;
			for (long i = 0;; i++) {
				auto it = p.cfg.find(oname(i));
				if (it == p.cfg.end()) break;
				spec.push_back(it->second);
				obs.push_back(makeObstacle(it->second));
			}
		}
		void createFlat(const Plan& p)
		{
			Geo g(p);
			auto m = makeRef<ObstacleListOccupancyMap>(g.res);
			m->SetPosition({ g.ox, g.oy });
			m->InitializeSize(g.w, g.h);
			create(p, m);
		}
		Ref<SimMap> createSim(const Plan& p)
		{
			Geo g(p);
			auto m = makeRef<SimMap>(g.res);
			m->SetPosition({ g.ox, g.oy });
			m->InitializeSize(g.w, g.h);
			create(p, m);
			auto& mz = p.cv("maze");
			if (mz.size() >= 2) {
				m->mazeSeed = (sim::u64)mz[0];
				m->density = mz[1];
			}
			return m;
		}
		long count() const { return (long)obs.size(); }
		long idx(const Op& op) const { return count() ? std::abs(op.iarg(0)) % count() : 0; }

		enum Outcome { NotMine, True, False, Failed };
		/// throws nothing: injected failures become Failed
		Outcome apply(const Op& op)
		{
			bool isAdd = op.name == "add", isRemove = op.name == "remove";
			if (!isAdd && !isRemove && op.name != "move" && op.name != "update") return NotMine;
			if (op.name == "update") {
				sim::Armed a(op);
				map->Update();
				return True;
			}
			if (!count()) return False;
			long i = idx(op);
			if (op.name == "move") {
				obs[i]->SetPose(Pose2d(op.arg(1), op.arg(2), op.arg(3)));
				return True;
			}
			bool ok = false, failed = false;
			{
				sim::Armed a(op);
				try {
					ok = isAdd ? map->AddObstacle(obs[i]) : map->RemoveObstacle(obs[i]);
				} catch (const sim::Injected&) {
					failed = true;
				} catch (const std::bad_alloc&) {
					failed = true;
				}
				if (failed && sim::firedInOp() == 0) sim::violate("unexpected-failure", "an operation failed although nothing was injected");
			}
			if (failed) return Failed;
			if (ok && isAdd) registered.insert(i);
			if (ok && isRemove) registered.erase(i);
			return ok ? True : False;
		}
	};

	/// Random map history: mostly adds, removes and moves, updates in between.
	inline void genMapHistory(Rng& r, Plan& p, long nops, double faultRate, bool allocFaults, double updateRate = 0.35)
	{
		Geo g(p);
		long nobs = r.range(1, 9);
		double scale = r.pick(std::vector<double> { 0.6, 1.0, 1.0, 2.5 });
		for (long i = 0; i < nobs; i++) p.cfg[oname(i)] = genObstacle(r, g, scale);
		bool moves = r.chance(0.6);
		double pAdd = r.real(0.35, 0.75);
		for (long k = 0; k < nops; k++) {
			long i = r.below(nobs);
			double u = r.real();
			Op op;
			if (u < updateRate) op = Op("update");
			else if (moves && u < updateRate + 0.15) {
				auto s = genObstacle(r, g);
				op = Op("move", { (double)i, s[3], s[4], s[5] });
			} else
				op = Op(r.chance(pAdd) ? "add" : "remove", { (double)i });
			if (op.name == "add" || op.name == "remove") {
				if (r.chance(faultRate)) {
					if (allocFaults && op.name == "add" && r.chance(0.6)) op.f.push_back({ "alloc", r.chance(0.5) ? r.below(6) : r.below(40) });
					else op.f.push_back({ r.chance(0.5) ? "throw:shape" : "throw:shape-late", 0 });
				}
			}
			p.ops.push_back(op);
		}
	}
}
