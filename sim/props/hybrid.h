// Workload, environment and oracles shared by the Hybrid A* properties
// (C08: what a returned path guarantees, C09: searches do not influence each
// other).  The planner, the paths, the heuristics, the distance maps and the
// smoother run for real; the state validator and the map are wrapped so that a
// validation, an occupancy query or an allocation inside a search can fail, and
// the simulator supplies every random draw.
#pragma once
#include "world.h"
#include "algo/hybrid_a_star.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"

namespace hybrid {
	using namespace Planner;
	using namespace sim;
	using namespace world;

	struct Validator : StateValidatorOccupancyMap {
		Validator(const Ref<StateSpaceSE2>& s, const Ref<OccupancyMap>& m) : StateValidatorOccupancyMap(s, m) { }
		bool IsPathValid(const PathSE2Base& path, float* last = nullptr) override
		{
			allocHold(false);
			if (due("throw:valid")) throw Injected("valid");
			return StateValidatorOccupancyMap::IsPathValid(path, last);
		}
		bool IsStateValid(const Pose2d& s) override
		{
			if (due("throw:state")) throw Injected("state");
			return StateValidatorOccupancyMap::IsStateValid(s);
		}
	};

	inline double wrap(double t) { return std::remainder(t, 2 * M_PI); }
	inline double quant(double v) { return std::round(v * 256) / 256; }

	inline void generateHybrid(Rng& r, Plan& p, bool replan)
	{
		static const std::vector<double> ress = { 0.1, 0.25, 0.25, 0.5, 0.5 };
		double res = (float)r.pick(ress);
		long most = res < 0.2 ? 8 : r.chance(0.2) ? 18 : 12;
		double w = (double)r.range(5, most), h = (double)r.range(5, most);
		double ox = 0, oy = 0;
		if (r.chance(0.4)) { ox = quant(r.real(-30, 30)); oy = quant(r.real(-30, 30)); }
		p.cfg["map"] = { res, w, h, ox, oy };
		double radius = r.pick(std::vector<double> { 1.0, 1.5, 2.0, 3.0 });
		double voro = replan || r.chance(0.55) ? 0.0 : r.pick(std::vector<double> { 1.0, 1.0, 0.5, 4.0 });
		double sw = r.chance(0.5) ? 0.0 : quant(r.real(0.1, 4));
		double rev = r.chance(0.5) ? 1.0 : quant(r.real(1, 3)), fwd = r.chance(0.8) ? 1.0 : quant(r.real(1, 2));
		p.cfg["hyb"] = { radius, sw, rev, fwd, voro, (double)r.range(3, 9), r.pick(std::vector<double> { 0.8, 1.0, 1.5 }), r.pick(std::vector<double> { 0.3, 0.5, 0.7 }) };
		p.cfg["safe"] = { (float)r.pick(std::vector<double> { 0.2, 0.5, 1.0, 1.6 }), (float)r.pick(std::vector<double> { 0.05, 0.1, 0.3 }) };
		p.cfg["interp"] = { (float)r.pick(std::vector<double> { 0.1, 0.25, 0.5 }) };
		// smoother: iterations, path weight, Voronoi weight, learning rate
		p.cfg["smooth"] = { (double)r.pick(std::vector<double> { 0, 5, 30, 100 }), r.chance(0.7) ? 0.0 : 0.2, replan || r.chance(0.5) ? 0.0 : 0.02, r.chance(0.8) ? 0.01 : 0.1 };
		Geo g(p);
		long nobs = r.geo(0.85, 10);
		for (long i = 0; i < nobs; i++) {
			auto o = genObstacle(r, g);
			o[1] = quant(r.real(0.1, 3));
			if ((int)o[0] != 1 && (int)o[0] != 2) o[2] = quant(r.real(0.1, 3));
			p.cfg[oname(i)] = o;
		}
		if (nobs && r.chance(0.5)) { // a wall across the map with one or two ways round it
			double len = quant(h * r.real(0.4, 0.85)), y = quant(oy + r.pick(std::vector<double> { -1, 0, 1 }) * (h - len) / 2);
			p.cfg[oname(0)] = { 0, 0.4, len, quant(ox + w * r.real(-0.15, 0.15)), y, 0 };
			p.ops.push_back(Op("add", { 0 }));
		}
		double faultRate = r.pick(std::vector<double> { 0, 0.25, 0.5 });
		long nsearch = r.range(1, replan ? 4 : 2);
		auto pose = [&](double* out) {
			out[0] = quant(ox + w * r.real(-0.48, 0.48));
			out[1] = quant(oy + h * r.real(-0.48, 0.48));
			out[2] = r.pick(std::vector<double> { 0, M_PI, -M_PI, M_PI / 2, quant(r.real(-3.1, 3.1)), quant(r.real(-3.1, 3.1)), quant(r.real(-3.1, 3.1)) });
		};
		for (long s = 0; s < nsearch; s++) {
			if (nobs)
				for (long k = r.range(s ? 0 : 1, s ? 4 : 9); k > 0; k--) {
					long i = r.below(nobs);
					double u = r.real();
					if (u < 0.65) p.ops.push_back(Op("add", { (double)i }));
					else if (u < 0.85) p.ops.push_back(Op("remove", { (double)i }));
					else {
						auto m = genObstacle(r, g);
						p.ops.push_back(Op("move", { (double)i, m[3], m[4], m[5] }));
					}
				}
			if (r.chance(0.6)) p.ops.push_back(Op("update")); // otherwise the search brings the distances up to date
			if (r.chance(0.1)) p.ops.push_back(Op("reinit"));
			double a[3], b[3];
			pose(a);
			pose(b);
			if (r.chance(0.5)) { // across the map
				a[0] = quant(ox - w * r.real(0.3, 0.48));
				b[0] = quant(ox + w * r.real(0.3, 0.48));
			}
			double u = r.real();
			if (u < 0.08) for (int i = 0; i < 3; i++) b[i] = a[i];
			else if (u < 0.16) for (int i = 0; i < 2; i++) b[i] = quant(a[i] + r.real(-1.5, 1.5));
			else if (u < 0.2) { for (int i = 0; i < 3; i++) b[i] = a[i]; b[0] += 0.0004; }
			if (s && r.chance(replan ? 0.5 : 0.2)) {
				const Op* prev = nullptr;
				for (auto& o : p.ops)
					if (o.name == "search") prev = &o;
				for (int i = 0; i < 3; i++) b[i] = prev->a[3 + i]; // same goal again
				if (r.chance(0.5))
					for (int i = 0; i < 3; i++) a[i] = prev->a[i];
			}
			Op op("search", { a[0], a[1], a[2], b[0], b[1], b[2], (double)r.below(1 << 30), (double)r.chance(0.5) });
			if (r.chance(faultRate)) {
				static const std::vector<std::string> kinds = { "throw:valid", "throw:valid", "throw:state", "throw:occ", "alloc" };
				op.f.push_back({ r.pick(kinds), r.chance(0.5) ? r.below(30) : r.below(3000) });
			}
			p.ops.push_back(op);
		}
	}

	struct Sim {
		const Plan& p;
		Geo g;
		MapWorld w;
		Ref<SimMap> map;
		Ref<Validator> validator;
		Ref<HybridAStar> planner;
		double radius, sw, rev, fwd, voro;
		float interp;

		static double at(const std::vector<double>& v, size_t i, double def) { return i < v.size() ? v[i] : def; }

		explicit Sim(const Plan& plan) : p(plan), g(plan)
		{
			map = makeRef<SimMap>(g.res);
			map->SetPosition({ g.ox, g.oy });
			auto space = makeRef<StateSpaceSE2>(Pose2d(-g.w / 2, -g.h / 2, -M_PI), Pose2d(g.w / 2, g.h / 2, M_PI));
			validator = makeRef<Validator>(space, map);
			w.create(p, map);
			auto& s = p.cv("safe");
			validator->minSafeRadius = (float)std::max(0.0, at(s, 0, 0.5));
			validator->minPathInterpolationDistance = (float)std::max(0.02, at(s, 1, 0.1));
			auto& h = p.cv("hyb");
			radius = std::max(0.5, at(h, 0, 2));
			sw = std::max(0.0, at(h, 1, 0));
			rev = std::max(1.0, at(h, 2, 1));
			fwd = std::max(1.0, at(h, 3, 1));
			voro = std::max(0.0, at(h, 4, 0));
			interp = (float)std::max(0.05, p.c("interp", 0.1));
			planner = make();
		}
		Ref<HybridAStar> make()
		{
			auto& h = p.cv("hyb");
			HybridAStar::SearchParameters par(radius, sw, rev, fwd, voro, (unsigned)std::max(1.0, at(h, 5, 5)), std::max(0.5, at(h, 6, 1)), std::max(0.2, at(h, 7, 0.5)));
			auto pl = makeRef<HybridAStar>(par);
			init(*pl);
			return pl;
		}
		void init(HybridAStar& pl)
		{
			if (!pl.Initialize(validator)) violate("init", "the planner could not be initialised");
			auto& s = p.cv("smooth");
			Smoother::Parameters sp = pl.GetSmootherParameters();
			sp.maxIterations = (int)at(s, 0, 30);
			sp.pathWeight = (float)at(s, 1, 0);
			sp.voronoiWeight = (float)at(s, 2, 0);
			sp.learningRate = (float)at(s, 3, 0.01);
			pl.SetSmootherParameters(sp);
			pl.pathInterpolation = interp;
		}

		struct Outcome {
			bool aborted = false;
			Status status = Status::Failure;
			std::vector<Pose2d> path;
			std::vector<Ref<PathNonHolonomicSE2Base>> segments;
			double cost = 0;
			u64 hash = 0;
			int smoothing = 0, graph = 0;
		};
		Outcome search(HybridAStar& pl, const Op& op, bool faults)
		{
			Outcome o;
			rngReset((u64)op.arg(6) + 99);
			rngZero(op.arg(7) != 0);
			for (size_t i = 0; i + 1 < p.cv("rngx").size(); i += 2) rngOverride((long)p.cv("rngx")[i], (int)p.cv("rngx")[i + 1]);
			Op calm("search");
			stepBudget(2000000000ull);
			pl.SetInitState(Pose2d(op.arg(0), op.arg(1), op.arg(2)));
			pl.SetGoalState(Pose2d(op.arg(3), op.arg(4), op.arg(5)));
			{
				Armed a(faults ? op : calm);
				allocHold(true);
				try {
					o.status = pl.SearchPath();
				} catch (const Injected&) {
					o.aborted = true;
				} catch (const std::bad_alloc&) {
					o.aborted = true;
				}
				allocHold(false);
			}
			rngZero(false);
			if (o.aborted && firedInOp() == 0) violate("unexpected-failure", "the search threw although nothing was injected");
			o.path = pl.GetPath();
			o.segments = pl.GetGraphSearchPath();
			o.cost = pl.GetGraphSearchOptimalCost();
			o.smoothing = pl.GetStats().smoothingStatus;
			o.graph = pl.GetStats().graphSearchStatus;
			Hash h;
			h.add((u64)o.status);
			for (auto& q : o.path) { h.addd(q.x()); h.addd(q.y()); h.addd(q.theta); }
			for (auto& s : o.segments) { h.addd(s->GetLength()); h.addd(s->GetFinalState().x()); h.addd(s->GetFinalState().theta); }
			h.addd(o.cost);
			o.hash = h.h;
			return o;
		}
	};

	/// distance between the cell of a position and the nearest occupied cell, by brute force
	struct Clearance {
		const Geo& g;
		std::vector<Cell> occ;
		Clearance(const Geo& geo, OccupancyMap& m) : g(geo)
		{
			for (auto& c : occupied(m)) occ.push_back(c);
		}
		double operator()(const Point2d& q) const
		{
			double r = std::floor((q.x() - g.ox + (double)g.w / 2) / g.res), c = std::floor((q.y() - g.oy + (double)g.h / 2) / g.res);
			double best = 1e300;
			for (auto& o : occ) best = std::min(best, (r - o.first) * (r - o.first) + (c - o.second) * (c - o.second));
			return std::sqrt(best) * g.res;
		}
		double outside(const Point2d& q) const
		{
			return std::max({ std::fabs(q.x() - g.ox) - (double)g.w / 2, std::fabs(q.y() - g.oy) - (double)g.h / 2, 0.0 });
		}
	};

	/// C08: everything a successful search promises about its result
	inline void checkResult(Sim& s, const Sim::Outcome& o, const Pose2d& start, const Pose2d& goal)
	{
		Quiet quiet;
		Clearance clear(s.g, *s.map);
		const double slack = s.validator->minPathInterpolationDistance + 1.7 * s.g.res, need = s.validator->minSafeRadius - slack;
		auto& path = o.path;
		if (path.empty()) violate("empty-success", "success reported with an empty path");
		auto dist = [](const Pose2d& a, const Pose2d& b) { return (a.position - b.position).norm(); };
		auto turn = [](const Pose2d& a, const Pose2d& b) { return std::fabs(wrap(a.theta - b.theta)); };
		if (dist(path.front(), start) > 1e-6 || turn(path.front(), start) > 1e-6) violate("path-start", "the path starts %.6g away and %.6g rad off the start", dist(path.front(), start), turn(path.front(), start));
		if (dist(path.back(), goal) > 2e-3 || turn(path.back(), goal) > 1e-3) violate("path-end", "the path ends %.6g away and %.6g rad off the goal (length %zu)", dist(path.back(), goal), turn(path.back(), goal), path.size());
		if (o.segments.empty()) return; // start and goal coincide
		for (size_t i = 0; i < path.size(); i++) {
			if (!(clear.outside(path[i].position) <= slack)) violate("path-outside", "state %zu of the path is %.3g outside the map", i, clear.outside(path[i].position));
			if (!(clear(path[i].position) >= need)) violate("path-collision", "state %zu of the path has clearance %.4g, %.4g is required (%.4g granularity)", i, clear(path[i].position), (double)s.validator->minSafeRadius, slack);
		}
		// the driven path
		double length = 0, cost = 0;
		// the Voronoi field along the path, between bounds that leave room for the step of the integration
		double fieldLo = 0, fieldHi = 0;
		Ref<GVD> field;
		const double window = 1.5 * s.g.res;
		if (s.voro > 0) {
			field = makeRef<GVD>(s.map);
			field->Update();
		}
		Pose2d at = start;
		int lastSign = 0;
		std::vector<Pose2d> cusps;
		long switches = 0, hidden = 0; // changes of direction seen, and those too short to be seen
		for (size_t k = 0; k < o.segments.size(); k++) {
			auto& seg = *o.segments[k];
			if (dist(seg.GetInitialState(), at) > 1e-6 || turn(seg.GetInitialState(), at) > 1e-6) violate("disconnected", "segment %zu starts %.6g away and %.6g rad off the end of the previous one", k, dist(seg.GetInitialState(), at), turn(seg.GetInitialState(), at));
			double len = seg.GetLength();
			if (!(len >= 0) || len > 1e4) violate("segment-length", "segment %zu has length %g", k, len);
			int n = std::max(1, (int)std::ceil(len / 0.02));
			Pose2d prev = seg.Interpolate(0.0);
			if (dist(prev, at) > 1e-6) violate("disconnected", "segment %zu does not begin at its initial state", k);
			double driven = 0;
			std::vector<double> fieldAt;
			auto look = [&](const Pose2d& q) {
				if (!field) return;
				auto cell = s.map->WorldPositionToGridCell(q.position, false);
				fieldAt.push_back(s.map->IsInsideMap(cell) ? field->GetPathCost(cell) : 0.0);
			};
			look(prev);
			long before = switches + hidden;
			for (int i = 1; i <= n; i++) {
				Pose2d q = seg.Interpolate((double)i / n);
				double ds = len / n;
				double move = dist(prev, q), dth = wrap(q.theta - prev.theta);
				if (move > ds * (1 + 1e-6) + 1e-9) violate("too-far", "segment %zu moves %.6g over a path length of %.6g", k, move, ds);
				driven += move;
				if (std::fabs(dth) > ds / s.radius * (1 + 1e-4) + 1e-7) violate("curvature", "segment %zu turns %.6g rad over %.6g m, the minimum turning radius is %g", k, dth, ds, s.radius);
				// the motion follows the heading, forwards or backwards
				double mid = prev.theta + dth / 2;
				double along = (q.position - prev.position).dot(Point2d(std::cos(mid), std::sin(mid)));
				double side = (q.position - prev.position).dot(Point2d(-std::sin(mid), std::cos(mid)));
				bool mixed = move < 0.9 * ds; // a cusp inside this step
				if (move < ds * (1 - 2e-4)) hidden += 2;
				if (!mixed && std::fabs(side) > 0.01 * ds + 1e-7) violate("sideways", "segment %zu slides %.6g sideways over %.6g m", k, side, ds);
				int sign = move < 1e-9 || mixed ? 0 : along > 0 ? 1 : -1;
				if (sign) {
					cost += (sign > 0 ? s.fwd : s.rev) * ds;
					if (lastSign && sign != lastSign) {
						cusps.push_back(prev);
						switches++;
					}
					lastSign = sign;
				} else
					cost += std::min(s.fwd, s.rev) * ds;
				if (!(clear.outside(q.position) <= slack)) violate("path-outside", "segment %zu leaves the map by %.3g", k, clear.outside(q.position));
				if (!(clear(q.position) >= need)) violate("path-collision", "segment %zu passes with clearance %.4g, %.4g is required (%.4g granularity)", k, clear(q.position), (double)s.validator->minSafeRadius, slack);
				look(q);
				prev = q;
			}
			if (field) {
				double ds = len / n, top = 0;
				int w = ds > 0 ? std::min(n, (int)std::ceil(window / ds)) : n;
				for (int i = 0; i <= n; i++) {
					double lo = 1e9, hi = 0;
					for (int j = std::max(0, i - w); j <= std::min(n, i + w); j++) {
						lo = std::min(lo, fieldAt[j]);
						hi = std::max(hi, fieldAt[j]);
					}
					fieldLo += (i < n) * ds * lo;
					fieldHi += (i < n) * ds * hi;
					top = std::max(top, hi);
				}
				fieldHi += window * top;
			}
			if (dist(prev, seg.GetFinalState()) > 1e-6 || turn(prev, seg.GetFinalState()) > 1e-6) violate("disconnected", "segment %zu does not end at its final state", k);
			hidden += 2 * std::max(0l, (long)seg.GetCuspPointRatios().size() - (switches + hidden - before));
			at = seg.GetFinalState();
			length += len;
		}
		if (dist(at, goal) > 2e-3 || turn(at, goal) > 1e-3) violate("path-end", "the driven path ends %.6g away and %.6g rad off the goal", dist(at, goal), turn(at, goal));
		// sampled path follows the driven one and keeps its cusps
		for (auto& c : cusps) {
			double best = 1e9;
			for (auto& q : path) best = std::min(best, dist(q, c));
			if (best > 0.045) violate("cusp-lost", "no state of the path lies at the change of direction at (%.3f,%.3f), the nearest is %.3g away", c.x(), c.y(), best);
		}
		if (!cusps.empty()) probe("cusps", (long)cusps.size());
		if (o.smoothing < 0) {
			for (size_t i = 1; i < path.size(); i++)
				if (dist(path[i], path[i - 1]) > 1.6 * s.interp) violate("path-gap", "states %zu and %zu of the path are %.4g apart, the sampling distance is %.4g", i - 1, i, dist(path[i], path[i - 1]), (double)s.interp);
			probe("unsmoothed");
		} else
			probe("smoothed");
		// cost
		double want = cost + s.sw * switches, tol = 0.03 * (1 + o.segments.size()) * std::max(s.fwd, s.rev) + 0.06 * (switches + 1) * std::fabs(s.rev - s.fwd) + 1e-3 * want;
		bool ok = false;
		for (long k = 0; k <= hidden; k++) {
			double rest = o.cost - want - s.sw * k;
			ok |= rest >= s.voro * fieldLo - tol && rest <= s.voro * fieldHi + tol;
		}
		if (!ok) violate("cost", "reported cost %.6g, the path costs %.6g (%ld changes of direction) and %.6g to %.6g for the Voronoi field", o.cost, want, switches, s.voro * fieldLo, s.voro * fieldHi);
		probe(s.voro > 0 ? "cost-checked-with-field" : "cost-checked");
		if (fieldLo > 0.5) probe("field-counts");
		if (o.segments.size() > 2) nontrivial();
	}
}
