// C19: the smoother.  Histories of smoothing requests on one object, with map changes,
// aborted requests and re-initialisations between them; every result is compared with
// a small reference model (the documented terms, differentiated numerically) and with
// what a newly created smoother gives.
#include "world.h"
#include "algo/smoother.h"
#include "geometry/reeds_shepp.h"
#include "paths/path_reeds_shepp.h"
#include "state_space/state_space_se2.h"
#include "state_validator/gvd.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace world;
using namespace sim;

struct Validator : StateValidatorOccupancyMap {
	Validator(const Ref<StateSpaceSE2>& s, const Ref<OccupancyMap>& m) : StateValidatorOccupancyMap(s, m) { }
	bool IsStateValid(const Pose2d& s) override
	{
		if (due("throw:state")) throw Injected("state");
		return StateValidatorOccupancyMap::IsStateValid(s);
	}
};

static double q(double v) { return std::round(v * 256) / 256; }

static void generate(Rng& r, Plan& p)
{
	double res = (float)r.pick(std::vector<double> { 0.1, 0.2, 0.25, 0.25, 0.5, 0.5 });
	double w = (double)r.range(5, 10), h = (double)r.range(5, 10), ox = 0, oy = 0;
	if (r.chance(0.4)) { ox = q(r.real(-30, 30)); oy = q(r.real(-30, 30)); }
	p.cfg["map"] = { res, w, h, ox, oy };
	p.cfg["safe"] = { (float)r.pick(std::vector<double> { 0.0, 0.2, 0.2, 0.3, 0.5, 1.0 }) };
	Geo g(p);
	long nobs = r.chance(0.2) ? 0 : r.range(1, 5);
	for (long i = 0; i < nobs; i++) {
		auto o = genObstacle(r, g);
		o[1] = q(r.real(0.05, 1));
		if ((int)o[0] != 1 && (int)o[0] != 2) o[2] = q(r.real(0.05, 1));
		p.cfg[oname(i)] = o;
	}
	double faultRate = r.pick(std::vector<double> { 0, 0.3 });
	for (long n = r.range(1, 5); n > 0; n--) {
		if (nobs)
			for (long k = r.range(p.ops.empty() ? 1 : 0, 4); k > 0; k--) p.ops.push_back(Op(r.chance(0.7) ? "add" : "remove", { (double)r.below(nobs) }));
		if (r.chance(0.06)) {
			p.ops.push_back(Op("init", { (double)r.below(3) }));
			if (r.chance(0.6)) p.ops.push_back(Op("init", { 2.0 }));
		}
		// weights: path, smooth, Voronoi, collision, curvature; some of them on
		std::vector<double> wt(5);
		bool single = r.chance(0.5);
		long only = r.pick(std::vector<long> { 0, 1, 2, 2, 3, 3, 3, 4, 4 });
		for (int i = 0; i < 5; i++) wt[i] = single ? i == only : r.chance(0.6);
		Op par("par", { wt[4] > 0 ? (double)r.range(0, 5) : r.pick(std::vector<double> { 0, 1, 1, 2, 5, 20, 100 }), r.pick(std::vector<double> { 0.002, 0.01, 0.02 }), r.chance(0.9) ? 1e-3 : 1e-1,
			wt[0] * q(r.real(0.05, 3)), wt[1] * q(r.real(0.05, 1)), wt[2] * q(r.real(0.01, 1)), wt[3] * q(r.real(0.05, 2)), wt[4] * q(r.real(0.05, 0.6)), r.pick(std::vector<double> { 0, 0.2, 1.0, 3.0, 6.0 }),
			r.pick(std::vector<double> { 0.3, 0.5, 1.0, 4.0 }) });
		if (n == 1 || p.ops.empty() || r.chance(0.7)) p.ops.push_back(par);
		double s = r.chance(0.85) ? 0.46 : 0.52;
		Op op("smooth", { (double)r.below(4), q(ox + w * r.real(-s, s)), q(oy + h * r.real(-s, s)), q(r.real(-3.1, 3.1)), q(ox + w * r.real(-s, s)), q(oy + h * r.real(-s, s)), q(r.real(-3.1, 3.1)),
			q(r.pick(std::vector<double> { 0.1, 0.2, 0.4 })), (double)r.below(1 << 30), r.pick(std::vector<double> { 0, 0, 0.05, 0.15 }), (double)r.below(3) });
		if (r.chance(faultRate)) op.f.push_back(r.chance(0.6) ? Fault { "throw:state", r.below(20) } : Fault { "alloc", r.below(4) });
		p.ops.push_back(op);
	}
}

static double kappa(const Point2d& a, const Point2d& b, const Point2d& c)
{
	Point2d d = b - a, e = c - b;
	return std::acos(std::clamp(d.dot(e) / (d.norm() * e.norm()), -1.0, 1.0)) / d.norm();
}

static void execute(const Plan& p)
{
	Geo g(p);
	auto map = makeRef<ObstacleListOccupancyMap>(g.res);
	map->SetPosition({ g.ox, g.oy });
	auto space = makeRef<StateSpaceSE2>(Pose2d(-g.w / 2, -g.h / 2, -M_PI), Pose2d(g.w / 2, g.h / 2, M_PI));
	auto v = makeRef<Validator>(space, map);
	v->minSafeRadius = (float)std::max(0.0, p.c("safe", 0.2));
	MapWorld w;
	w.create(p, map);
	auto gvd = makeRef<GVD>(map);
	Smoother sm;
	auto par = Smoother::Parameters(1.0f);
	bool ready = sm.Initialize(v, gvd, 1.0f);
	if (!ready) violate("init", "the smoother could not be initialised");
	stepBudget(3000000000ull);
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		if (w.apply(op) != MapWorld::NotMine) continue;
		if (op.name == "init") {
			long what = op.iarg(0) % 3;
			ready = sm.Initialize(what == 0 ? nullptr : Ref<StateValidatorOccupancyMap>(v), what == 1 ? nullptr : gvd, par.maxCurvature);
			if (ready != (what == 2)) violate("init", "initialisation reports %d", ready);
			if (ready) {
				sm.SetParameters(par);
			}
			continue;
		}
		if (op.name == "par") {
			par.maxIterations = (int)std::clamp(op.arg(0), 0.0, 300.0);
			par.learningRate = (float)op.arg(1, 0.01);
			par.stepTolerance = (float)op.arg(2, 1e-3);
			par.pathWeight = (float)op.arg(3);
			par.smoothWeight = (float)op.arg(4);
			par.voronoiWeight = (float)op.arg(5);
			par.collisionWeight = (float)op.arg(6);
			par.curvatureWeight = (float)op.arg(7);
			par.collisionRatio = (float)op.arg(8);
			par.maxCurvature = (float)std::max(0.05, op.arg(9, 1));
			sm.SetParameters(par);
			continue;
		}
		if (op.name != "smooth") continue;
		gvd->Update();
		// the path to smooth
		Rng r((u64)op.arg(8));
		Pose2d a(op.arg(1), op.arg(2), op.arg(3)), b(op.arg(4), op.arg(5), op.arg(6));
		double gap = std::max(0.05, op.arg(7, 0.2)), noise = op.arg(9);
		std::vector<Pose2d> in;
		std::unordered_set<int> cusps;
		switch (op.iarg(0) % 4) {
		case 0:
		case 1: { // a manoeuvre, sampled
			PathReedsShepp path(a, ReedsShepp::Solver::GetShortestPath(a, b, 1.0), 1.0);
			std::set<double> at = path.GetCuspPointRatios();
			at.insert(0.0);
			at.insert(1.0);
			double len = path.GetLength(), done = 0;
			for (double c : at) {
				for (; done < c * len - gap / 2; done += gap) in.push_back(path.Interpolate(done / len));
				cusps.insert((int)in.size());
				in.push_back(path.Interpolate(c));
				done = c * len + gap;
			}
			break;
		}
		case 2: { // a line
			int n = std::clamp((int)((b.position - a.position).norm() / gap), 1, 150);
			for (int i = 0; i <= n; i++) in.push_back(Pose2d(a.position + (b.position - a.position) * ((double)i / n), a.theta));
			if (op.iarg(10) == 1) cusps = { 0, n };
			break;
		}
		default: { // short
			int n = (int)r.range(1, 7);
			for (int i = 0; i < n; i++) in.push_back(Pose2d(a.position + (b.position - a.position) * ((double)i / n), r.real(-3, 3)));
			break;
		}
		}
		if (op.iarg(10) == 2)
			for (long i = r.range(1, 4); i > 0; i--) cusps.insert((int)r.below((long)in.size()));
		if (noise > 0)
			for (auto& s : in) {
				s.position.x() += r.real(-noise, noise) * gap;
				s.position.y() += r.real(-noise, noise) * gap;
			}
		const int n = (int)in.size();

		Smoother::Status status = Smoother::Failure;
		bool aborted = false;
		{
			Armed armed(op);
			try {
				status = sm.Smooth(in, cusps);
			} catch (const Injected&) {
				aborted = true;
			} catch (const std::bad_alloc&) {
				aborted = true;
			}
		}
		if (aborted && firedInOp() == 0) violate("unexpected-failure", "smoothing threw although nothing was injected");
		if (aborted) {
			probe("aborted");
			ev("%zu smooth %d points aborted", k, n);
			continue;
		}
		auto out = sm.GetPath();
		Hash h;
		h.add((u64)status);
		for (auto& s : out) { h.addd(s.x()); h.addd(s.y()); h.addd(s.theta); }
		state(h.h);
		ev("%zu smooth %d points status %d %016llx", k, n, (int)status, (unsigned long long)h.h);
		if (!ready) {
			if (status >= 0) violate("status", "a smoother that is not initialised reports %d", (int)status);
			probe("not-initialised");
			continue;
		}
		Quiet quiet;
		// a new smoother gives the same
		{
			Smoother other;
			other.Initialize(v, gvd, par.maxCurvature);
			other.SetParameters(par);
			auto st = other.Smooth(in, cusps);
			bool same = st == status && (st < 0 || other.GetPath().size() == out.size());
			for (size_t i = 0; same && st >= 0 && i < out.size(); i++) same = out[i].position == other.GetPath()[i].position && out[i].theta == other.GetPath()[i].theta;
			if (!same) violate("history", "a new smoother gives a different result (status %d, here %d)", (int)st, (int)status);
		}
		if (status < 0) probe("failure");
		else {
			// what every result promises
			if ((int)out.size() != n) violate("size", "%zu states after smoothing %d", out.size(), n);
			Cells occ = occupied(*map);
			for (int i = 0; i < n; i++) {
				if (!std::isfinite(out[i].x()) || !std::isfinite(out[i].y())) violate("not-finite", "state %d is not finite", i);
				if (out[i].theta != in[i].theta) violate("heading", "the heading of state %d changes", i);
				bool fixed = i == 0 || i == n - 1;
				for (int c : cusps) fixed |= std::abs(c - i) <= 1;
				if (fixed && out[i].position != in[i].position) violate("fixed-point", "state %d of %d, an end or next to a change of direction, moves by %.3g", i, n, (out[i].position - in[i].position).norm());
				if (!v->IsStateValid(out[i])) violate("unsafe", "state %d of the smoothed path is not valid", i);
				double x = std::floor((out[i].x() - g.ox + (double)g.w / 2) / g.res), y = std::floor((out[i].y() - g.oy + (double)g.h / 2) / g.res), best = 1e300;
				for (auto& o : occ) best = std::min(best, std::hypot(x - o.first, y - o.second));
				if (best * g.res < v->minSafeRadius - 0.3 * g.res) violate("unsafe", "state %d of the smoothed path has clearance %.4g", i, best * g.res);
			}
			if (n < 5) {
				if (status != Smoother::PathSize) violate("status", "status %d for %d states", (int)status, n);
				for (int i = 0; i < n; i++)
					if (out[i].position != in[i].position) violate("fixed-point", "a short path changes");
			}
		}
		// the reference model
		std::vector<Point2d> x;
		for (auto& s : in) x.push_back(s.position);
		std::set<int> freed;
		for (int i = 2; i < n - 2; i++) {
			bool ok = true;
			for (int c : cusps) ok &= std::abs(c - i) > 2;
			if (ok) freed.insert(i);
		}
		const double safe = (double)v->minSafeRadius * (1 + (double)par.collisionRatio), alpha = gvd->alpha, dMax = gvd->dMax;
		bool marginal = false;
		long active[5] = {};
		int it = 0;
		bool byTolerance = false;
		if (n >= 5)
			for (; it < par.maxIterations && !marginal; it++) {
				std::vector<Point2d> grad(n, Point2d(0, 0));
				for (int i : freed) {
					const Point2d& c = x[i];
					auto add = [&](int at, double weight, auto&& f) { // gradient of f, by differences
						const double e = 1e-5;
						Point2d d;
						for (int j = 0; j < 2; j++) {
							Point2d hi(0, 0);
							hi[j] = e;
							d[j] = (f(hi) - f(-hi)) / (2 * e);
						}
						grad[at] += weight * d;
					};
					if (par.pathWeight > 0) {
						active[0]++;
						grad[i] += (double)par.pathWeight * (c - in[i].position);
					}
					if (par.smoothWeight > 0) {
						active[1]++;
						// the second differences around it should vanish
						auto D = [&](int j) { return Point2d(x[j - 1] - 2 * x[j] + x[j + 1]); };
						grad[i] += (double)par.smoothWeight * (D(i - 1) - 2 * D(i) + D(i + 1));
					}
					double fx = (c.x() - g.ox + (double)g.w / 2) / g.res, fy = (c.y() - g.oy + (double)g.h / 2) / g.res;
					if (std::fabs(fx - std::round(fx)) < 1e-4 || std::fabs(fy - std::round(fy)) < 1e-4) marginal = true;
					bool inside = fx > 0 && fy > 0 && fx < map->Rows() && fy < map->Columns();
					if (inside && !marginal) {
						GridCellPosition cell((int)fx, (int)fy), o = gvd->GetNearestObstacleCell(cell), e = gvd->GetNearestVoronoiEdgeCell(cell);
						auto centre = [&](const GridCellPosition& z) { return map->GridCellToWorldPosition(z); };
						if (o.row >= 0) {
							Point2d O = centre(o);
							double od = (c - O).norm();
							if (std::fabs(od - safe) < 1e-3 || std::fabs(od - dMax) < 1e-3 || od < 1e-2) marginal = true;
							if (od < safe && par.collisionWeight > 0) {
								active[3]++;
								add(i, par.collisionWeight, [&](const Point2d& d) { double z = (c + d - O).norm() - safe; return z * z / 2; });
							}
							if (od < dMax && par.voronoiWeight > 0 && e.row >= 0) {
								Point2d E = centre(e);
								if ((c - E).norm() < 1e-2) marginal = true;
								else {
									active[2]++;
									add(i, par.voronoiWeight, [&](const Point2d& d) {
										double a1 = (c + d - O).norm(), b1 = (c + d - E).norm();
										return alpha / (alpha + a1) * b1 / (a1 + b1) * (a1 - dMax) * (a1 - dMax) / (dMax * dMax);
									});
								}
							}
						}
					}
					double kp = kappa(x[i - 1], x[i], x[i + 1]), phi = kp * (x[i] - x[i - 1]).norm();
					if (!(phi > 0.03 || kp < 0.7 * par.maxCurvature) || phi > 3.0 || !(std::fabs(kp - par.maxCurvature) > 1e-3) || !std::isfinite(kp)) marginal |= par.curvatureWeight > 0;
					if (kp > par.maxCurvature && par.curvatureWeight > 0 && !marginal) {
						active[4]++;
						double wgt = (double)par.curvatureWeight * (kp - (double)par.maxCurvature);
						add(i - 1, wgt, [&](const Point2d& d) { return kappa(x[i - 1] + d, x[i], x[i + 1]); });
						add(i, wgt, [&](const Point2d& d) { return kappa(x[i - 1], x[i] + d, x[i + 1]); });
						add(i + 1, wgt, [&](const Point2d& d) { return kappa(x[i - 1], x[i], x[i + 1] + d); });
					}
				}
				double step = 0, longest = 0;
				for (int i = 0; i < n; i++) {
					x[i] -= (double)par.learningRate * grad[i];
					step = std::max(step, grad[i].norm());
				}
				longest = step * par.learningRate;
				if (!(longest < 0.5 * gap)) marginal = true; // diverging: rounding decides
				if (std::fabs(step - par.stepTolerance) < 1e-2 * par.stepTolerance) marginal = true;
				if (it > 5 && par.curvatureWeight > 0) marginal = true;
				if (step < par.stepTolerance) {
					it++;
					byTolerance = it < par.maxIterations;
					break;
				}
			}
		if (marginal) {
			probe("reference-marginal");
			continue;
		}
		double moved = 0;
		for (int i = 0; i < n; i++) moved = std::max(moved, (x[i] - in[i].position).norm());
		bool clear = true; // every reference state clearly valid or clearly not
		int unsafe = 0;
		for (int i = 0; i < n; i++) {
			bool ok[2] = {};
			for (int c = 0; c < 4; c++) ok[v->IsStateValid(Pose2d(x[i] + Point2d(c & 1 ? 1e-4 : -1e-4, c & 2 ? 1e-4 : -1e-4), in[i].theta))] = true;
			if (ok[0] && ok[1]) clear = false;
			if (!ok[1]) unsafe++;
		}
		if (status >= 0) {
			for (int i = 0; i < n; i++) {
				double d = (out[i].position - x[i]).norm();
				if (!(d <= 2e-5 * (1 + it) + 2e-3 * moved)) violate("not-the-descent", "after %d iterations state %d of %d is %.4g away from where the terms take it (they move the path by up to %.4g)", it, i, n, d, moved);
			}
			probe("reference-compared");
			static const char* names[5] = { "term:path", "term:smooth", "term:voronoi", "term:collision", "term:curvature" };
			for (int i = 0; i < 5; i++)
				if (active[i]) probe(names[i]);
			if (moved > 1e-3) nontrivial();
		}
		if (clear) {
			auto want = unsafe ? Smoother::Failure : n < 5 ? Smoother::PathSize : byTolerance ? Smoother::StepTolerance : Smoother::MaxIteration;
			bool ok = unsafe ? status < 0 : status == want;
			if (!ok) violate("status", "status %d, expected %d (%d unsafe states, %d iterations of %d)", (int)status, (int)want, unsafe, it, par.maxIterations);
		}
	}
}
const Property sim::property = { "C19", generate, execute };
