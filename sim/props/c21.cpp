// C21: a connection drives to its goal and no drive there is shorter; the cost-to-go table
// holds the cost of that connection; the bicycle model follows the axle geometry.
#include "sim.h"
#include "core/base.h"
#include "geometry/reeds_shepp.h"
#include "algo/heuristics.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_reeds_shepp.h"
#include "paths/path_constant_steer.h"
#include <cmath>
#include <limits>
using namespace Planner;
using namespace sim;
using L = long double;

static double quant(double v) { return std::round(v * 256) / 256; }

static void generate(Rng& r, Plan& p)
{
	double R = r.pick(std::vector<double> { 0.5, 1.0, 1.0, 1.7, 4.0 });
	p.cfg["radius"] = { R };
	p.cfg["weights"] = { r.chance(0.25) ? 1.0 : quant(r.real(0.5, 4)), r.chance(0.25) ? 1.0 : quant(r.real(0.5, 2)), r.chance(0.3) ? 0.0 : quant(r.real(0, 6)) };
	// size of the space, resolution, angular resolution
	p.cfg["table"] = { quant(r.real(2, 9)), quant(r.real(2, 9)), r.pick(std::vector<double> { 0.5, 1.0, 1.25 }), r.pick(std::vector<double> { 0.5, 0.7853981633974483, 1.0 }) };
	bool estimates = r.chance(0.3);
	double scale = r.pick(std::vector<double> { 0.3, 2, 2, 8 }) * R, faults = r.pick(std::vector<double> { 0, 0, 0.3 });
	p.ops.push_back(Op("jump", { quant(r.real(-9, 9)), quant(r.real(-9, 9)), r.chance(0.3) ? (double)r.range(-4, 4) * M_PI / 4 : r.real(-M_PI, M_PI) }));
	for (long i = r.range(4, 22); i > 0; i--) {
		double u = r.real();
		if (r.chance(0.25)) {
			// a drive of the shape of one of the known kinds of shortest path
			static const struct { const char *steer, *dir, *len; } words[] = {
				{ "csc", "fff", "tut" }, { "csd", "fff", "tut" }, { "cdc", "fbf", "ttt" }, { "cdc", "fbb", "ttt" }, { "cdc", "ffb", "ttt" }, { "cdcd", "ffbb", "twwt" }, { "cdcd", "fbbf", "twwt" },
				{ "cdsc", "fbbb", "tqut" }, { "cdsd", "fbbb", "tqut" }, { "csdc", "fffb", "tuqt" }, { "cscd", "fffb", "tuqt" }, { "cdscd", "fbbbf", "tquqt" },
			};
			auto& w = words[r.below(12)];
			int c = r.chance(0.5) ? 1 : -1, f = r.chance(0.5) ? 1 : 0;
			double same = r.real(0, 1.6), q = M_PI / 2, cap = r.pick(std::vector<double> { 0.4, 1.6, 3.1 });
			p.ops.push_back(Op("mark"));
			for (int k = 0; w.steer[k]; k++) {
				double a = w.len[k] == 'q' ? q : w.len[k] == 'w' ? same : w.len[k] == 'u' ? r.real(0, 4) : r.real(0, cap);
				p.ops.push_back(Op("drive", { (double)(w.steer[k] == 's' ? 0 : w.steer[k] == 'c' ? c : -c), (double)(w.dir[k] == 'f' ? f : 1 - f), a * R, 1.0 }));
			}
			u = 1;
		}
		if (u < 0.45) p.ops.push_back(Op("drive", { (double)r.range(-1, 1), (double)r.below(2), r.chance(0.3) ? quant(r.real(0, scale)) : r.real(0, scale), r.chance(0.6) ? 1.0 : 1 + 3 * r.real() }));
		else if (u < 0.5) p.ops.push_back(Op("mark"));
		else if (u < 0.56) p.ops.push_back(Op("jump", { r.real(-2, 2) * scale, r.real(-2, 2) * scale, r.chance(0.3) ? (double)r.range(-4, 4) * M_PI / 2 : r.real(-7, 7) }));
		else if (u < 0.62) p.ops.push_back(Op("model", { r.real(0.5, 4), r.chance(0.2) ? 0.0 : r.real(0, 2), 2 + r.real(0.01, 9), (double)r.below(2), r.real(0, 12), (double)r.below(2), r.chance(0.3) ? std::pow(10.0, r.real(-11, -1)) : 0 }));
		else if (u < 0.72 && estimates) p.ops.push_back(Op("estimate", { r.chance(0.5) ? 1.0 : 0.0, r.real(-1.3, 1.3), r.real(-1.3, 1.3), r.real(-4, 4), (double)r.below(1000) }));
		else {
			Op op("connect", { quant(r.real(0.3, 8)), quant(r.real(0.3, 4)), quant(r.real(0, 9)), r.real() });
			if (r.chance(faults)) op.f.push_back({ "alloc", r.below(4) });
			p.ops.push_back(op);
		}
	}
	p.ops.push_back(Op("connect", { 3, 1, 2, r.real() }));
}

struct Car {
	L x = 0, y = 0, t = 0;
	void drive(int steer, int dir, L len, L radius)
	{
		if (!steer) {
			x += dir * len * std::cos(t);
			y += dir * len * std::sin(t);
			return;
		}
		L k = steer / radius, t2 = t + dir * len * k;
		// chord form: exact for small turns too
		L half = (t2 - t) / 2, chord = std::fabs(half) < 1e-15L ? dir * len : 2 / k * std::sin(half);
		x += chord * std::cos(t + half);
		y += chord * std::sin(t + half);
		t = t2;
	}
	Pose2d pose() const { return Pose2d((double)x, (double)y, (double)std::remainder(t, 2 * (L)M_PIl)); }
};

static double wrap(double t) { return std::remainder(t, 2 * M_PI); }
static double off(const Pose2d& a, const Pose2d& b) { return (a.position - b.position).norm() + std::fabs(wrap(a.theta - b.theta)); }

/// the combination sets the goals of its parts; only a search may do so otherwise
struct Goal : AStarCombinedHeuristic<Pose2d> {
	void Set(const Pose2d& g) { SetGoal(g); }
};

static void execute(const Plan& p)
{
	const double R = std::max(0.1, p.c("radius", 1));
	const auto& w = p.cv("weights");
	const double rev = w.size() > 0 ? std::max(0.01, w[0]) : 1, fwd = w.size() > 1 ? std::max(0.01, w[1]) : 1, sw = w.size() > 2 ? std::max(0.0, w[2]) : 0;
	const auto& tb = p.cv("table");
	const double sizeX = tb.size() > 0 ? std::max(1.0, tb[0]) : 4, sizeY = tb.size() > 1 ? std::max(1.0, tb[1]) : 4, res = tb.size() > 2 ? std::max(0.25, tb[2]) : 1, ang = tb.size() > 3 ? std::max(0.3, tb[3]) : 1;
	Ref<NonHolonomicHeuristic> table;
	Goal goalSetter;
	Car car;
	Pose2d from(0, 0, 0);
	L driven = 0;
	bool reachable = true; // whether the leg was driven (and not jumped)
	Hash h;

	/// the cost of a list of motions: with and without the changes of direction around motions of no length
	auto costOf = [&](const ReedsShepp::PathSegment& s, double rv, double fw, double c, double& lo, double& hi) {
		double sum = 0;
		int strict = 0, loose = 0;
		Direction all = Direction::NoMotion, moved = Direction::NoMotion;
		for (int i = 0; i < s.GetNumMotions(); i++) {
			auto& m = s.GetMotion(i);
			double len = m.length * R;
			sum += len * (m.direction == Direction::Forward ? fw : rv);
			if (all != Direction::NoMotion && m.direction != all) loose++;
			all = m.direction;
			if (len < 1e-6) continue;
			if (moved != Direction::NoMotion && m.direction != moved) strict++;
			moved = m.direction;
		}
		lo = sum + std::min(strict, loose) * c;
		hi = sum + std::max(strict, loose) * c;
	};
	/// a segment must drive a car from a to b
	auto judge = [&](const char* what, const Pose2d& a, const Pose2d& b, const ReedsShepp::PathSegment& s) {
		const double len = s.GetLength(R);
		if (!(len >= 0) || !std::isfinite(len) || s.GetNumMotions() < 1) violate("no-path", "%s: no path although a car can reach every pose", what);
		Car c;
		c.x = a.x(), c.y = a.y(), c.t = a.theta;
		L sum = 0;
		for (int i = 0; i < s.GetNumMotions(); i++) {
			auto& m = s.GetMotion(i);
			if (!(m.length >= -1e-12)) violate("motion", "%s: motion %d has length %.6g", what, i, m.length);
			c.drive(m.steer == Steer::Left ? 1 : m.steer == Steer::Right ? -1 : 0, m.direction == Direction::Forward ? 1 : -1, (L)m.length * R, R);
			sum += std::fabs((L)m.length) * R;
		}
		if (std::fabs((double)sum - len) > 1e-6 * (1 + len)) violate("length", "%s: the motions are %.9g long, the path %.9g", what, (double)sum, len);
		double d = off(c.pose(), b);
		if (!(d < 1e-6 * (1 + len))) violate("goal", "%s: a car that follows the motions ends %.6g away from the goal", what, d);
		return len;
	};
	/// and so must the path made of it
	auto judgePath = [&](const char* what, const Pose2d& a, const Pose2d& b, const PathSE2Base& path) {
		const double len = path.GetLength();
		if (off(path.GetInitialState(), a) > 1e-9) violate("start", "%s: the path starts %.6g away from the start", what, off(path.GetInitialState(), a));
		if (!(off(path.GetFinalState(), b) < 1e-6 * (1 + len))) violate("goal", "%s: the path ends %.6g away from the goal", what, off(path.GetFinalState(), b));
		const int n = 64;
		Pose2d prev = path.Interpolate(0.0);
		if (off(prev, a) > 1e-9 * (1 + len)) violate("start", "%s: the path starts %.6g away from the start", what, off(prev, a));
		for (int i = 1; i <= n; i++) {
			Pose2d q = path.Interpolate((double)i / n);
			double ds = len / n, turn = std::fabs(wrap(q.theta - prev.theta)), move = (q.position - prev.position).norm();
			if (move > ds * (1 + 1e-6) + 1e-9) violate("motion", "%s: between two states %.6g apart on the path the car moves %.6g", what, ds, move);
			if (ds / R < 3 && turn > ds / R * (1 + 1e-6) + 1e-9) violate("motion", "%s: the car turns by %.6g on %.6g of the path, radius %.3g", what, turn, ds, R);
			h.addd(q.x());
			h.addd(q.y());
			prev = q;
		}
		if (!(off(prev, b) < 1e-6 * (1 + len))) violate("goal", "%s: the last state is %.6g away from the goal", what, off(prev, b));
	};

	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		stepBudget(400000000ull);
		if (op.name == "drive") {
			double len = std::max(0.0, op.arg(2));
			car.drive((int)op.iarg(0), op.arg(1) != 0 ? 1 : -1, len, (L)R * std::max(1.0, op.arg(3, 1)));
			driven += len;
		} else if (op.name == "mark") {
			from = car.pose();
			car.x = from.x(), car.y = from.y(), car.t = from.theta;
			driven = 0;
			reachable = true;
		} else if (op.name == "jump") {
			if (k == 0) {
				from = Pose2d(op.arg(0), op.arg(1), op.arg(2));
				car.x = from.x(), car.y = from.y(), car.t = from.theta;
			} else {
				car.x = op.arg(0), car.y = op.arg(1), car.t = op.arg(2);
				reachable = false;
			}
		} else if (op.name == "connect") {
			const Pose2d to = car.pose();
			ReedsShepp::PathSegment shortest, best;
			Ref<PathSE2Base> path;
			double distance = -1, rv = rev, fw = fwd, c = sw;
			bool failed = false;
			{
				Armed arm(op);
				PathConnectionReedsShepp connection(R, c, rv, fw);
				try {
					shortest = ReedsShepp::Solver::GetShortestPath(from, to, R);
					distance = ReedsShepp::Solver::GetShortestDistance(from, to, R);
					best = ReedsShepp::Solver::GetOptimalPath(from, to, R, rv, fw, c);
					path = connection.Connect(from, to);
				} catch (const std::bad_alloc&) {
					failed = true;
				}
				if (failed && !firedInOp()) violate("unexpected-failure", "no memory although nothing was injected");
			}
			if (failed) {
				probe("connect-failed");
				path = PathConnectionReedsShepp(R, c, rv, fw).Connect(from, to);
				best = ReedsShepp::Solver::GetOptimalPath(from, to, R, rv, fw, c);
				shortest = ReedsShepp::Solver::GetShortestPath(from, to, R);
				distance = ReedsShepp::Solver::GetShortestDistance(from, to, R);
			}
			const double len = judge("shortest", from, to, shortest);
			judge("optimal", from, to, best);
			judgePath("shortest", from, to, PathReedsShepp(from, shortest, R));
			judgePath("connection", from, to, *path);
			const double tol = 1e-5 * (1 + len);
			if (std::fabs(distance - len) > tol) violate("distance", "the shortest distance is given as %.9g, the shortest path is %.9g long", distance, len);
			if (reachable && len > (double)driven + tol) violate("not-shortest", "the shortest path is %.9g long, a car got there in %.9g", len, (double)driven);
			if (len < (to.position - from.position).norm() - tol) violate("too-short", "the path is shorter than the straight line");
			if (reachable) probe("driven-leg");
			// there and back, mirrored, and cut in two
			double back = ReedsShepp::Solver::GetShortestPath(to, from, R).GetLength(R);
			if (std::fabs(back - len) > tol) violate("not-shortest", "%.9g there, %.9g back", len, back);
			Pose2d ma(from.x(), -from.y(), -from.theta), mb(to.x(), -to.y(), -to.theta);
			double mirrored = ReedsShepp::Solver::GetShortestPath(ma, mb, R).GetLength(R);
			if (std::fabs(mirrored - len) > tol) violate("not-shortest", "%.9g, mirrored %.9g", len, mirrored);
			double cut = std::clamp(op.arg(3), 0.0, 1.0);
			Pose2d via = PathReedsShepp(from, shortest, R).Interpolate(cut);
			double l1 = ReedsShepp::Solver::GetShortestPath(from, via, R).GetLength(R), l2 = ReedsShepp::Solver::GetShortestPath(via, to, R).GetLength(R);
			if (l1 + l2 > len + tol || l1 > cut * len + tol || l2 > (1 - cut) * len + tol) violate("not-shortest", "%.9g long, but its parts take %.9g and %.9g", len, l1, l2);
			// cost
			double lo, hi, got = best.ComputeCost(R, rv, fw, c), x = shortest.ComputeCost(R, rv, fw, c);
			costOf(best, rv, fw, c, lo, hi);
			const double ctol = 1e-4 * (1 + hi);
			if (got < lo - ctol || got > hi + ctol) violate("cost", "the cost is given as %.9g, the motions cost %.9g", got, hi);
			costOf(shortest, rv, fw, c, lo, hi);
			if (x < lo - ctol || x > hi + ctol) violate("cost", "the cost is given as %.9g, the motions cost %.9g", x, hi);
			if (got > x + ctol) violate("not-cheapest", "the cheapest path costs %.9g, the shortest %.9g", got, x);
			if (got < std::min(rv, fw) * len - ctol) violate("cost", "a cost of %.9g is less than driving %.9g", got, len);
			// what is best under other weights is not better under these
			double rv2 = std::max(0.01, op.arg(0, 1)), fw2 = std::max(0.01, op.arg(1, 1)), c2 = std::max(0.0, op.arg(2, 0));
			auto other = ReedsShepp::Solver::GetOptimalPath(from, to, R, rv2, fw2, c2);
			judge("optimal", from, to, other);
			if (got > other.ComputeCost(R, rv, fw, c) + ctol) violate("not-cheapest", "the cheapest path costs %.9g, another one %.9g", got, (double)other.ComputeCost(R, rv, fw, c));
			if (other.ComputeCost(R, rv2, fw2, c2) > best.ComputeCost(R, rv2, fw2, c2) + 1e-4 * (1 + best.ComputeCost(R, rv2, fw2, c2))) violate("not-cheapest", "the cheapest path is dearer than another one");
			if (auto rs = std::dynamic_pointer_cast<PathReedsShepp>(path)) {
				if (std::fabs(rs->ComputeCost(c, rv, fw) - got) > ctol) violate("cost", "the connection costs %.9g, the cheapest path %.9g", rs->ComputeCost(c, rv, fw), got);
			}
			auto plain = ReedsShepp::Solver::GetOptimalPath(from, to, R, 1, 1, 0);
			if (std::fabs(plain.GetLength(R) - len) > 1e-4 * (1 + len)) violate("not-cheapest", "without weights the cheapest path is %.9g long, the shortest %.9g", plain.GetLength(R), len);
			if (len > 1e-3) nontrivial();
			h.addd(len);
			h.addd(got);
			state(h.h);
			ev("%zu connect %.9g %.9g %016llx", k, len, got, (unsigned long long)h.h);
		} else if (op.name == "estimate") {
			if (!table) {
				table = NonHolonomicHeuristic::Build({ Pose2d(0, 0, -M_PI), Pose2d(sizeX, sizeY, M_PI) }, res, ang, R, rev, fwd, sw);
				goalSetter.Add(table);
			}
			const Pose2d goal = car.pose();
			goalSetter.Set(goal);
			const int reachX = (int)std::floor(sizeX / 2 / res), reachY = (int)std::floor(sizeY / 2 / res);
			Pose2d rel;
			if (op.arg(0) != 0) // exactly on an entry
				rel = Pose2d(std::round(std::clamp(op.arg(1), -1.0, 1.0) * reachX) * res, std::round(std::clamp(op.arg(2), -1.0, 1.0) * reachY) * res, (double)(op.iarg(4) % 6) * ang);
			else
				rel = Pose2d(op.arg(1) * sizeX / 2, op.arg(2) * sizeY / 2, op.arg(3));
			// the state from which the goal lies at rel
			Car s;
			s.t = (L)goal.theta - rel.theta;
			s.x = goal.x() - (rel.x() * std::cos(s.t) - rel.y() * std::sin(s.t));
			s.y = goal.y() - (rel.x() * std::sin(s.t) + rel.y() * std::cos(s.t));
			const Pose2d state = s.pose();
			const double got = goalSetter.GetHeuristicValue(state);
			const double line = std::min(rev, fwd) * (goal.position - state.position).norm();
			auto close = [](double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::fabs(b)); };
			// what a connection costs from a state that differs by at most half a cell and half an angular step
			bool ok = false;
			double nearest = std::numeric_limits<double>::infinity();
			auto cost = [&](const Pose2d& a, const Pose2d& b) { return (double)ReedsShepp::Solver::GetOptimalPath(a, b, R, rev, fwd, sw).ComputeCost(R, rev, fwd, sw); };
			auto consider = [&](bool inState) {
				Pose2d d = inState ? goal - state : state - goal;
				int numA = (int)std::ceil(2 * M_PI / ang);
				for (int i = (int)std::floor(d.x() / res) - 1; i <= (int)std::ceil(d.x() / res) + 1; i++)
					for (int j = (int)std::floor(d.y() / res) - 1; j <= (int)std::ceil(d.y() / res) + 1; j++)
						for (int a = 0; a < numA; a++) {
							if (std::fabs(i * res - d.x()) > res / 2 + 1e-6 || std::fabs(j * res - d.y()) > res / 2 + 1e-6 || std::fabs(wrap(a * ang - d.theta)) > ang / 2 + 1e-6) continue;
							Pose2d node(i * res, j * res, a * ang);
							// an entry may lie where the cheapest kind of path changes
							for (double e : { 0.0, 1e-7, -1e-7 })
								for (int v = 0; v < (e == 0 ? 1 : 3); v++) {
									Pose2d q(node.x() + (v == 0 ? e : 0), node.y() + (v == 1 ? e : 0), node.theta + (v == 2 ? e : 0));
									double x = inState ? cost(Pose2d(0, 0, 0), q) : cost(q, Pose2d(0, 0, 0));
									if (e == 0 && std::fabs(x - got) < std::fabs(nearest - got)) nearest = x;
									ok |= close(got, x);
									if (ok) return;
								}
						}
			};
			Pose2d d1 = goal - state, d2 = state - goal;
			bool inside = std::max(std::fabs(d1.x()), std::fabs(d2.x())) <= sizeX / 2 - 1e-6 && std::max(std::fabs(d1.y()), std::fabs(d2.y())) <= sizeY / 2 - 1e-6;
			bool outside = std::min(std::fabs(d1.x()), std::fabs(d2.x())) > sizeX / 2 + 2 * res || std::min(std::fabs(d1.y()), std::fabs(d2.y())) > sizeY / 2 + 2 * res;
			if (!outside) {
				consider(true);
				if (!ok) consider(false);
			}
			if (!inside) ok |= close(got, line);
			if (!ok) violate("estimate", "the cost to a goal at (%.4g, %.4g, %.4g) is estimated as %.6g; a connection costs %.6g, the line %.6g (%s the table)", rel.x(), rel.y(), rel.theta, got, nearest, line, inside ? "inside" : outside ? "outside" : "near the border of");
			probe(inside ? "estimate-inside" : outside ? "estimate-outside" : "estimate-border");
			h.addd(got);
			sim::state(h.h);
			ev("%zu estimate %.9g", k, got);
		} else if (op.name == "model") {
			const double base = std::max(0.1, op.arg(0)), rear = std::clamp(op.arg(1), 0.0, 2.0), radius = std::max(2.001, op.arg(2, 3)), dist = std::max(0.0, op.arg(4));
			auto model = makeRef<KinematicBicycleModel>(base, rear);
			double steering = model->GetSteeringAngleFromTurningRadius(radius);
			if (op.arg(6) != 0) steering = op.arg(6); // all but straight
			if (op.arg(3) != 0) steering = -steering;
			const Direction dir = op.arg(5) != 0 ? Direction::Forward : Direction::Backward;
			const Pose2d start = car.pose();
			// the rear axle rolls along its own heading, the position lies ahead of it
			Car axle;
			axle.t = start.theta;
			axle.x = start.x() - rear * std::cos(axle.t);
			axle.y = start.y() - rear * std::sin(axle.t);
			L k1 = std::tan((L)steering) / base;
			axle.drive(k1 > 0 ? 1 : k1 < 0 ? -1 : 0, dir == Direction::Forward ? 1 : -1, dist, k1 != 0 ? 1 / std::fabs(k1) : 1);
			Pose2d want((double)(axle.x + rear * std::cos(axle.t)), (double)(axle.y + rear * std::sin(axle.t)), (double)std::remainder(axle.t, 2 * (L)M_PIl));
			PathConstantSteer path(model, start, steering, dist, dir);
			if (off(path.GetFinalState(), want) > 1e-6 * (1 + dist)) violate("model", "the car is %.6g away from where its axles take it", off(path.GetFinalState(), want));
			if (off(path.Interpolate(0.0), start) > 1e-9) violate("model", "a car that has not moved is %.6g away", off(path.Interpolate(0.0), start));
			if (op.arg(6) == 0) {
				// the position runs on the circle that was asked for
				Pose2d a = path.Interpolate(0.0), b = path.Interpolate(0.5), c = path.GetFinalState();
				double la = (b.position - c.position).norm(), lb = (a.position - c.position).norm(), lc = (a.position - b.position).norm();
				Point2d ab = b.position - a.position, ac = c.position - a.position;
				double area2 = std::fabs(ab.x() * ac.y() - ab.y() * ac.x());
				if (area2 > 1e-3) {
					double r = la * lb * lc / (2 * area2);
					if (std::fabs(r - radius) > 1e-5 * radius) violate("model", "the circle driven has radius %.9g instead of %.9g", r, radius);
					probe("circle");
				}
			}
			h.addd(path.GetFinalState().x());
			sim::state(h.h);
			ev("%zu model %.9g", k, path.GetFinalState().x());
		}
	}
}
const sim::Property sim::property = { "C21", generate, execute };
