// C15: path validation against the obstacle map, through every history of the map.
#include "world.h"
#include "geometry/reeds_shepp.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_se2.h"
#include "paths/path_constant_steer.h"
#include "paths/path_composite.h"
#include "paths/path_reeds_shepp.h"
#include "state_space/state_space_se2.h"
#include "state_validator/state_validator_occupancy_map.h"
using namespace world;
using namespace sim;

/// a path whose interpolation can fail half-way
struct FaultPath : PathSE2Base {
	Ref<PathSE2Base> inner;
	explicit FaultPath(const Ref<PathSE2Base>& p) : PathSE2Base(p->GetInitialState(), p->GetLength()), inner(p) { m_final = p->GetFinalState(); }
	Pose2d Interpolate(double ratio) const override
	{
		if (due("throw:path")) throw Injected("path");
		return inner->Interpolate(ratio);
	}
	void Truncate(double ratio) override { inner->Truncate(ratio); }
};

static void generate(Rng& r, Plan& p)
{
	genMap(r, p, 6, 40, true);
	double faultRate = r.pick(std::vector<double> { 0, 0.1, 0.3 });
	Geo g(p);
	Plan hist;
	hist.cfg = p.cfg;
	genMapHistory(r, hist, r.range(3, 20), faultRate, true, 0.2);
	p.cfg = hist.cfg;
	double cells = r.pick(std::vector<double> { 0, 0.7, 1.0, 1.5, 2.5, 4, 8, 16 });
	p.cfg["safe"] = { (float)(cells * g.res), (float)(g.res * r.pick(std::vector<double> { 0.1, 0.3, 0.5, 1.0 })) };
	p.cfg["late"] = { (double)r.chance(0.3) };
	auto q = [](double v) { return std::round(v * 256) / 256; };
	for (auto& op : hist.ops) {
		p.ops.push_back(op);
		if (!r.chance(0.6)) continue;
		for (long n = r.range(1, 4); n > 0; n--) {
			double s = r.chance(0.8) ? 0.5 : 0.6;
			Op c("check", { (double)r.below(5), q(g.ox + g.w * r.real(-s, s)), q(g.oy + g.h * r.real(-s, s)), q(r.real(-3.1, 3.1)), q(g.ox + g.w * r.real(-s, s)), q(g.oy + g.h * r.real(-s, s)), q(r.real(-3.1, 3.1)), (double)r.chance(0.8) });
			if (r.chance(0.1)) { c.a[4] = c.a[1]; c.a[5] = c.a[2]; }
			if (r.chance(faultRate)) c.f.push_back({ "throw:path", r.below(12) });
			p.ops.push_back(c);
		}
	}
}

static void execute(const Plan& p)
{
	Geo g(p);
	auto map = makeRef<ObstacleListOccupancyMap>(g.res);
	bool late = p.ci("late") != 0;
	if (!late) map->SetPosition({ g.ox, g.oy });
	auto space = makeRef<StateSpaceSE2>(Pose2d(-g.w / 2, -g.h / 2, -M_PI), Pose2d(g.w / 2, g.h / 2, M_PI));
	StateValidatorOccupancyMap v(space, map);
	if (late) map->SetPosition({ g.ox, g.oy });
	MapWorld w;
	w.create(p, map);
	auto& sf = p.cv("safe");
	const double safe = v.minSafeRadius = (float)std::max(0.0, sf.size() ? sf[0] : 1.0);
	const double step = v.minPathInterpolationDistance = (float)std::max(0.02 * g.res, sf.size() > 1 ? sf[1] : 0.1);
	auto model = makeRef<KinematicBicycleModel>(2.6 * g.res, 0.0);
	const double R = 2 * g.res;
	bool stale = true;
	std::vector<Cell> occ;
	std::map<std::pair<double, double>, double> known; // brute-force clearance of a cell
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		if (w.apply(op) != MapWorld::NotMine) {
			stale = true;
			continue;
		}
		if (op.name != "check") continue;
		if (stale) {
			map->Update();
			occ.clear();
			known.clear();
			for (auto& c : occupied(*map)) occ.push_back(c);
			stale = false;
		}
		// independent judgement of a position: squared cell distance and cell
		auto cellOf = [&](const Point2d& q, bool& ambiguous) {
			double x = (q.x() - g.ox + (double)g.w / 2) / g.res, y = (q.y() - g.oy + (double)g.h / 2) / g.res;
			ambiguous = std::fabs(x - std::round(x)) < 1e-5 || std::fabs(y - std::round(y)) < 1e-5;
			return std::pair<double, double>(std::floor(x), std::floor(y));
		};
		auto clearance = [&](const Point2d& q, bool& ambiguous) {
			auto c = cellOf(q, ambiguous);
			auto it = known.find(c);
			if (it != known.end()) return it->second;
			double best = 1e300;
			for (auto& o : occ) best = std::min(best, (c.first - o.first) * (c.first - o.first) + (c.second - o.second) * (c.second - o.second));
			return known[c] = std::sqrt(best) * g.res;
		};
		auto outside = [&](const Point2d& q) { return std::max(std::fabs(q.x() - g.ox) - (double)g.w / 2, std::fabs(q.y() - g.oy) - (double)g.h / 2); };
		Pose2d a(op.arg(1), op.arg(2), op.arg(3)), b(op.arg(4), op.arg(5), op.arg(6));
		Ref<PathSE2Base> path;
		switch (op.iarg(0) % 5) {
		case 0: path = makeRef<PathSE2>(a, b); break;
		case 1: path = makeRef<PathReedsShepp>(a, ReedsShepp::Solver::GetShortestPath(a, b, R), R); break;
		case 2: path = makeRef<PathConstantSteer>(model, a, std::clamp(op.arg(6) / 4, -0.8, 0.8), (a.position - b.position).norm(), op.arg(5) > g.oy ? Direction::Forward : Direction::Backward); break;
		case 3: {
			auto c = makeRef<PathSE2CompositeNonHolonomic>();
			Pose2d at = a;
			for (int i = 0; i < 3; i++) {
				auto s = makeRef<PathConstantSteer>(model, at, std::clamp(op.arg(6) / 4, -0.8, 0.8) * (i - 1), (a.position - b.position).norm() / 3, i == 1 ? Direction::Backward : Direction::Forward);
				c->PushBack(s);
				at = s->GetFinalState();
			}
			path = c;
			break;
		}
		default: path = makeRef<PathSE2>(a, Pose2d(b.position, a.theta)); break;
		}
		// dense reference: how far inside the obstacles or outside the map the path ever is
		const double len = path->GetLength();
		int n = std::max(1, (int)std::min(20000.0, std::ceil(len / (0.1 * std::min(step, (double)g.res)))));
		// low: least clearance the path can have around the sample, including cells whose corner it clips between two samples
		std::vector<double> clr(n + 1), out(n + 1), low(n + 1);
		bool amb, ambAny;
		double worst = 1e300, far = -1e300;
		const double gap = std::max(len / n, 1e-5 * g.res);
		for (int i = 0; i <= n; i++) {
			auto q = path->Interpolate((double)i / n).position;
			clr[i] = clearance(q, amb);
			out[i] = outside(q);
			low[i] = clr[i];
			for (int c = 0; c < 4; c++) low[i] = std::min(low[i], clearance(q + Point2d(c & 1 ? gap : -gap, c & 2 ? gap : -gap), amb));
			worst = std::min(worst, low[i]);
			far = std::max(far, out[i]);
		}
		auto wrapper = makeRef<FaultPath>(path);
		const PathSE2Base& subject = op.iarg(0) % 5 == 3 ? *path : *wrapper;
		bool ok = false, aborted = false;
		float ratio = -7;
		stepBudget(200000000ull);
		{
			Armed arm(op);
			try {
				ok = op.arg(7) != 0 ? v.IsPathValid(subject, &ratio) : v.IsPathValid(subject, (float*)nullptr);
			} catch (const Injected&) {
				aborted = true;
			}
			if (aborted && firedInOp() == 0) violate("unexpected-failure", "validation threw although nothing was injected");
		}
		if (aborted) {
			probe("aborted");
			continue;
		}
		{ // the overload that reports the last valid state itself
			Quiet q;
			Pose2d st(1e9, 1e9, 0);
			StateValidatorSE2Base& base = v;
			bool ok2 = base.IsPathValid(*path, &st);
			float again = -7;
			bool ok3 = base.IsPathValid(*path, &again);
			if (ok2 != ok3 || ok3 != ok) violate("overload", "the path is %s, with another way to ask it is not", ok ? "valid" : "invalid");
			if (op.arg(7) != 0 && again != ratio) violate("overload", "the path is valid up to %.9g, asked again up to %.9g", (double)ratio, (double)again);
			Pose2d want = path->Interpolate(again);
			if (!((st.position - want.position).norm() <= 1e-6 * (1 + want.position.norm())) || !(std::fabs(std::remainder(st.theta - want.theta, 2 * M_PI)) <= 1e-6)) violate("overload", "the last valid state is reported as (%g,%g,%g), it is (%g,%g,%g)", st.x(), st.y(), st.theta, want.x(), want.y(), want.theta);
		}
		ev("%zu check kind %ld length %.9g ok %d ratio %.9g worst %.9g far %.9g", k, op.iarg(0) % 5, len, ok, (double)ratio, worst, far);
		const double tol = 0.2 * g.res, slack = step + 1.7 * g.res;
		auto judge = [&](const Pose2d& q, const char* which, bool wantValid) {
			double c = clearance(q.position, ambAny), o = outside(q.position);
			if (wantValid && !ambAny && (o > 1e-6 || c < safe - tol - 1e-6 * (1 + safe))) violate("invalid-state-accepted", "%s of an accepted path has clearance %.5g (%.5g required), %.5g outside", which, c, safe, o);
			if (!wantValid && !ambAny && o < -1e-6 && c > safe + tol + 1e-6 * (1 + safe)) violate("valid-state-refused", "%s has clearance %.5g (%.5g required) and was refused", which, c, safe);
		};
		judge(a, "the position", false == v.IsStateValid(a) ? false : true);
		if (ok) {
			probe("accepted");
			judge(path->GetInitialState(), "the initial state", true);
			judge(path->GetFinalState(), "the final state", true);
			for (int i = 0; i <= n; i++) {
				if (clr[i] < safe - slack) violate("collision-accepted", "accepted path has clearance %.5g at %.4g of its length (%.5g required, %.5g granularity)", clr[i], (double)i / n, safe, slack);
				if (out[i] > slack) violate("outside-accepted", "accepted path leaves the map by %.5g at %.4g of its length", out[i], (double)i / n);
			}
			if (op.arg(7) != 0 && ratio != 1.0f) violate("ratio", "accepted path with last valid ratio %g", (double)ratio);
		} else {
			probe("refused");
			bool reason = far > -1e-4 - gap || worst < safe + tol + 1e-5 * (1 + safe);
			if (!reason) violate("free-path-refused", "a path with clearance %.5g everywhere (%.5g required), %.5g inside the map was refused", worst, safe, -far);
			if (op.arg(7) != 0) {
				if (!(ratio >= 0 && ratio <= 1)) violate("ratio", "refused path with last valid ratio %g", (double)ratio);
				if (len > 0) {
					// up to the reported ratio the path is clear
					bool startOk = v.IsStateValid(path->GetInitialState());
					if (startOk) {
						judge(path->Interpolate(ratio), "the last valid state", true);
						for (int i = 0; i <= n && (double)i / n <= ratio; i++)
							if (clr[i] < safe - slack || out[i] > slack) violate("prefix-unsafe", "the part of the path reported valid (up to %.4g) has clearance %.5g at %.4g (%.5g required)", (double)ratio, clr[i], (double)i / n, safe);
						// and soon after it there is a reason
						double reach = 0;
						{
							bool am;
							Point2d q = path->Interpolate(ratio).position;
							reach = std::max(step, std::min(std::isfinite(clearance(q, am)) ? clearance(q, am) - safe + tol : 1e300, -outside(q))) + 0.2 * step + g.res;
						}
						bool why = false;
						for (int i = 0; i <= n && !why; i++) {
							double s = ((double)i / n - ratio) * len;
							if (s < -0.2 * step || s > reach) continue;
							why = low[i] < safe + tol + 1e-5 * (1 + safe) || out[i] > -1e-4 - gap;
						}
						if (!why) violate("ratio", "the path is reported valid up to %.4g only, but nothing is in the way for another %.4g m", (double)ratio, reach);
						probe("prefix-checked");
					} else if (ratio != 0.0f)
						violate("ratio", "the initial state is invalid but the path is reported valid up to %g", (double)ratio);
				}
			}
		}
		if (!occ.empty() && len > 0) nontrivial();
		Hash h;
		h.add(ok);
		h.addd(ratio);
		h.addd(worst);
		state(h.h);
	}
}
const sim::Property sim::property = { "C15", generate, execute };
