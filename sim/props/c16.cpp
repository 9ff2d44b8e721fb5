// C16: a path that is truncated and extended stays the driven line it was made of.
#include "sim.h"
#include "core/base.h"
#include "geometry/reeds_shepp.h"
#include "models/kinematic_bicycle_model.h"
#include "paths/path_se2.h"
#include "paths/path_r2.h"
#include "paths/path_constant_steer.h"
#include "paths/path_composite.h"
#include "paths/path_reeds_shepp.h"
#include <cmath>
using namespace Planner;
using namespace sim;

static double quant(double v) { return std::round(v * 256) / 256; }

static void generate(Rng& r, Plan& p)
{
	// kind 0: composite of drivable parts, 1: Reeds-Shepp, 2: constant steer, 3: SE2, 4: R2
	int kind = r.chance(0.55) ? 0 : (int)r.range(1, 4);
	p.cfg["kind"] = { (double)kind, r.pick(std::vector<double> { 0.5, 1.0, 1.7, 2.3 }) };
	double faultRate = kind == 0 ? r.pick(std::vector<double> { 0, 0, 0.3 }) : 0;
	auto part = [&]() {
		Op op("push", { (double)r.below(2), quant(r.real(-6, 6)), quant(r.real(-6, 6)), quant(r.real(-3.1, 3.1)), quant(r.real(-0.9, 0.9)), r.chance(0.1) ? 0 : quant(r.real(0.01, 9)), (double)r.below(2), std::pow(10.0, r.real(-1, 3)) });
		if (r.chance(0.15)) op.a[0] = 0, op.a[1] = quant(r.real(-3, 3)), op.a[2] = 0, op.a[3] = 0; // straight
		if (r.chance(0.06)) op.a[0] = 0, op.a[1] = op.a[2] = op.a[3] = 0;                        // nothing to drive
		if (r.chance(faultRate)) op.f.push_back({ "alloc", r.below(3) });
		return op;
	};
	p.ops.push_back(part());
	for (long i = r.range(1, 9); i > 0; i--) {
		double u = r.real();
		if (kind == 0 && u < 0.5) p.ops.push_back(part());
		else p.ops.push_back(Op("cut", { r.chance(0.1) ? r.pick(std::vector<double> { 0, 1 }) : r.chance(0.15) ? -1 - r.real() : r.real() }));
	}
}

/// the untouched original of one part and how much of it is kept
struct Piece {
	Ref<PathSE2Base> path;
	PathNonHolonomicSE2Base* nh = nullptr;
	double keep; // length kept
	double full; // original length
};

static double wrap(double t) { return std::remainder(t, 2 * M_PI); }

static void execute(const Plan& p)
{
	const int kind = (int)p.ci("kind");
	const double R = p.cv("kind").size() > 1 ? std::max(0.2, p.cv("kind")[1]) : 1.0;
	auto model = makeRef<KinematicBicycleModel>(2.6, 1.1);
	Ref<PathSE2Base> subject;
	Ref<PathR2Base> flat;
	Point2d flatTo;
	auto composite = makeRef<PathSE2CompositeNonHolonomic>();
	if (kind == 0) subject = composite;
	std::vector<Piece> pieces;
	Pose2d at(1, -2, 0.5);
	const Pose2d start = at;
	long pushed = 0, cuts = 0;
	bool tiny = false; // a part too short to look at may change the direction and change it back
	bool empty = false; // a part without motion may be what an end of the path belongs to

	auto make = [&](const Op& op, const Pose2d& from, int k) -> Ref<PathSE2Base> {
		Pose2d rel(op.arg(1), op.arg(2), op.arg(3));
		if (k == 1) {
			Pose2d to = from + rel;
			return makeRef<PathReedsShepp>(from, ReedsShepp::Solver::GetShortestPath(from, to, R), R);
		}
		if (k == 2) return makeRef<PathConstantSteer>(model, from, op.arg(4), std::max(0.0, op.arg(5)), op.arg(6) != 0 ? Direction::Forward : Direction::Backward);
		return makeRef<PathSE2>(from, from + rel);
	};
	for (size_t k = 0; k < p.ops.size(); k++) {
		const Op& op = p.ops[k];
		stepBudget(100000000ull);
		if (op.name == "push") {
			if (kind != 0 && pushed) continue;
			int sort = kind == 0 ? (op.arg(0) != 0 ? 2 : 1) : kind;
			if (kind == 4) {
				flat = makeRef<PathR2>(at.position, at.position + Point2d(op.arg(1), op.arg(2)));
				flatTo = flat->GetFinalState();
				Piece q;
				q.path = makeRef<PathSE2>(at, Pose2d(flatTo, at.theta));
				q.full = q.keep = q.path->GetLength();
				pieces.push_back(q);
				pushed++;
			} else {
				auto a = make(op, at, sort), b = make(op, at, sort);
				if (!(a->GetLength() >= 0) || a->GetLength() > 1e6) continue; // the solver found no path
				bool failed = false;
				if (kind == 0) {
					Armed arm(op);
					try {
						composite->PushBack(std::dynamic_pointer_cast<PathNonHolonomicSE2Base>(a));
					} catch (const std::bad_alloc&) {
						failed = true;
					}
				} else
					subject = a;
				if (failed && !firedInOp()) violate("unexpected-failure", "a part could not be appended although nothing was injected");
				if (failed) probe("append-failed");
				else {
					Piece q;
					q.path = b;
					q.nh = dynamic_cast<PathNonHolonomicSE2Base*>(b.get());
					q.full = q.keep = b->GetLength();
					pieces.push_back(q);
					pushed++;
					empty |= q.full < 1e-6;
					tiny |= q.full > 0 && q.full < 1e-6;
					if (cuts) probe("extended-after-cut");
				}
			}
		} else if (op.name == "cut") {
			if (!pushed) continue;
			double total = 0;
			for (auto& q : pieces) total += q.keep;
			double ratio = std::clamp(op.arg(0), 0.0, 1.0);
			if (op.arg(0) < 0 && total > 0) {
				// next to a boundary between two parts
				size_t b = (size_t)((-1 - op.arg(0)) * pieces.size());
				double s = 0;
				for (size_t i = 0; i <= b && i < pieces.size(); i++) s += pieces[i].keep;
				ratio = std::clamp(std::nextafter(s / total, k % 2 ? 0.0 : 2.0), 0.0, 1.0);
			}
			{
				Armed arm(op);
				if (flat) flat->Truncate(ratio);
				else subject->Truncate(ratio);
			}
			cuts++;
			double target = ratio * total, s = 0;
			for (size_t i = 0; i < pieces.size(); i++) {
				if (std::fabs(s + pieces[i].keep - target) < 1e-6) empty = tiny = true;
				if (s + pieces[i].keep >= target) {
					pieces[i].keep = std::max(0.0, target - s);
					pieces.resize(i + 1);
					break;
				}
				s += pieces[i].keep;
			}
			for (auto& q : pieces) {
				empty |= q.keep < 1e-6;
				tiny |= q.keep < 1e-6 && q.full > 0;
			}
		} else
			continue;
		if (!pushed) continue;
		// ---- judge the whole path
		double total = 0;
		for (auto& q : pieces) total += q.keep;
		const double tol = 1e-6 * (1 + total);
		auto length = [&] { return flat ? flat->GetLength() : subject->GetLength(); };
		auto first = [&] { return flat ? Pose2d(flat->GetInitialState(), start.theta) : subject->GetInitialState(); };
		auto last = [&] { return flat ? Pose2d(flat->GetFinalState(), start.theta) : subject->GetFinalState(); };
		// kind 3 and 4 interpolate between poses, the others drive
		auto want = [&](double s) -> Pose2d {
			for (size_t i = 0; i < pieces.size(); i++) {
				auto& q = pieces[i];
				if (s <= q.keep || i + 1 == pieces.size()) return q.path->Interpolate(q.full > 0 ? std::clamp(s / q.full, 0.0, 1.0) : 0.0);
				s -= q.keep;
			}
			return start;
		};
		if (std::fabs(length() - total) > tol) violate("length", "after %ld cuts and %ld parts the path is %.9g long, %.9g is left of its parts", cuts, pushed, length(), total);
		auto off = [](const Pose2d& a, const Pose2d& b) { return (a.position - b.position).norm() + std::fabs(wrap(a.theta - b.theta)); };
		if (off(first(), start) > 1e-9) violate("initial-state", "the path starts %.3g away from where it was started", off(first(), start));
		at = want(total);
		if (off(last(), want(total)) > 1e-5 * (1 + total)) violate("final-state", "the final state is %.6g away from the end of the line", off(last(), want(total)));
		const int n = 60;
		std::vector<double> ratios;
		for (int i = 0; i <= n; i++) ratios.push_back((double)i / n);
		{
			double s = 0;
			for (auto& q : pieces) { // both sides of every boundary
				s += q.keep;
				if (total > 0)
					for (double d : { -1e-9, 0.0, 1e-9 }) ratios.push_back(std::clamp(s / total + d, 0.0, 1.0));
				if (total > 0) {
					ratios.push_back(std::nextafter(std::clamp(s / total, 0.0, 1.0), 0.0));
					ratios.push_back(std::clamp(std::nextafter(s / total, 2.0), 0.0, 1.0));
				}
			}
		}
		std::vector<Pose2d> got;
		{
			Op calm("look");
			Armed arm(calm);
			if (flat)
				for (double x : ratios) got.push_back(Pose2d(flat->Interpolate(x), start.theta));
			else {
				const PathSE2Base& base = *subject;
				got = base.Interpolate(ratios);
			}
		}
		if (got.size() != ratios.size()) violate("interpolate", "%zu states for %zu ratios", got.size(), ratios.size());
		Hash h;
		for (size_t i = 0; i < got.size(); i++) {
			h.addd(got[i].x());
			h.addd(got[i].y());
			double d = off(got[i], want(ratios[i] * total));
			if (!(d <= 2e-5 * (1 + total))) violate("interpolate", "at %.9g of the path the state is %.6g away from the line it was made of (%ld cuts, %ld parts)", ratios[i], d, cuts, pushed);
		}
		state(h.h);
		ev("%zu %s length %.9g parts %zu %016llx", k, op.name.c_str(), length(), pieces.size(), (unsigned long long)h.h);
		if (cuts && total > 0) nontrivial();
		// direction of motion and changes of direction
		auto nh = std::dynamic_pointer_cast<PathNonHolonomicSE2Base>(subject);
		if (!nh || total < 1e-3) continue;
		auto cusps = nh->GetCuspPointRatios();
		for (double c : cusps)
			if (!(c >= -1e-9 && c <= 1 + 1e-9)) violate("cusp", "a change of direction is reported at %.9g of the path", c);
		auto driven = [&](double s) -> Direction { // by looking at the movement
			double e = std::min(1e-4 * (1 + total), total / 50);
			if (s - e < 0 || s + e > total) return Direction::NoMotion;
			Pose2d a = want(s - e), b = want(s + e);
			double along = (b.position - a.position).dot(Point2d(std::cos(want(s).theta), std::sin(want(s).theta)));
			if (std::fabs(along) < 1.9 * e) return Direction::NoMotion; // a cusp is within reach
			return along > 0 ? Direction::Forward : Direction::Backward;
		};
		Direction prev = Direction::NoMotion;
		double prevAt = 0;
		for (int i = 0; i <= 200; i++) {
			double x = i / 200.0;
			Direction is = nh->GetDirection(x), should = driven(x * total);
			if ((i == 0 || i == 200) && !empty && is == Direction::NoMotion && !pieces.empty() && pieces[i ? pieces.size() - 1 : 0].keep > 1e-6) violate("direction", "no direction of motion at %s of a path of length %.6g", i ? "the end" : "the beginning", total);
			if (should == Direction::NoMotion) continue;
			if (is != should) violate("direction", "at %.4g of the path the direction is reported as %d, the motion goes %s", x, (int)is, should == Direction::Forward ? "forwards" : "backwards");
			if (prev != Direction::NoMotion && prev != should) {
				bool found = false;
				for (double c : cusps) found |= c * total > prevAt - 1e-3 * (1 + total) && c * total < x * total + 1e-3 * (1 + total);
				if (!found) violate("cusp", "the direction changes between %.4g and %.4g of the path, no change is reported there", prevAt / total, x);
				probe("cusp-checked");
			}
			prev = should;
			prevAt = x * total;
		}
		// and every reported change is one (motions shorter than the step of the look-out are left alone)
		for (double c : cusps) {
			if (tiny) break;
			double s = c * total, e = 0.02 * (1 + total);
			bool change = false, unknown = false;
			Direction a = Direction::NoMotion;
			for (int i = -20; i <= 20; i++) {
				double t = s + e * i / 20;
				if (t < 0 || t > total) { unknown = true; continue; }
				Direction d = driven(t);
				if (d == Direction::NoMotion) { unknown = true; continue; }
				if (a != Direction::NoMotion && d != a) change = true;
				a = d;
			}
			if (!change && !unknown) {
				// a motion of no length in between is a change and a change back
				violate("cusp", "a change of direction is reported at %.6g of the path, where the motion goes on", c);
			}
		}
	}
}
const sim::Property sim::property = { "C16", generate, execute };
